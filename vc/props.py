"""What each property's check verifies: contracts (with everything they rest on), lemmas and instruction obligations."""
import lib, states, bits, ticks, lemmas, ixtask
from lib import *


def closure(cs):
    out = []

    def add(c):
        if c in out: return
        for u in list(getattr(c, "uses", ())) + list(getattr(c, "needs", ())):
            add(u)
        out.append(c)
    for c in cs: add(c)
    return out


PROPS = {}


def prop(pid, contracts, **kw):
    PROPS[pid] = dict(contracts=closure(contracts), **kw)


prop("C01", ARITH)
prop("C02", [], tasks=[("tick price mapping", ticks.task_c02)])
prop("C03", [], tasks=[("tick price accuracy", ticks.task_c03)])
prop("C04", [next_in, next_out])
prop("C05", [amount0, amount1, amount0s, amount1s])
prop("C06", [swap_step])
prop("C07", [liq_for_amounts, lemmas.mint_cost])
prop("C08", [lemmas.round_trip, amount0s, amount1s, amtsliq])
prop("C09", [states.tick_update, states.tick_clear, states.tick_is_clear])
prop("C10", [bits.flip, bits.nextbit, states.bitpos])
IX = ixtask.tasks
TICKS = [("tick price mapping", ticks.task_c02)]
prop("C11", [lemmas.growth, states.tick_update, states.position_update, swap_step], tasks=IX("C11"))
prop("C12", [lemmas.growth, states.position_update, states.tick_update], tasks=IX("C12"))
prop("C13", [amount0s, amount1s, swap_step, states.position_update, lemmas.round_trip], tasks=IX("C13"))
prop("C14", [], tasks=IX("C14"))
prop("C15", [swap_step, bits.nextbit, states.bitpos], tasks=TICKS + IX("C15"))
prop("C16", [lemmas.mint_cost, liq_for_amounts, amount0s, amount1s], tasks=IX("C16"))
prop("C17", [], tasks=IX("C17"))
prop("C18", [lemmas.growth, states.position_update, liq_for_amounts, amount0s, amount1s], tasks=IX("C18"))
prop("C19", [states.obs_update, states.obs_latest, states.next_obs], tasks=IX("C19"))
prop("C20", [states.tick_update, states.tick_clear, states.tick_is_clear, states.tick_cross, bits.flip, bits.nextbit, states.bitpos, swap_step], tasks=TICKS + IX("C20"))
prop("C21", [], tasks=TICKS + IX("C21"))
prop("C22", [swap_step, states.position_update, lemmas.growth], tasks=IX("C22"))
prop("C23", [states.next_obs, states.bitpos], tasks=IX("C23"))
prop("C24", [], tasks=IX("C24"))
prop("C25", [lemmas.snapshot])
