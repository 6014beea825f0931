"""Symbolic execution of whole instructions (the generated entry point down to the library contracts)."""
import time
import z3
from sym import E, State, Agg, Ptr, Op, norm
from spec import Path
from dom import Unsupported
import anchor, lib, states, bits, ticks
from mir import LostAnchor

LIBS = lib.ARITH + [lib.add_delta, lib.amount0, lib.amount1, lib.next0, lib.next1, lib.next_in, lib.next_out, lib.swap_step, lib.amount0s, lib.amount1s,
                    lib.liq0, lib.liq1, lib.liq_for_amounts, lib.amtliq0, lib.amtliq1, lib.amtsliq,
                    states.tick_update, states.tick_cross, states.tick_clear, states.tick_is_clear, states.fee_inside, states.position_update,
                    states.obs_transform, states.obs_update, states.obs_latest, states.next_obs, states.bitpos,
                    bits.flip, bits.nextbit, ticks.ratio_at_tick, ticks.tick_at_ratio]


class Inst:
    def __init__(self, mir, ix, contracts=LIBS, feas_ms=300, budget=240, merge=(), prep=None, go=True, cuts=()):
        """cuts: [(function name suffix, loops.Cut)]"""
        for _, c in cuts: c.reset()
        for rnd in range(6):
            self._run(mir, ix, contracts, feas_ms, budget, merge, prep, go, cuts)
            if not any(c.dirty for _, c in cuts):
                return
            for _, c in cuts: c.reset()
        raise Unsupported("loop changes do not stabilise")

    def _run(self, mir, ix, contracts, feas_ms, budget, merge, prep, go, cuts):
        self.m = mir
        self.ix = ix
        self.fn = mir.fn("__private::__global::" + ix)
        self.name = ix
        self.e = e = E(mir, "int", feas_ms=feas_ms)
        e.merge_contracts = True
        e.drop_err = {self.fn['id']} | {f['id'] for f in mir.fns if norm(f['name']).endswith('cyclos_core::cyclos_core::' + ix)}
        e.feas_defs = False
        e.deadline = time.time() + budget
        for c in contracts:
            c.bind(e)
        self.st = State()
        self.ctx_ty = None
        for s, tm in self.fn["blocks"]:
            if tm[0] == "call" and tm[1][0] == "k" and "fn" in tm[1][1]:
                f2 = mir.fns[tm[1][1]["fn"]]
                if norm(f2["name"]).endswith("as anchor_lang::Accounts>::try_accounts"):
                    ot = mir.T(f2["out"])
                    self.ctx_ty = ot["variants"][0]["fields"][0][1]
                    e.acct_names = [x for x, _ in mir.T(self.ctx_ty)["variants"][0]["fields"]]
        for n, c in cuts:
            for f in mir.fns:
                if "blocks" in f and norm(f["name"]).endswith(n):
                    e.loop_cuts[f["id"]] = c
        self.cuts = dict(cuts)
        for n in merge:
            f = mir.find(n)
            if f: e.merge_calls.add(f["id"])
        self.args = [Ptr("pidobj"), Op("accts", 0), Op("bytes", "ixdata", None)]
        self.st.mem["pidobj"] = e.pid
        if prep: prep(self)
        if go: self.go()

    def go(self):
        t = time.time()
        r = self.e.call(self.st.fork(), self.fn, self.args, 0)
        self.paths = [Path("ret", s, v) for s, v in r]
        self.secs = time.time() - t
        return self

    @property
    def oks(self):
        return [p for p in self.paths if p.is_ok]

    # vocabulary ---------------------------------------------------------
    def arg(self, n):
        return self.e.init["arg." + n]
