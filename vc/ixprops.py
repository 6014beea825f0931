"""Postconditions of the instructions, grouped by property."""
import z3
from ixspec import *

FG = ("fee_growth_outside_0_x32", "fee_growth_outside_1_x32")
TICK_ALL = ("liquidity_net", "liquidity_gross") + FG + ("tick_cumulative_outside", "seconds_per_liquidity_outside_x32", "seconds_outside")
CORE = dict(pool="pool_state", tl="tick_lower_state", tu="tick_upper_state", bl="bitmap_lower_state", bu="bitmap_upper_state", pos="position_state", obs="last_observation_state")
NFT = dict(CORE, pos="core_position_state")


def calls_out(v):
    return [x for x in v.log if x[0] in ("invoke", "transfer")]


# ------------------------------------------------------------------ shared clauses
def lock(v, pool="pool_state"):
    a, b = v.pre(pool, "PoolState"), v.post(pool, "PoolState")
    yield "C14", "the pool was unlocked before", a["unlocked"]
    yield "C14", "the pool is unlocked afterwards", b["unlocked"]
    for x in calls_out(v):
        yield "C14", "the pool is locked while other programs run", z3.Not(v.at(x[-1], pool, "PoolState")["unlocked"])


def no_payout(v, but=()):
    """no transfer carries program signatures"""
    for x in v.evs("transfer"):
        yield "C13", "the program's signature moves no tokens here", T if x[5] is None else F
    for x in v.evs("spl"):
        if x[1] not in but:
            yield "C13", "no other token operation with the program's signature", T if x[4] is None else F


def payouts(v, pool, vaults, dests, due):
    """transfers with the pool's signature: exactly the amounts due, from the pool's vaults to the given accounts"""
    P = v.pre(pool, "PoolState")
    ts = v.evs("transfer")
    yield "C13", "no token operation besides the payouts", T if not v.evs("spl") and not v.evs("invoke") else F
    for i in (0, 1):
        mine = [x for x in ts if x[1] == vaults[i]]
        other = [x for x in ts if x[1] not in vaults]
        tot = z3.Sum([x[4] for x in mine]) if mine else I(0)
        yield "C13", "token_%d: exactly the amount due leaves the vault" % i, tot == due[i]
        yield "C13", "token_%d: no other account is debited" % i, T if not other else F
        for x in mine:
            yield "C13", "token_%d: the payout goes to the account named for it" % i, T if x[2] == dests[i] else F
            yield "C23", "token_%d: the payout comes from the pool's own vault" % i, v.key(x[1]) == v.ata(v.key(pool), P["token_%d" % i])
            yield "C13", "token_%d: the pool signs the payout" % i, T if x[3] == pool and x[5] is not None else F
            if x[5]:
                yield "C13", "token_%d: the pool's seeds sign the payout" % i, v.pda(*x[5]) == v.pda(*v.pool_pda_seeds(P))


def pool_keeps(v, pool, *but):
    fs = [f for f in names(v.e, typ(v.e, "PoolState")) if f not in but and f != "unlocked"]
    return v.keeps(pool, "PoolState", *fs)


def checked(v, A, owner):
    """the accounts of a position operation belong to this pool, this owner and these ticks"""
    P = v.pre(A["pool"], "PoolState")
    lo, up, ps = v.pre(A["tl"], "TickState"), v.pre(A["tu"], "TickState"), v.pre(A["pos"], "PositionState")
    yield "C23", "the pool account is a pool of this program", v.typed(A["pool"], "PoolState")
    yield "C23", "the lower tick account belongs to the pool", And(v.key(A["tl"]) == v.tick_addr(P, lo["tick"], lo["bump"]), v.typed(A["tl"], "TickState"))
    yield "C23", "the upper tick account belongs to the pool", And(v.key(A["tu"]) == v.tick_addr(P, up["tick"], up["bump"]), v.typed(A["tu"], "TickState"))
    yield "C23", "the position account is the owner's for this range of this pool", And(v.key(A["pos"]) == v.position_addr(P, owner, lo["tick"], up["tick"], ps["bump"]), v.typed(A["pos"], "PositionState"))


def checked_mod(v, A, owner):
    yield from checked(v, A, owner)
    P = v.pre(A["pool"], "PoolState")
    for b, t, nm in ((A["bl"], A["tl"], "lower"), (A["bu"], A["tu"], "upper")):
        tick = v.pre(t, "TickState")["tick"]
        B = v.pre(b, "TickBitmapState")
        word = v.wrap(v.e.d.bin("Div", tick, P["tick_spacing"], 32, True) / I(256), 16, True)
        yield "C23", "the %s bitmap account holds the tick's word of the pool" % nm, And(v.key(b) == v.bitmap_addr(P, word, B["bump"]), v.typed(b, "TickBitmapState"))
    O = v.pre(A["obs"], "ObservationState")
    yield "C23", "the observation account is the pool's latest record", And(v.key(A["obs"]) == v.obs_addr(P, P["observation_index"], O["bump"]), v.typed(A["obs"], "ObservationState"))


def modify(v, A, delta, amounts):
    """liquidity of a position changes by delta (> 0 in mint, < 0 in burn, 0 in a poke).
    amounts: the two token amounts credited to the position (burn), or None"""
    e = v.e
    P, Q = v.pre(A["pool"], "PoolState"), v.post(A["pool"], "PoolState")
    lo, up = v.pre(A["tl"], "TickState"), v.pre(A["tu"], "TickState")
    lo2, up2 = v.post(A["tl"], "TickState"), v.post(A["tu"], "TickState")
    ps, ps2 = v.pre(A["pos"], "PositionState"), v.post(A["pos"], "PositionState")
    cur = P["tick"]
    inr = And(lo["tick"] <= cur, cur < up["tick"])
    # --- active liquidity
    yield "C20", "the range is not empty", lo["tick"] < up["tick"]
    yield "C20", "active liquidity changes by the delta exactly when the range contains the current tick", Q["liquidity"] == P["liquidity"] + z3.If(inr, delta, 0)
    yield "C20", "active liquidity stays in range", And(Q["liquidity"] >= 0, Q["liquidity"] <= M64)
    yield "C20", "price, tick and fee accounting of the pool are untouched", pool_keeps(v, A["pool"], "liquidity", "observation_index", "observation_cardinality", "observation_cardinality_next")
    # --- ticks
    for nm, t, t2, sg in (("lower", lo, lo2, 1), ("upper", up, up2, -1)):
        g2 = t["liquidity_gross"] + delta
        fl = z3.Xor(t["liquidity_gross"] == 0, g2 == 0)
        gone = And(delta < 0, fl)
        yield "C20", "%s tick: gross liquidity changes by the delta" % nm, And(t2["liquidity_gross"] == g2, g2 >= 0)
        yield "C20", "%s tick: net liquidity changes by the delta with the bound's sign" % nm, t2["liquidity_net"] == z3.If(gone, 0, t["liquidity_net"] + sg * delta)
        first = And(delta != 0, t["liquidity_gross"] == 0, t["tick"] <= cur)
        for i in (0, 1):
            yield "C20", "%s tick: outside fee growth %d starts at the global value at or below the current tick, else is kept; cleared when the tick empties" % (nm, i), \
                t2[FG[i]] == z3.If(gone, 0, z3.If(first, P["fee_growth_global_%d_x32" % i], t[FG[i]]))
        yield "C20", "%s tick: an emptied tick is clear" % nm, z3.Implies(gone, And(*[t2[f] == 0 for f in TICK_ALL]))
        yield "C20", "%s tick: its identity is kept" % nm, And(t2["tick"] == t["tick"], t2["bump"] == t["bump"])
    # --- bitmap
    fl = [z3.Xor(t["liquidity_gross"] == 0, t["liquidity_gross"] + delta == 0) for t in (lo, up)]
    same = v.key(A["bl"]) == v.key(A["bu"])
    evs = v.evs("flip")
    ol, ou = obj(e, A["bl"], "TickBitmapState"), obj(e, A["bu"], "TickBitmapState")
    want = [(And(fl[0]), ol, lo), (fl[1], None, up)]
    bits = [e.d.bin("Div", t["tick"], P["tick_spacing"], 32, True) % I(256) for t in (lo, up)]
    n = len(evs)
    yield "C20", "one bitmap bit is flipped for every tick that becomes initialized or uninitialized", z3.If(fl[0], 1, 0) + z3.If(fl[1], 1, 0) == n

    def isev(x, i):
        objs = [ol] if i == 0 else [ou, ol]
        c = F
        for o in objs:
            if x[1] == o:
                c = T if i == 0 else (same if o == ol and ol != ou else (z3.Not(same) if ol != ou else T))
        if i == 0 and x[1] == ou and ou != ol: c = same
        return And(c, x[2] == bits[i])
    if n == 1:
        yield "C20", "the flipped bit is the tick's", z3.Or(And(fl[0], isev(evs[0], 0)), And(fl[1], isev(evs[0], 1)))
    if n == 2:
        yield "C20", "the flipped bits are the ticks'", z3.Or(And(isev(evs[0], 0), isev(evs[1], 1)), And(isev(evs[0], 1), isev(evs[1], 0)))
    touched = {x[1] for x in evs}
    for a in v.cls("TickBitmapState"):
        o = obj(e, a, "TickBitmapState")
        if o not in touched:
            yield "C20", "bitmap words change only by these flips", eqv(e.init[o], v.st.mem[o])
    # --- position
    yield "C12", "the position's liquidity changes by the delta", And(ps2["liquidity"] == ps["liquidity"] + delta, ps2["liquidity"] >= 0)
    yield "C12", "a position without liquidity cannot be poked", z3.Implies(delta == 0, ps["liquidity"] > 0)
    for i in (0, 1):
        g = P["fee_growth_global_%d_x32" % i]
        outs = []
        for t in (lo, up):
            first = And(delta != 0, t["liquidity_gross"] == 0, t["tick"] <= cur)
            outs.append(z3.If(first, g, t[FG[i]]))
        below = z3.If(cur >= lo["tick"], outs[0], g - outs[0])
        above = z3.If(cur < up["tick"], outs[1], g - outs[1])
        x2 = ps2["fee_growth_inside_%d_last_x32" % i]
        yield "C11", "token_%d: the growth recorded in the position is the growth inside its range" % i, And(v.modeq(x2, g - below - above), x2 >= 0, x2 <= M64)
        fee = v.S.FD(v.wrap(x2 - ps["fee_growth_inside_%d_last_x32" % i]) * ps["liquidity"], I(Q32))
        amt = amounts[i] if amounts else I(0)
        o2 = ps2["tokens_owed_%d" % i]
        yield "C13", "token_%d: the position is credited its fees and the amount removed, rounded down" % i, And(v.modeq(o2, ps["tokens_owed_%d" % i] + fee + amt), o2 >= 0, o2 <= M64)
    yield "C12", "the position's identity is kept", ps2["bump"] == ps["bump"]
    # --- nothing else
    yield "C20", "no other tick, bitmap or pool account changes", And(v.unchanged("TickState", (A["tl"], A["tu"])), v.unchanged("PoolState", (A["pool"],)))
    yield "C13", "no other position changes", v.unchanged("PositionState", (A["pos"],))
    yield from observe(v, A, delta, inr)


def observe(v, A, delta, inr):
    """the oracle record written when the active liquidity changes"""
    P, Q = v.pre(A["pool"], "PoolState"), v.post(A["pool"], "PoolState")
    yield from oracle(v, A, And(delta != 0, inr), P, Q)


def oracle(v, A, due, P, Q):
    e = v.e
    O = v.pre(A["obs"], "ObservationState")
    now = v.wrap(v.clock, 32) if v.clock is not None else None
    wrote = []
    for a in v.cls("ObservationState"):
        o = obj(e, a, "ObservationState")
        if not is_true(eqv(e.init[o], v.st.mem[o])): wrote.append(a)
    yield "C19", "no record is written unless one is due", z3.Implies(z3.Not(due), And(*[eqv(e.init[obj(e, a, "ObservationState")], v.st.mem[obj(e, a, "ObservationState")]) for a in wrote]))
    yield "C19", "without a due record the pool's ring pointers are kept", z3.Implies(z3.Not(due), And(Q["observation_index"] == P["observation_index"], Q["observation_cardinality"] == P["observation_cardinality"], Q["observation_cardinality_next"] == P["observation_cardinality_next"]))
    yield "C19", "the announced ring size never shrinks", Q["observation_cardinality_next"] == P["observation_cardinality_next"]
    yield "C19", "the ring grows only to the announced size", z3.Or(Q["observation_cardinality"] == P["observation_cardinality"], Q["observation_cardinality"] == P["observation_cardinality_next"])
    if now is None: return
    newpart = v.e.d.div("fd", now, I(14)) > v.e.d.div("fd", O["block_timestamp"], I(14))
    nxts = [a for a in v.cls("ObservationState") if a != A["obs"]]
    adv = lambda: states_adv(v, O, now, P)
    O2 = v.post(A["obs"], "ObservationState")
    rec = adv()
    flds = ("block_timestamp", "tick_cumulative", "seconds_per_liquidity_cumulative_x32")
    written_here = And(*[O2[f] == rec[f] for f in flds])
    samesec = O["block_timestamp"] == now
    yield "C19", "within the same 14-second window the latest record itself is advanced with the tick and liquidity in force until now", \
        z3.Implies(And(due, z3.Not(newpart)), And(z3.If(samesec, eqv(e.init[obj(e, A["obs"], "ObservationState")], v.st.mem.get(obj(e, A["obs"], "ObservationState"))), written_here), Q["observation_index"] == O["index"]))
    if nxts:
        n = nxts[0]
        N, N2 = v.pre(n, "ObservationState"), v.post(n, "ObservationState")
        yield "C19", "in a new window the next slot continues the latest record with the tick and liquidity in force until now", \
            z3.Implies(And(due, newpart), And(*[N2[f] == rec[f] for f in flds]))
        yield "C19", "the pool points to the slot written last", z3.Implies(And(due, newpart), Q["observation_index"] == N["index"])
        idx = v.e.d.div("md", v.wrap(P["observation_index"] + 1, 16), P["observation_cardinality_next"])
        yield "C23", "the next record is the slot after the latest in the pool's ring", z3.Implies(And(due, newpart), v.key(n) == v.obs_addr(P, idx, N["bump"]))
    else:
        yield "C19", "in a new window the next slot is written", z3.Not(And(due, newpart))


def states_adv(v, O, now, P):
    import states
    return states.transformed(v.S, None, O, now, P["tick"], P["liquidity"])


def region_amounts(v, A, L, up):
    """token amounts of liquidity L in the range at the pool's price"""
    P = v.pre(A["pool"], "PoolState")
    lo, hi = v.pre(A["tl"], "TickState")["tick"], v.pre(A["tu"], "TickState")["tick"]
    cur, p = P["tick"], P["sqrt_price_x32"]
    rl, rh = v.ratio(lo), v.ratio(hi)
    a0 = z3.If(cur < lo, v.amount(0, rl, rh, L, up), z3.If(cur < hi, v.amount(0, p, rh, L, up), 0))
    a1 = z3.If(cur < lo, 0, z3.If(cur < hi, v.amount(1, rl, p, L, up), v.amount(1, rl, rh, L, up)))
    return a0, a1


def cb_args(v, x, name):
    """arguments of a callback invocation event"""
    ix = x[1]
    if isinstance(ix, Op) and ix.t == "ix" and len(ix.a) > 2 and isinstance(ix.a[2], Op) and ix.a[2].t == "ixdata" and ix.a[2].a[0] == name:
        e = v.e
        ti = [i for i, t in enumerate(e.m.types) if t["k"] == "adt" and t["path"].endswith("::instruction::" + name)]
        if not ti: raise LostAnchor("arguments of " + name)
        return dict(zip(names(e, ti[0]), ix.a[2].a[1].f))
    return None


# ------------------------------------------------------------------ core instructions
def core_mint(v, A, L, owner, vaults=("vault_0", "vault_1"), handler="callback_handler"):
    P = v.pre(A["pool"], "PoolState")
    due = region_amounts(v, A, L, True)
    yield "C20", "liquidity minted is positive", And(L > 0, L < (1 << 63))
    yield from modify(v, A, L, None)
    yield from checked_mod(v, A, owner)
    yield from lock(v, A["pool"])
    for i in (0, 1):
        yield "C23", "vault_%d is the pool's own" % i, v.key(vaults[i]) == v.ata(v.key(A["pool"]), P["token_%d" % i])
    iv = v.evs("invoke")
    yield "C13", "one payment callback", T if len(iv) == 1 else F
    for x in iv[:1]:
        cb = cb_args(v, x, "MintCallback")
        yield "C13", "the callback is the payment callback", T if cb is not None else F
        if cb is not None:
            for i in (0, 1):
                yield "C13", "token_%d: the payer is asked for the rounded-up amount of the liquidity" % i, cb["amount_%d_owed" % i] == due[i]
        for i in (0, 1):
            b0 = x[-1].gh.get("bal:" + vaults[i], v.bal0(vaults[i]))
            yield "C13", "token_%d: the vault has received the amount due" % i, z3.Implies(due[i] > 0, v.bal(vaults[i]) >= b0 + due[i])


def mint(v):
    yield "C17", "the minter signs", v.signer("minter")
    yield from core_mint(v, CORE, v.arg("amount"), v.key("recipient"))
    yield from no_payout(v)
    d = region_amounts(v, CORE, v.arg("amount"), True)
    yield from event(v, "MintEvent", dict(pool_state=v.key("pool_state"), sender=v.key("minter"), owner=v.key("recipient"), tick_lower=v.pre("tick_lower_state", "TickState")["tick"],
                     tick_upper=v.pre("tick_upper_state", "TickState")["tick"], amount=v.arg("amount"), amount_0=d[0], amount_1=d[1]))


def event(v, name, want):
    r = v.emitted(name)
    yield "C24", "exactly one %s" % name, T if len(r) == 1 else F
    for d in r[:1]:
        for k, w in want.items():
            if k not in d: raise LostAnchor("field %s of %s" % (k, name))
            yield "C24", "%s reports %s" % (name, k), d[k] == w


def core_burn(v, A, L, owner):
    amts = region_amounts(v, A, L, False)
    amts = tuple(z3.If(L == 0, 0, a) for a in amts)
    yield from modify(v, A, -L, amts)
    yield from checked_mod(v, A, owner)
    yield from lock(v, A["pool"])
    for i in (0, 1):
        yield "C13", "token_%d: the amount removed fits" % i, And(amts[i] >= 0, amts[i] <= M64)


def burn(v):
    L = v.arg("amount")
    yield "C17", "the position's owner signs", v.signer("owner")
    yield from core_burn(v, CORE, L, v.key("owner"))
    yield from no_payout(v)
    yield "C13", "no other program is called", T if not v.evs("invoke") and not v.evs("spl") else F
    d = [z3.If(L == 0, 0, a) for a in region_amounts(v, CORE, L, False)]
    yield from event(v, "BurnEvent", dict(pool_state=v.key("pool_state"), owner=v.key("owner"), tick_lower=v.pre("tick_lower_state", "TickState")["tick"],
                     tick_upper=v.pre("tick_upper_state", "TickState")["tick"], amount=L, amount_0=d[0], amount_1=d[1]))


def collect(v):
    ps, ps2 = v.pre("position_state", "PositionState"), v.post("position_state", "PositionState")
    amt = []
    for i in (0, 1):
        r, o = v.arg("amount_%d_requested" % i), ps["tokens_owed_%d" % i]
        amt.append(z3.If(r <= o, r, o))
        yield "C13", "token_%d: what is owed decreases by exactly what is paid" % i, ps2["tokens_owed_%d" % i] == o - amt[i]
    yield "C13", "the rest of the position is kept", v.keeps_but("position_state", "PositionState", "tokens_owed_0", "tokens_owed_1")
    yield from payouts(v, "pool_state", ("vault_0", "vault_1"), ("recipient_wallet_0", "recipient_wallet_1"), amt)
    yield "C13", "the pool is untouched", pool_keeps(v, "pool_state")
    yield "C13", "no other position changes", v.unchanged("PositionState", ("position_state",))
    yield "C20", "ticks are untouched", v.unchanged("TickState")
    yield "C17", "the position's owner signs", v.signer("owner")
    yield from checked(v, CORE, v.key("owner"))
    yield from lock(v)
    yield from event(v, "CollectEvent", dict(pool_state=v.key("pool_state"), owner=v.key("owner"), tick_lower=v.pre("tick_lower_state", "TickState")["tick"],
                     tick_upper=v.pre("tick_upper_state", "TickState")["tick"], amount_0=amt[0], amount_1=amt[1]))


def is_admin(v, who="owner"):
    f = v.pre("factory_state", "FactoryState")
    yield "C17", "the protocol owner signs", And(v.signer(who), v.key(who) == f["owner"])
    yield "C23", "the factory account is this program's", v.typed("factory_state", "FactoryState")


def collect_protocol(v):
    P, Q = v.pre("pool_state", "PoolState"), v.post("pool_state", "PoolState")
    amt = []
    for i in (0, 1):
        r, o = v.arg("amount_%d_requested" % i), P["protocol_fees_token_%d" % i]
        amt.append(z3.If(r <= o, r, o))
        yield "C13", "token_%d: protocol fees decrease by exactly what is paid" % i, Q["protocol_fees_token_%d" % i] == o - amt[i]
    yield "C13", "the rest of the pool is kept", pool_keeps(v, "pool_state", "protocol_fees_token_0", "protocol_fees_token_1")
    yield from payouts(v, "pool_state", ("vault_0", "vault_1"), ("recipient_wallet_0", "recipient_wallet_1"), amt)
    yield from is_admin(v)
    yield "C17", "the factory is untouched", v.unchanged("FactoryState")
    yield "C23", "the pool account is a pool of this program", v.typed("pool_state", "PoolState")
    yield from lock(v)
    yield from event(v, "CollectProtocolEvent", dict(pool_state=v.key("pool_state"), sender=v.key("owner"), recipient_wallet_0=v.key("recipient_wallet_0"),
                     recipient_wallet_1=v.key("recipient_wallet_1"), amount_0=amt[0], amount_1=amt[1]))


# ------------------------------------------------------------------ administration
def init_factory(v):
    f = v.post("factory_state", "FactoryState")
    yield "C21", "the factory starts with the signer as owner and a fee share of one third", And(f["owner"] == v.key("owner"), f["fee_protocol"] == 3)
    yield "C17", "the owner signs", v.signer("owner")
    yield "C21", "the factory is created, once, at its address", And(T if ("load_init", "factory_state", "FactoryState") in v.log else F, v.key("factory_state") == find(v, []))
    yield from event(v, "OwnerChanged", dict(new_owner=v.key("owner")))


def find(v, parts):
    """canonical program derived address of the seeds"""
    e = v.e
    shape = "|".join("key" if t == "u8" else t for t, _ in parts)
    a = [x for _, x in parts if x is not None]
    b = anchor.uf(e, "bump[%s]" % "|".join(t for t, _ in parts), a) if a else z3.Int("bump[%s]" % "|".join(t for t, _ in parts))
    return anchor.pda(e, list(parts) + [("key", b)])


def bump_of(v, parts):
    e = v.e
    a = [x for _, x in parts if x is not None]
    return anchor.uf(e, "bump[%s]" % "|".join(t for t, _ in parts), a) if a else z3.Int("bump[%s]" % "|".join(t for t, _ in parts))


def created(v, acct, ty, parts):
    yield "C21", "%s is created, once, at its address" % acct, And(T if ("load_init", acct, ty) in v.log else F, v.key(acct) == find(v, parts))
    yield "C21", "%s records its bump" % acct, v.post(acct, ty)["bump"] == bump_of(v, parts)


def set_owner(v):
    f = v.post("factory_state", "FactoryState")
    yield "C17", "the new owner is recorded and nothing else", And(f["owner"] == v.key("new_owner"), v.keeps_but("factory_state", "FactoryState", "owner"))
    yield from is_admin(v)
    yield from event(v, "OwnerChanged", dict(old_owner=v.pre("factory_state", "FactoryState")["owner"], new_owner=v.key("new_owner")))


def set_fee_protocol(v):
    f, n = v.post("factory_state", "FactoryState"), v.arg("fee_protocol")
    yield "C17", "the new share is recorded and nothing else", And(f["fee_protocol"] == n, v.keeps_but("factory_state", "FactoryState", "fee_protocol"))
    yield "C22", "the protocol's share of fees is between a tenth and a half", And(n >= 2, n <= 10)
    yield from is_admin(v)
    yield from event(v, "SetFeeProtocolEvent", dict(fee_protocol_old=v.pre("factory_state", "FactoryState")["fee_protocol"], fee_protocol=n))


def enable_fee_amount(v):
    fee, sp = v.arg("fee"), v.arg("tick_spacing")
    s = v.post("fee_state", "FeeState")
    yield "C21", "fee tiers are below 100% with a spacing between 1 and 16383", And(fee >= 0, fee < 1000000, sp > 0, sp < 16384)
    yield "C21", "the tier is recorded", And(s["fee"] == fee, s["tick_spacing"] == sp)
    yield from created(v, "fee_state", "FeeState", [v.lit("f"), v.be(32, fee)])
    yield from is_admin(v)
    yield "C17", "the factory is untouched", v.unchanged("FactoryState")
    yield from event(v, "FeeAmountEnabled", dict(fee=fee, tick_spacing=sp))


def create_and_init_pool(v):
    e = v.e
    p = v.post("pool_state", "PoolState")
    fs = v.pre("fee_state", "FeeState")
    price = v.arg("sqrt_price_x32")
    t0, t1 = v.key("token_0"), v.key("token_1")
    # the two tokens are ordered, so every pair and tier has one pool
    yield "C21", "the tokens are distinct and ordered", t0 < t1
    yield "C21", "the fee tier account is this program's", v.typed("fee_state", "FeeState")
    yield "C21", "tokens, fee and spacing are recorded", And(p["token_0"] == t0, p["token_1"] == t1, p["fee"] == fs["fee"], p["tick_spacing"] == fs["tick_spacing"])
    yield "C21", "the price is inside the price range", And(price >= PMIN, price < PMAX)
    yield "C21", "price and tick agree", And(p["sqrt_price_x32"] == price, v.ratio(p["tick"]) <= price, price < v.ratio(p["tick"] + 1), p["tick"] >= ticks.MINT, p["tick"] < ticks.MAXT)
    yield "C21", "the pool starts unlocked and empty", And(p["unlocked"], *[p[f] == 0 for f in ("liquidity", "observation_index", "fee_growth_global_0_x32", "fee_growth_global_1_x32", "protocol_fees_token_0", "protocol_fees_token_1")])
    yield "C21", "the oracle starts with one record", And(p["observation_cardinality"] == 1, p["observation_cardinality_next"] == 1)
    sd = [("key", t0), ("key", t1), v.be(32, fs["fee"])]
    yield from created(v, "pool_state", "PoolState", [v.lit("p")] + sd)
    o = v.post("initial_observation_state", "ObservationState")
    yield from created(v, "initial_observation_state", "ObservationState", [v.lit("o")] + sd + [v.be(16, I(0))])
    yield "C21", "the first record is empty and stamped with the time", And(o["index"] == 0, o["block_timestamp"] == v.wrap(v.clock, 32), o["tick_cumulative"] == 0, o["seconds_per_liquidity_cumulative_x32"] == 0, o["initialized"])
    yield "C17", "the creator signs", v.signer("pool_creator")
    inv = And(*inv_pool(e, p))
    finv = And(fs["fee"] < 1000000, fs["tick_spacing"] > 0, fs["tick_spacing"] < 16384)
    yield "C21", "a new pool satisfies what every instruction assumes of pools", z3.Implies(finv, inv)
    yield from event(v, "PoolCreatedAndInitialized", dict(token_0=t0, token_1=t1, fee=fs["fee"], tick_spacing=fs["tick_spacing"], pool_state=v.key("pool_state"), sqrt_price_x32=price, tick=p["tick"]))


def init_tick_account(v):
    P = v.pre("pool_state", "PoolState")
    t, s = v.arg("tick"), v.post("tick_state", "TickState")
    yield "C21", "a tick is inside the tick range", And(t >= ticks.MINT, t <= ticks.MAXT)
    yield "C21", "a tick is a multiple of the pool's spacing", v.e.d.bin("Rem", t, P["tick_spacing"], 32, True) == 0
    yield "C21", "a new tick is clear", And(s["tick"] == t, *[s[f] == 0 for f in TICK_ALL])
    yield "C21", "the pool account is a pool of this program", v.typed("pool_state", "PoolState")
    yield from created(v, "tick_state", "TickState", [v.lit("t"), ("key", P["token_0"]), ("key", P["token_1"]), v.be(32, P["fee"]), v.be(32, t)])
    yield "C20", "the pool is untouched", v.unchanged("PoolState")


def close_tick_account(v):
    t = v.pre("tick_state", "TickState")
    yield "C20", "only a clear tick can be closed", And(*[t[f] == 0 for f in TICK_ALL])
    yield "C20", "the closed account is the tick", T if [x[1] for x in v.evs("close")] == ["tick_state"] else F
    yield "C23", "the tick account is this program's", v.typed("tick_state", "TickState")


def init_bitmap_account(v):
    P = v.pre("pool_state", "PoolState")
    w, b = v.arg("word_pos"), v.post("bitmap_state", "TickBitmapState")
    yield "C21", "a new bitmap word is empty", And(b["word_pos"] == w, *[x == 0 for x in b["word"].f])
    yield "C21", "the pool account is a pool of this program", v.typed("pool_state", "PoolState")
    yield from created(v, "bitmap_state", "TickBitmapState", [v.lit("b"), ("key", P["token_0"]), ("key", P["token_1"]), v.be(32, P["fee"]), v.be(16, w)])


def init_position_account(v):
    P = v.pre("pool_state", "PoolState")
    lo, up = v.pre("tick_lower_state", "TickState")["tick"], v.pre("tick_upper_state", "TickState")["tick"]
    s = v.post("position_state", "PositionState")
    yield "C21", "a position's range is not empty", lo < up
    yield "C21", "a new position is empty", And(*[s[f] == 0 for f in s if f != "bump"])
    yield from created(v, "position_state", "PositionState", [v.lit("ps"), ("key", P["token_0"]), ("key", P["token_1"]), v.be(32, P["fee"]), ("key", v.key("recipient")), v.be(32, lo), v.be(32, up)])


def add_metaplex_metadata(v):
    p = v.pre("tokenized_position_state", "TokenizedPositionState")
    m = v.key("nft_mint")
    yield "C18", "metadata can only be added to a position's mint", And(v.key("tokenized_position_state") == v.pda(v.lit("ps"), ("key", m), ("key", p["bump"])), v.typed("tokenized_position_state", "TokenizedPositionState"))
    so = [x for x in v.evs("spl") if x[1] == "set_authority"]
    yield "C18", "the mint authority of the position's mint is given up, so the supply stays one", \
        T if len(so) == 1 and so[0][2] == ("factory_state", "nft_mint") and "None" in repr(so[0][3][1]) or so and is_none(so[0][3][1]) else F
    yield "C13", "no tokens move", T if not v.evs("transfer") and all(x[1] == "set_authority" for x in v.evs("spl")) else F
    yield "C18", "the position is untouched", v.unchanged("TokenizedPositionState")


def is_none(x):
    return isinstance(x, Agg) and x.v == 0


PAID = ("C13", "C16", "C18")      # what rests on the callbacks' contracts


def mint_callback(v):
    ts = v.evs("transfer")
    for i in (0, 1):
        mine = [x for x in ts if x[1] == "token_account_%d" % i]
        tot = z3.Sum([x[4] for x in mine]) if mine else I(0)
        for pid in PAID: yield pid, "token_%d: the callback pays exactly what is owed into the vault" % i, And(tot == v.arg("amount_%d_owed" % i), T if all(x[2] == "vault_%d" % i for x in mine) else F)
    yield "C17", "payments are made with the payer's own signature", And(v.signer("minter"), T if all(x[3] == "minter" and x[5] is None for x in ts) else F)
    for pid in PAID: yield pid, "nothing else moves", T if all(x[1] in ("token_account_0", "token_account_1") for x in ts) and not v.evs("spl") and not v.evs("invoke") else F


def swap_callback(v):
    ts = v.evs("transfer")
    mi, mo = v.token("input_vault")["mint"], v.token("output_vault")["mint"]
    d0, d1 = v.arg("amount_0_delta"), v.arg("amount_1_delta")
    pay = z3.If(mi < mo, d0, d1)
    tot = z3.Sum([x[4] for x in ts]) if ts else I(0)
    for pid in PAID: yield pid, "the callback pays exactly the input amount", z3.Implies(And(mi != mo, pay > 0, z3.Xor(d0 > 0, d1 > 0)), tot == pay)
    for pid in PAID: yield pid, "payments go from the payer's account to the input vault", T if all(x[1] == "input_token_account" and x[2] == "input_vault" for x in ts) and not v.evs("spl") and not v.evs("invoke") else F
    yield "C17", "payments are made with the payer's own signature", And(v.signer("signer"), T if all(x[3] == "signer" and x[5] is None for x in ts) else F)


def increase_cardinality(v):
    P, Q = v.pre("pool_state", "PoolState"), v.post("pool_state", "PoolState")
    yield from lock(v)
    yield "C19", "the announced ring size grows by the number of records created", v.modeq(Q["observation_cardinality_next"], P["observation_cardinality_next"] + v.st.gh["cnt:load_init"], 16)
    yield "C19", "the announced ring size never shrinks", Q["observation_cardinality_next"] >= P["observation_cardinality_next"]
    yield "C19", "nothing else of the pool changes", pool_keeps(v, "pool_state", "observation_cardinality_next")
    yield "C23", "the pool account is a pool of this program", v.typed("pool_state", "PoolState")


def card_iter(v):
    """one round of the loop creating oracle records"""
    P = v.pre("pool_state", "PoolState")
    new = v.st.log[len(v.p.head.log):]
    made = [x[1] for x in new if x[0] == "load_init"]
    yield "C21", "a round of the loop creates one oracle record", T if len(made) == 1 and [x[2] for x in new if x[0] == "load_init"] == ["ObservationState"] else F
    for a in made:
        n = v.wrap(P["observation_cardinality_next"] + v.p.head.gh["cnt:load_init"], 16)
        o = v.post(a, "ObservationState")
        yield "C21", "the record's index is the next of the ring", o["index"] == n
        yield "C23", "the record is created at its address", v.key(a) == v.obs_addr(P, n, o["bump"])
        yield "C19", "a new record is not marked as written", z3.Not(o["initialized"])
    yield "C19", "the pool is untouched until all records exist", pool_keeps(v, "pool_state")


def card_cuts():
    import loops

    def cands(E, st, x):
        n = st.gh["cnt:load_init"]
        out = {"counts the records": x == n}
        for k, v in E.init.items():
            if isinstance(v, Op) and v.t == "vec": out["at most the length of " + str(k)], out["the length of " + str(k)] = x <= v.a[1], x == v.a[1]
        return out
    return [("cyclos_core::cyclos_core::increase_observation_cardinality_next", loops.Cut(cands=cands))]


def count_init(I_):
    I_.st.gh["cnt:load_init"] = I(0)


# ------------------------------------------------------------------ position tokens
def deadline(v):
    yield "C16", "the deadline has not passed", v.clock <= v.arg("deadline", 64, True) if v.clock is not None else F


def nft_owner(v):
    a = v.token("nft_account")
    who = v.key("owner_or_delegate")
    tp = v.pre("tokenized_position_state", "TokenizedPositionState")
    d = a["delegate"]
    yield "C17", "the signer holds the position's token or is its delegate", \
        And(v.signer("owner_or_delegate"), a["mint"] == tp["mint"], v.bal0("nft_account") == 1, z3.Or(a["owner"] == who, And(d.a[0], d.a[1] == who, a["delegated_amount"] > 0)))
    yield "C23", "the position record is this program's", v.typed("tokenized_position_state", "TokenizedPositionState")
    yield "C23", "the token account is a token account", And(anchor.K(v.e, "owner", "nft_account") == v.e.token_pid, anchor.K(v.e, "spltype", "nft_account") == 1)


def nft_match(v):
    tp = v.pre("tokenized_position_state", "TokenizedPositionState")
    yield "C18", "the operation is on the pool and range the position was opened in", And(v.key("pool_state") == tp["pool_id"], v.pre("tick_lower_state", "TickState")["tick"] == tp["tick_lower"], v.pre("tick_upper_state", "TickState")["tick"] == tp["tick_upper"])


def nft_account(v, dL, paid, extra):
    """the position record: liquidity changes by dL; owed grows by fees on the old liquidity plus extra"""
    t, t2 = v.pre("tokenized_position_state", "TokenizedPositionState"), v.post("tokenized_position_state", "TokenizedPositionState")
    c2 = v.post("core_position_state", "PositionState")
    l2 = t["liquidity"] + dL
    # the liquidity of an aggregated position is the sum of that of its position tokens: kept because every
    # instruction changes one token's liquidity and the aggregate by the same amount (see C18 in DESIGN.md)
    part = t["liquidity"] <= v.pre("core_position_state", "PositionState")["liquidity"]
    yield "C18", "the position's liquidity changes by exactly what was added to or removed from the pool", z3.Implies(part, And(t2["liquidity"] == l2, l2 >= 0, l2 <= M64))
    poked = t["liquidity"] > 0 if paid is not None else T
    for i in (0, 1):
        g = "fee_growth_inside_%d_last_x32" % i
        fee = v.S.FD(v.wrap(c2[g] - t[g]) * t["liquidity"], I(Q32))
        base = z3.If(poked, fee, 0) + (extra[i] if extra else 0)
        o, o2 = t["tokens_owed_%d" % i], t2["tokens_owed_%d" % i]
        if paid is None:
            yield "C18", "token_%d: owed grows by the fees of its own liquidity and the amount removed" % i, And(v.modeq(o2, o + base), o2 >= 0, o2 <= M64)
        else:
            now = v.wrap(o + base)
            yield "C18", "token_%d: owed grows by the fees of its own liquidity and shrinks by what is collected" % i, o2 == now - z3.If(paid[i] <= now, paid[i], now)
        yield "C18", "token_%d: the fee growth paid up to now is recorded" % i, t2[g] == z3.If(poked, c2[g], t[g])
    yield "C18", "mint, pool and range of the position are kept", v.keeps("tokenized_position_state", "TokenizedPositionState", "mint", "pool_id", "tick_lower", "tick_upper", "bump")


def cost_facts(v, A, L, tok, des):
    """instances of the lemma "cost of computed liquidity" (proved in C07)"""
    P = v.pre(A["pool"], "PoolState")
    rl, rh, p = v.ratio(v.pre(A["tl"], "TickState")["tick"]), v.ratio(v.pre(A["tu"], "TickState")["tick"]), P["sqrt_price_x32"]
    out, us = [], []
    for a, b in ((rl, rh), (p, rh) if tok == 0 else (rl, p)):
        w, _ = (lib.liq0, lib.liq1)[tok].value(v.S, a, b, des)
        u = v.amount(tok, a, b, L, True)
        us.append((w, u))
        out += [z3.Implies(And(a > 0, a < b, L >= 0, L <= M64, L <= w), u <= des), z3.Implies(And(a > 0, a == b), u == 0)]
    # equal arguments, equal values
    out.append(z3.Implies((p == rl) if tok == 0 else (p == rh), And(us[0][0] == us[1][0], us[0][1] == us[1][1])))
    return out


def added(v, nm):
    """liquidity bought by mint_tokenized_position / increase_liquidity"""
    A = NFT
    L = v.emitted("IncreaseLiquidityEvent")
    if len(L) != 1:
        yield "C24", "exactly one IncreaseLiquidityEvent", F
        return
    L = L[0]["liquidity"]
    due = region_amounts(v, A, L, True)
    yield from core_mint(v, A, L, v.key("factory_state"))
    for i in (0, 1):
        des, mn = v.arg("amount_%d_desired" % i), v.arg("amount_%d_min" % i)
        yield "C16", "token_%d: the vault receives at least the minimum" % i, v.bal("vault_%d" % i) - v.bal0("vault_%d" % i) >= mn
        yield "C16", "token_%d: the payer is asked for at most the desired amount" % i, due[i] <= des, cost_facts(v, A, L, i, des)
    yield from deadline(v)
    yield from no_payout(v, ("mint_to",))
    yield from event(v, "IncreaseLiquidityEvent", dict(amount_0=v.bal("vault_0") - v.bal0("vault_0"), amount_1=v.bal("vault_1") - v.bal0("vault_1")))
    yield "C23", "the factory account is this program's", v.typed("factory_state", "FactoryState")
    # the payment comes from the caller through this program's own callback
    for x in v.evs("invoke"):
        yield "C17", "the payment callback is this program's own", x[1].a[1] == v.e.pid


def mint_tokenized_position(v):
    yield from added(v, "minter")
    yield "C17", "the minter signs", v.signer("minter")
    t2 = v.post("tokenized_position_state", "TokenizedPositionState")
    c2 = v.post("core_position_state", "PositionState")
    L = v.emitted("IncreaseLiquidityEvent")[0]["liquidity"]
    mk = v.key("nft_mint")
    yield "C18", "the new position records its mint, pool and range", And(t2["mint"] == mk, t2["pool_id"] == v.key("pool_state"), t2["tick_lower"] == v.pre("tick_lower_state", "TickState")["tick"], t2["tick_upper"] == v.pre("tick_upper_state", "TickState")["tick"])
    yield "C18", "the new position holds the liquidity added, nothing owed, and starts at the current fee growth", And(t2["liquidity"] == L, t2["tokens_owed_0"] == 0, t2["tokens_owed_1"] == 0,
        t2["fee_growth_inside_0_last_x32"] == c2["fee_growth_inside_0_last_x32"], t2["fee_growth_inside_1_last_x32"] == c2["fee_growth_inside_1_last_x32"])
    mt = [x for x in v.evs("spl") if x[1] == "mint_to"]
    yield "C18", "exactly one token is minted, to the new position's token account", And(T if len(mt) == 1 and mt[0][2][:2] == ("nft_mint", "nft_account") else F, *[x[3][0] == 1 for x in mt])
    yield "C18", "the position record is created at the mint's address", And(T if ("load_init", "tokenized_position_state", "TokenizedPositionState") in v.log else F, v.key("tokenized_position_state") == find(v, [v.lit("ps"), ("key", mk)]))
    yield from event(v, "IncreaseLiquidityEvent", dict(token_id=mk, liquidity=t2["liquidity"]))


def increase_liquidity(v):
    yield from added(v, "payer")
    yield "C17", "the payer signs", v.signer("payer")
    L = v.emitted("IncreaseLiquidityEvent")[0]["liquidity"]
    yield from nft_match(v)
    yield from nft_account(v, L, None, None)
    yield "C23", "the position record is this program's", v.typed("tokenized_position_state", "TokenizedPositionState")
    yield from event(v, "IncreaseLiquidityEvent", dict(token_id=v.pre("tokenized_position_state", "TokenizedPositionState")["mint"]))


def decrease_liquidity(v):
    L = v.arg("liquidity")
    A = NFT
    yield "C18", "some liquidity is removed", L > 0
    yield from deadline(v)
    yield from nft_owner(v)
    yield from nft_match(v)
    yield from core_burn(v, A, L, v.key("factory_state"))
    amts = region_amounts(v, A, L, False)
    yield from nft_account(v, -L, None, amts)
    for i in (0, 1):
        yield "C16", "token_%d: at least the minimum is removed" % i, amts[i] >= v.arg("amount_%d_min" % i)
    yield from no_payout(v)
    yield "C13", "no other program is called", T if not v.evs("invoke") and not v.evs("spl") else F
    yield "C23", "the factory account is this program's", v.typed("factory_state", "FactoryState")
    yield from event(v, "DecreaseLiquidityEvent", dict(token_id=v.pre("tokenized_position_state", "TokenizedPositionState")["mint"], liquidity=L, amount_0=amts[0], amount_1=amts[1]))


def collect_from_tokenized(v):
    yield from nft_owner(v)
    yield from nft_match(v)
    t = v.pre("tokenized_position_state", "TokenizedPositionState")
    yield from nft_account(v, I(0), (v.arg("amount_0_max"), v.arg("amount_1_max")), None)
    yield "C23", "the factory account is this program's", v.typed("factory_state", "FactoryState")
    yield from checked(v, NFT, v.key("factory_state"))
    yield from lock(v)
    P = v.pre("pool_state", "PoolState")
    ts = v.evs("transfer")
    t2 = v.post("tokenized_position_state", "TokenizedPositionState")
    c, c2 = v.pre("core_position_state", "PositionState"), v.post("core_position_state", "PositionState")
    for i in (0, 1):
        mine = [x for x in ts if x[1] == "vault_%d" % i]
        tot = z3.Sum([x[4] for x in mine]) if mine else I(0)
        g = "fee_growth_inside_%d_last_x32" % i
        fee = z3.If(t["liquidity"] > 0, v.S.FD(v.wrap(c2[g] - t[g]) * t["liquidity"], I(Q32)), 0)
        owed = v.wrap(t["tokens_owed_%d" % i] + fee)
        cfee = z3.If(t["liquidity"] > 0, v.S.FD(v.wrap(c2[g] - c[g]) * c["liquidity"], I(Q32)), 0)
        cowed = v.wrap(c["tokens_owed_%d" % i] + cfee)
        mx = v.arg("amount_%d_max" % i)
        yield "C13", "token_%d: at most the requested and the owed amount is paid" % i, And(tot <= mx, tot <= owed, tot <= cowed)
        yield "C13", "token_%d: the core position is debited exactly what is paid" % i, c2["tokens_owed_%d" % i] == cowed - tot
        for x in mine:
            yield "C13", "token_%d: the payout goes to the account named for it" % i, T if x[2] == "recipient_wallet_%d" % i else F
            yield "C23", "token_%d: the payout comes from the pool's own vault" % i, v.key(x[1]) == v.ata(v.key("pool_state"), P["token_%d" % i])
    yield "C13", "no other account is debited", T if all(x[1] in ("vault_0", "vault_1") for x in ts) and not v.evs("spl") and not v.evs("invoke") else F
    yield from event(v, "CollectTokenizedEvent", dict(token_id=t["mint"], recipient_wallet_0=v.key("recipient_wallet_0"), recipient_wallet_1=v.key("recipient_wallet_1")))


POOLTICKS = {"pool_state": "PoolState", "tick_lower_state": "TickState", "tick_upper_state": "TickState"}
# instruction -> (clauses, accounts with data invariants, shards)
SPECS = {
    "init_factory": (init_factory, {}, 1), "set_owner": (set_owner, {}, 1), "set_fee_protocol": (set_fee_protocol, {}, 1), "enable_fee_amount": (enable_fee_amount, {}, 1),
    "create_and_init_pool": (create_and_init_pool, {}, 1), "init_tick_account": (init_tick_account, {"pool_state": "PoolState"}, 1), "close_tick_account": (close_tick_account, {}, 1),
    "init_bitmap_account": (init_bitmap_account, {"pool_state": "PoolState"}, 1), "init_position_account": (init_position_account, POOLTICKS, 1),
    "mint_callback": (mint_callback, {}, 1), "swap_callback": (swap_callback, {}, 1),
    "increase_observation_cardinality_next": (increase_cardinality, {"pool_state": "PoolState"}, 1),
    "collect_protocol": (collect_protocol, {"pool_state": "PoolState"}, 1), "collect": (collect, POOLTICKS, 1),
    "mint": (mint, POOLTICKS, 4), "burn": (burn, POOLTICKS, 4),
    "mint_tokenized_position": (mint_tokenized_position, POOLTICKS, 4), "add_metaplex_metadata": (add_metaplex_metadata, {}, 1),
    "increase_liquidity": (increase_liquidity, POOLTICKS, 4), "decrease_liquidity": (decrease_liquidity, POOLTICKS, 4), "collect_from_tokenized": (collect_from_tokenized, POOLTICKS, 2),
}
CUTS = {"increase_observation_cardinality_next": lambda var: card_cuts()}
PREP = {"increase_observation_cardinality_next": lambda var: count_init}
ITERS = {"increase_observation_cardinality_next": lambda var: [(None, card_iter)]}
VARIANTS = {}
BUDGET = {}
# properties with clauses in each instruction
PIDS = {k: set(x.split()) for k, x in {
    "init_factory": "C17 C21 C24", "set_owner": "C17 C23 C24", "set_fee_protocol": "C17 C22 C23 C24", "enable_fee_amount": "C17 C21 C23 C24",
    "create_and_init_pool": "C17 C21 C24", "init_tick_account": "C20 C21", "close_tick_account": "C20 C23", "init_bitmap_account": "C21", "init_position_account": "C21",
    "mint_callback": "C13 C16 C17 C18", "swap_callback": "C13 C16 C17 C18", "increase_observation_cardinality_next": "C14 C19 C21 C23",
    "collect_protocol": "C13 C14 C17 C23 C24", "collect": "C13 C14 C17 C20 C23 C24",
    "mint": "C11 C12 C13 C14 C17 C19 C20 C23 C24", "burn": "C11 C12 C13 C14 C17 C19 C20 C23 C24",
    "mint_tokenized_position": "C11 C12 C13 C14 C16 C17 C18 C19 C20 C23 C24", "increase_liquidity": "C11 C12 C13 C14 C16 C17 C18 C19 C20 C23 C24",
    "decrease_liquidity": "C11 C12 C13 C14 C16 C17 C18 C19 C20 C23 C24",
    "add_metaplex_metadata": "C13 C18", "collect_from_tokenized": "C13 C14 C17 C18 C23 C24"}.items()}

import ixswap
ixswap.register()
