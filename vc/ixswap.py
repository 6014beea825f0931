"""Swaps: loop contract and postconditions."""
import z3
import anchor, loops, lib, ticks, states, sym
from ixspec import *

SWAP = "cyclos_core::cyclos_core::swap"
FD = lambda v, a, b: v.S.FD(a, b)


# ------------------------------------------------------------------ the swap in progress
def pool_of(e, st, fr):
    """id of the pool account the swap function holds"""
    for (k, x) in st.mem.items():
        if isinstance(k, tuple) and k[0] == fr.uid and isinstance(x, Op) and x.t == "refmut":
            q = x.a[0]
            o = q.o if isinstance(q, Ptr) else None
            if isinstance(o, str) and o.startswith("data:") and o.endswith(":PoolState"):
                return o.split(":")[1]
    raise LostAnchor("the pool of the swap")


class Swap:
    """a point of the swap loop: accounts, the caller's arguments, the state carried by the loop"""

    def __init__(self, e, st, fr, var):
        self.e, self.st, self.fr = e, st, fr
        self.z, self.ei = var[0] == "z", var[1] == "i"
        self.amount, self.limit = st.mem[(fr.uid, 2)], st.mem[(fr.uid, 3)]
        self.s = local_of(e, st, fr, "SwapState")
        self.c = local_of(e, st, fr, "SwapCache")
        self.pool = pool_of(e, st, fr)
        self.P = dct(e, "PoolState", e.init[obj(e, self.pool, "PoolState")])
        self.own = 0 if self.z else 1     # the token paid in

    def cached_word(self, bb):
        """(is some, fields) of the cached bitmap"""
        live = self.e.live(self.fr.fn)[bb]
        for l, ti in enumerate(self.fr.fn["locals"]):
            t = self.e.m.T(ti)
            if t["k"] == "adt" and t["path"].endswith("option::Option") and l in live:
                g = self.e.m.T(t["gargs"][0])
                if g["k"] == "adt" and g["path"].endswith("TickBitmapState"):
                    v = self.st.mem.get((self.fr.uid, l))
                    if isinstance(v, Op) and v.t == "opt":
                        return v.a[0], (dct(self.e, "TickBitmapState", v.a[1]) if isinstance(v.a[1], Agg) else None)
                    if isinstance(v, Agg):
                        return (T, dct(self.e, "TickBitmapState", v.f[0])) if v.v == 1 else (F, None)
        raise LostAnchor("the cached bitmap word of the swap")


def latest(e, st, O, now, P):
    """(tick cumulative, seconds per liquidity) observed now"""
    S = Spec(e, st)
    t = states.transformed(S, None, O, now, P["tick"], P["liquidity"])
    same = O["block_timestamp"] == now
    return [z3.If(same, O[f], t[f]) for f in ("tick_cumulative", "seconds_per_liquidity_cumulative_x32")]


class Search:
    """the next tick of a round, as the bitmap gives it, and the steps that show that the code arrives there"""
    count = 0

    def __init__(self, E, head, st, fr, var):
        w = Swap(E, head, fr, var)
        z, tick, sp = w.z, w.s["tick"], w.P["tick_spacing"]
        E.d.kn = st.kn
        q, r = E.d.bin("Div", tick, sp, 32, True), E.d.bin("Rem", tick, sp, 32, True)
        comp = z3.If(And(tick < 0, r != 0), q - 1, q) + (0 if z else 1)
        nb = [x[5] for x in st.log[len(head.log):] if x[0] == "nib"] or [I(0 if z else 255)]
        Search.count += 1
        C, K = z3.Int("comp!%d" % Search.count), z3.Int("found!%d" % Search.count)
        defs = [C == comp, K == C / I(256) * 256 + nb[0]]
        self.word, self.bit = comp / I(256), comp % I(256)
        tn = lambda k: z3.If(k < ticks.MINT, ticks.MINT, z3.If(k > ticks.MAXT, ticks.MAXT, k))
        self.tn = tn((self.word * 256 + nb[0]) * sp)
        ts = target_ticks(E, head, st)
        f = E.d.div("fd", z3.If(tick >= 0, tick, -tick), sp)
        u = tick if z else tick + sp
        lin = [z3.Implies(And(f >= 0, sp >= 1), f * sp >= f)]
        # products of the code and of the specification, in terms of each other
        g = z3.If(tick >= 0, f, -f)
        for x, y in ((q, g), (C, comp)):
            lin.append(z3.Implies(x == y, x * sp == y * sp))
        lin += [z3.Implies(C == c, C * sp == e) for c, e in ((f, f * sp), (f + 1, f * sp + sp), (-f, -(f * sp)), (-f - 1, -(f * sp) - sp), (-f + 1, -(f * sp) + sp))]
        d = C - K if z else K - C
        dp = C * sp - K * sp if z else K * sp - C * sp
        lin.append(z3.Implies(And(d >= 0, d <= 255, sp >= 0), And(dp >= 0, dp <= 255 * sp)))
        s0 = And(C * sp <= u, u < C * sp + sp, C >= -221820, C <= 221820)
        self.steps = [("the compressed tick", s0, defs + lin)]
        prods = []
        for t in ts:
            for x in products(t, sp):
                if not any(x.eq(y) for y in prods): prods.append(x)
        eqs = []
        for x in prods:
            self.steps.append(("the index of the next tick", x == K, defs + [s0]))
            eqs += [x == K, z3.Implies(x == K, And(x * sp == K * sp, sp * x == K * sp))]
        base = defs + lin + [s0] + eqs
        spec_ = (self.word * 256 + nb[0])
        base.append(z3.Implies(spec_ == K, spec_ * sp == K * sp))
        done = []
        for t in ts:
            for nm, c in (("the step heads for the tick found", t == self.tn),
                          ("the next tick lies in the direction of the move", And(t >= ticks.MINT, t <= ticks.MAXT, t <= tick if z else t > tick))):
                self.steps.append((nm, c, base + done))
                done.append(c)
        self.facts = done


def products(t, sp):
    """x of the products x * sp in t"""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_mul(x) and x.num_args() == 2:
            a, b = x.children()
            if b.eq(sp): out.append(a)
            elif a.eq(sp): out.append(b)
        todo += x.children()
    return out


def matter(E, st, fr):
    """terms that matter to a round's obligations"""
    try:
        s2 = local_of(E, st, fr, "SwapState")
        return [ticks.ratio(E.d, s2["tick"]) >= PMIN, s2["sqrt_price_x32"] >= 0]
    except LostAnchor:
        return []


def target_ticks(E, head, st):
    """ticks whose price is the target of the round's step"""
    out = []
    for x in st.log[len(head.log):]:
        if x[0] == "step":
            for n in sorted(sym.expr_vars(x[1][1])):
                d = E.d.defs.get(n)
                if d and d[0] == "ratio" and not any(d[1].eq(o) for o in out): out.append(d[1])
    return out


def ahead(var):
    return lambda E, head, st, fr: Search(E, head, st, fr, var).steps


def inv(var, obs):
    """obs: account of the latest observation"""
    def f(E, st, fr, bb):
        w = Swap(E, st, fr, var)
        s, c, P = w.s, w.c, w.P
        p, t, rem, calc = s["sqrt_price_x32"], s["tick"], s["amount_specified_remaining"], s["amount_calculated"]
        out = []
        if w.z:
            out.append(("the price stays between the limit and the start", And(w.limit <= p, p <= P["sqrt_price_x32"], w.limit > PMIN)))
        else:
            out.append(("the price stays between the start and the limit", And(P["sqrt_price_x32"] <= p, p <= w.limit, w.limit < PMAX)))
        out.append(("the tick is in range", And(t >= ticks.MINT, t < ticks.MAXT)))
        out.append(("price and tick agree", And(ticks.ratio(E.d, t) <= p, p <= ticks.ratio(E.d, t + 1))))
        if w.ei:
            out.append(("between nothing and everything of the input is used", And(rem >= 0, rem <= w.amount, w.amount > 0)))
            out.append(("output only accumulates", calc <= 0))
        else:
            out.append(("between nothing and everything of the output is delivered", And(rem <= 0, rem >= w.amount, w.amount < 0)))
            out.append(("input only accumulates", calc >= 0))
        now = E.init["clock"]
        out.append(("time is fixed", c["block_timestamp"] == E.d.wrap(now, 32, False)))
        fac = [o for o in E.init if isinstance(o, str) and o.endswith(":FactoryState")]
        out.append(("the protocol's share is fixed", c["fee_protocol"] == dct(E, "FactoryState", E.init[obj(E, "factory_state", "FactoryState")])["fee_protocol"]))
        out.append(("the initial liquidity is remembered", c["liquidity_start"] == P["liquidity"]))
        O = dct(E, "ObservationState", E.init[obj(E, obs(E, st, fr), "ObservationState")])
        l = latest(E, st, O, c["block_timestamp"], P)
        out.append(("the observation used at crossings is the one of now", z3.Implies(c["computed_latest_observation"], And(c["tick_cumulative"] == l[0], c["seconds_per_liquidity_cumulative_x32"] == l[1]))))
        return out
    return f


# ------------------------------------------------------------------ one round of the loop
def iteration(var, obs):
    def f(v):
        e, it = v.e, v.p
        bb = next(int(k.split(":")[2]) for k in it.st.gh if isinstance(k, str) and k.startswith("head:%d:" % it.uid))
        a, b = Swap(e, it.head, it.fr, var), Swap(e, it.st, it.fr, var)
        s, s2, P, c = a.s, b.s, a.P, a.c
        z, ei, own = a.z, a.ei, a.own
        wrap = v.wrap
        now = v.wrap(v.clock, 32)
        new = it.st.log[len(it.head.log):]
        rem0 = it.head.gh.get("rem", ())
        rem = it.st.gh.get("rem", ())[len(rem0):]
        nibs = [x for x in new if x[0] == "nib"]
        steps = [x for x in new if x[0] == "step"]
        crosses = [x for x in new if x[0] == "cross"]
        crossed = [x[1].split(":")[1] for x in crosses]
        maps = [r for r in rem if r not in crossed]
        # ---- where the search starts
        sr = Search(e, it.head, it.st, it.fr, var)
        sp, word, bit = P["tick_spacing"], sr.word, sr.bit
        sm, cw = a.cached_word(bb)
        sm2, cw2 = b.cached_word(bb)
        yield "C23", "at most one bitmap account is consulted per step", T if len(maps) <= 1 else F
        B = None
        if maps:
            m = maps[0]
            yield "C23", "the bitmap account consulted is the one of the current tick's word", v.key(m) == bitmap_find(v, P, word)
            yield "C20", "a cached bitmap word is used while it is the current one", z3.Not(And(sm, cw["word_pos"] == word)) if cw else T
            if nibs:
                B = v.pre(m, "TickBitmapState")
                yield "C23", "the bitmap account is this program's", v.typed(m, "TickBitmapState")
            else:
                yield "C23", "only an account that is not a bitmap of this program counts as an empty word", z3.Not(v.typed(m, "TickBitmapState"))
            yield "C20", "the cached bitmap word is the one just read", And(sm2, *[eqv(cw2[k], B[k]) for k in B]) if B and cw2 else z3.Not(sm2) if not B else F
        else:
            yield "C23", "without consulting an account the cached word is the current one", And(sm, cw["word_pos"] == word) if cw else F
            B = cw
            yield "C20", "the cached bitmap word is kept", And(sm == sm2, *[eqv(cw2[k], cw[k]) for k in cw]) if cw and cw2 else F
        for x in nibs:
            yield "C20", "the next tick is searched in the current word from the current tick in the direction of the move", \
                And(*[eqv(x[2][k], B[k]) for k in B], x[3] == bit, x[4] if z else z3.Not(x[4]))
        yield "C20", "the next tick is searched once", T if len(nibs) == (1 if B else 0) else F
        nb, ini = (nibs[0][5], nibs[0][6]) if nibs else (I(0 if z else 255), F)
        tn = sr.tn
        rn = v.ratio(tn)
        lim = a.limit
        target = z3.If(rn < lim, lim, rn) if z else z3.If(rn > lim, lim, rn)
        hints = matter(e, it.st, it.fr)
        # ---- the step
        yield "C15", "one step per round", T if len(steps) == 1 else F
        if len(steps) != 1: return
        st_ = steps[0]
        res = dict(zip(names(e, st_[3]), st_[2].f))
        ar = st_[1]
        for nm, t, hh in sr.steps:
            for pid in ("C11", "C15", "C20", "C22", "C23"):
                yield pid, nm, t, hh
        if sr.facts: hints = sr.facts + matter(e, it.st, it.fr)
        yield "C15", "the step starts at the current price", ar[0] == s["sqrt_price_x32"]
        yield "C15", "the step goes to the next tick's price or the limit, whichever comes first", ar[1] == target, hints
        yield "C15", "the step uses the active liquidity", ar[2] == s["liquidity"]
        yield "C15", "the step may use what remains", ar[3] == s["amount_specified_remaining"]
        yield "C15", "the step charges the pool's fee", ar[4] == P["fee"]
        nx, inn, out, fee = [res[k] for k in ("sqrt_ratio_next_x32", "amount_in", "amount_out", "fee_amount")]
        yield "C15", "the price becomes the step's", s2["sqrt_price_x32"] == nx
        if ei:
            yield "C15", "input and fee are charged to what remains", s2["amount_specified_remaining"] == s["amount_specified_remaining"] - inn - fee
            yield "C15", "output accumulates", s2["amount_calculated"] == s["amount_calculated"] - out
        else:
            yield "C15", "output delivered is taken from what remains", s2["amount_specified_remaining"] == s["amount_specified_remaining"] + out
            yield "C15", "input and fee accumulate", s2["amount_calculated"] == s["amount_calculated"] + inn + fee
        # ---- fees
        n = c["fee_protocol"]
        share = z3.If(n > 0, v.S.FD(fee, n), 0)
        yield "C22", "the protocol gets its share of the step's fee, rounded down", v.modeq(s2["protocol_fee"], s["protocol_fee"] + share)
        L = s["liquidity"]
        g2 = s["fee_growth_global_x32"] + z3.If(L > 0, v.S.FD(v.S.d._s((fee - share) * I(Q32)), L), 0)
        yield "C22", "the rest of the fee accrues to the active liquidity, rounded down", v.modeq(s2["fee_growth_global_x32"], g2)
        # ---- crossing
        reached = nx == rn
        yield "C20", "an initialized tick is crossed exactly when its price is reached", And(reached, ini) == (T if crosses else F), hints
        yield "C20", "at most one tick is crossed per round", T if len(crosses) <= 1 else F
        yield "C15", "the tick follows the price", z3.If(reached, s2["tick"] == (tn - 1 if z else tn), z3.If(nx == s["sqrt_price_x32"], s2["tick"] == s["tick"],
                  And(v.ratio(s2["tick"]) <= nx, nx < v.ratio(s2["tick"] + 1)))), hints
        for x, acct in zip(crosses, crossed):
            t0 = v.pre(acct, "TickState")
            o = obj(e, acct, "TickState")
            t1 = dct(e, "TickState", it.st.mem[o])
            yield "C23", "the tick account crossed is the pool's for the tick reached", And(v.key(acct) == v.tick_addr(P, tn, t0["bump"]), v.typed(acct, "TickState")), hints
            net = t0["liquidity_net"]
            yield "C20", "crossing adds the tick's net liquidity moving up and takes it moving down", And(s2["liquidity"] == s["liquidity"] + (-net if z else net), s2["liquidity"] >= 0, s2["liquidity"] <= M64)
            for i in (0, 1):
                g = s2["fee_growth_global_x32"] if i == own else P["fee_growth_global_%d_x32" % i]
                yield "C11", "crossing turns the outside fee growth of token_%d into the growth on the other side" % i, And(v.modeq(t1["fee_growth_outside_%d_x32" % i], g - t0["fee_growth_outside_%d_x32" % i]))
            O = v.pre(obs(e, it.st, it.fr), "ObservationState")
            l = latest(e, it.st, O, now, P)
            yield "C19", "crossing turns the outside tick cumulative into that on the other side as of now", v.modeq(t1["tick_cumulative_outside"], l[0] - t0["tick_cumulative_outside"])
            yield "C19", "crossing turns the outside seconds per liquidity into that on the other side as of now", v.modeq(t1["seconds_per_liquidity_outside_x32"], l[1] - t0["seconds_per_liquidity_outside_x32"])
            yield "C19", "crossing turns the outside seconds into those on the other side as of now", v.modeq(t1["seconds_outside"], now - t0["seconds_outside"], 32)
            yield "C20", "crossing keeps the tick's liquidity and identity", And(*[eqv(t0[k], t1[k]) for k in ("liquidity_net", "liquidity_gross", "tick", "bump")])
        if not crosses:
            yield "C20", "without a crossing active liquidity is kept", s2["liquidity"] == s["liquidity"]
        hm = it.head.mem
        ch = []
        for k, x in it.st.mem.items():
            if isinstance(k, str) and k.startswith("data:") and k not in ["data:%s:TickState" % y for y in crossed]:
                x0 = hm.get(k, e.init.get(k))
                if x0 is not None: ch.append(eqv(x0, x))
        yield "C20", "no account but a crossed tick changes during the swap", And(*ch)
        yield "C13", "no tokens move before the swap is priced", T if not [x for x in new if x[0] in ("transfer", "spl", "invoke", "invoke_other")] else F
    return f


def bitmap_find(v, P, word):
    import ixprops
    return ixprops.find(v, [v.lit("b"), ("key", P["token_0"]), ("key", P["token_1"]), v.be(32, P["fee"]), v.be(16, v.wrap(word, 16, True))])


# ------------------------------------------------------------------ the whole swap
def core_swap(v, var, A, amount, hs=None):
    """A: accounts of the swap"""
    import ixprops
    from ixprops import lock, pool_keeps, cb_args, oracle, event
    e = v.e
    hs = hs or heads(v.I, v.p, SWAP)
    if len(hs) != 1: raise LostAnchor("the swap loop")
    w = Swap(e, hs[0][0], hs[0][1], var)
    s, P, Q = w.s, w.P, v.post(A["pool"], "PoolState")
    z, ei, own = w.z, w.ei, w.own
    oth = 1 - own
    vin, vout = A["vin"], A["vout"]
    # ---- price, limit, end
    yield "C15", "the swap is priced on the pool given", T if w.pool == A["pool"] else F
    p, p2, lim = P["sqrt_price_x32"], Q["sqrt_price_x32"], w.limit
    yield "C15", "the price moves in the direction of the swap and not past the limit", And(lim <= p2, p2 <= p, lim > PMIN, lim < p) if z else And(p <= p2, p2 <= lim, lim < PMAX, lim > p)
    yield "C15", "the swap ends when the amount is used up or the limit is reached", z3.Or(s["amount_specified_remaining"] == 0, p2 == lim)
    yield "C15", "the amount swapped is not zero", amount != 0
    yield "C15", "the swap direction is that of the input vault's token", (v.token(vin)["mint"] == P["token_0"]) == (T if z else F)
    yield "C15", "price and tick agree", And(v.ratio(Q["tick"]) <= p2, p2 <= v.ratio(Q["tick"] + 1))
    yield "C15", "the pool stays as every instruction assumes it", And(*inv_pool(e, Q))
    yield "C15", "the swap's result is stored", And(p2 == s["sqrt_price_x32"], Q["tick"] == s["tick"])
    yield "C20", "the pool's liquidity is the result of the crossings", Q["liquidity"] == s["liquidity"]
    g = "fee_growth_global_%d_x32"
    pf = "protocol_fees_token_%d"
    yield "C22", "fees accrue to the input token only", And(Q[g % own] == s["fee_growth_global_x32"], Q[g % oth] == P[g % oth], Q[pf % oth] == P[pf % oth])
    yield "C22", "the protocol's share of all steps is recorded", v.modeq(Q[pf % own], P[pf % own] + s["protocol_fee"])
    yield "C15", "nothing else of the pool changes", pool_keeps(v, A["pool"], "sqrt_price_x32", "tick", "liquidity", g % own, pf % own, "observation_index", "observation_cardinality", "observation_cardinality_next")
    # ---- settlement
    rem, calc = s["amount_specified_remaining"], s["amount_calculated"]
    pay = amount - rem if ei else calc
    out = -calc if ei else rem - amount
    yield "C15", "the swap takes at most the amount given", And(pay >= 0, pay <= amount) if ei else And(out >= 0, out <= -amount)
    ts, iv = v.evs("transfer"), v.evs("invoke")
    mine = [x for x in ts if x[1] == vout]
    yield "C13", "the output vault pays exactly the output", (z3.Sum([x[4] for x in mine]) if mine else I(0)) == out
    yield "C13", "no other account is debited with the pool's signature", T if len(mine) == len(ts) and not v.evs("spl") else F
    for x in mine:
        yield "C13", "the output goes to the output account", T if x[2] == A["tout"] else F
        yield "C13", "the pool signs the payout", v.pda(*x[5]) == v.pda(*v.pool_pda_seeds(P)) if x[5] else F
    yield "C13", "one payment callback", T if len(iv) == 1 else F
    for x in iv[:1]:
        cb = cb_args(v, x, "SwapCallback")
        yield "C13", "the callback is the payment callback", T if cb is not None else F
        if cb is not None:
            yield "C13", "the payer is asked for exactly the input", cb["amount_%d_delta" % own] == pay
            yield "C13", "the payer is told the output", cb["amount_%d_delta" % oth] == -out
        b0 = x[-1].gh.get("bal:" + vin, v.bal0(vin))
        yield "C13", "the input vault has received the input", v.st.gh.get("bal:" + vin, b0) >= b0 + pay
        if mine: yield "C13", "the output is sent before payment is asked for", T if v.log.index(mine[0]) < v.log.index(x) else F
    for i, a in ((own, vin), (oth, vout)):
        yield "C23", "the %s vault is the pool's own" % ("input" if a == vin else "output"), v.key(a) == v.ata(v.key(A["pool"]), P["token_%d" % i])
    yield "C23", "the pool account is a pool of this program", v.typed(A["pool"], "PoolState")
    yield "C23", "the factory account is this program's", v.typed("factory_state", "FactoryState")
    O = v.pre(A["obs"], "ObservationState")
    yield "C23", "the observation account is the pool's latest record", And(v.key(A["obs"]) == v.obs_addr(P, P["observation_index"], O["bump"]), v.typed(A["obs"], "ObservationState"))
    yield from lock(v, A["pool"])
    yield from oracle(v, A, Q["tick"] != P["tick"], P, Q)
    yield "C13", "positions are untouched", v.unchanged("PositionState")
    d = {own: pay, oth: -out}
    tk = {own: A["tin"], oth: A["tout"]}
    yield from event(v, "SwapEvent", dict(pool_state=v.key(A["pool"]), sender=v.key("signer"), token_account_0=v.key(tk[0]), token_account_1=v.key(tk[1]),
                     amount_0=d[0], amount_1=d[1], sqrt_price_x32=p2, liquidity=Q["liquidity"], tick=Q["tick"]))


ACC = dict(pool="pool_state", vin="input_vault", vout="output_vault", tin="input_token_account", tout="output_token_account", obs="last_observation_state")


def swap(var):
    def f(v):
        yield "C17", "the swapper signs", v.signer("signer")
        yield from core_swap(v, var, ACC, v.arg("amount_specified"))
    return f


def exact_input_single(var):
    def f(v):
        import ixprops
        ai = v.arg("amount_in")
        yield "C17", "the swapper signs", v.signer("signer")
        yield from core_swap(v, var, ACC, ai)
        yield from ixprops.deadline(v)
        for x in v.evs("invoke"):
            yield "C17", "the payment callback is this program's own", x[1].a[1] == v.e.pid
        out = [x[4] for x in v.evs("transfer") if x[1] == "output_vault"]
        yield "C16", "at least the minimum output is delivered", (z3.Sum(out) if out else I(0)) >= v.arg("amount_out_minimum")
        w = Swap(v.e, *heads(v.I, v.p, SWAP)[0], var)
        l = v.arg("sqrt_price_limit_x32")
        yield "C15", "the caller's price limit applies, and none when it is zero", w.limit == z3.If(l == 0, PMIN + 1 if w.z else PMAX - 1, l)
    return f


def prep(var):
    def f(I_):
        e = I_.e
        e.join = True
        P = dct(e, "PoolState", e.init[obj(e, "pool_state", "PoolState")])
        anchor.mk_token(e, I_.st, "input_vault", "TokenAccount", anchor.spl_ty(e, "TokenAccount"))
        mint = dict(zip([n for n, _ in e.m.T(anchor.spl_ty(e, "TokenAccount"))["variants"][0]["fields"]], e.init["spl:input_vault:TokenAccount"].f))["mint"]
        c = mint == P["token_0"]
        I_.st.add(c if var[0] == "z" else z3.Not(c))
        if I_.ix == "swap":
            a = anchor.ix_arg(e, "amount_specified", next(i for i, t in enumerate(e.m.types) if e.m.int_ty(i) == (64, True)))
            I_.st.add(a > 0 if var[1] == "i" else a <= 0)
    return f


def accounts(E, st, fr):
    """roles of the accounts a swap runs on, from its context argument"""
    t = E.m.T(fr.fn["ins"][0])
    c = [g for g in t["gargs"] if isinstance(g, int) and E.m.T(g)["k"] == "adt"]
    if not c: raise LostAnchor("the swap's context")
    names_ = [n for n, _ in t["variants"][0]["fields"]]
    acc = E.load(st, st.mem[(fr.uid, 1)].f[names_.index("accounts")])
    d = dict(zip(names(E, c[0]), acc.f))
    return {k: anchor.acct_id(E, st, d[n]) for k, n in ACC.items()}


def direction(var):
    def f(E, st, fr):
        A = accounts(E, st, fr)
        v = E.init.get("spl:%s:TokenAccount" % A["vin"])
        if v is None: raise LostAnchor("the swap's input vault")
        mint = dict(zip([n for n, _ in E.m.T(anchor.spl_ty(E, "TokenAccount"))["variants"][0]["fields"]], v.f))["mint"]
        c = mint == dct(E, "PoolState", E.init[obj(E, A["pool"], "PoolState")])["token_0"]
        return c if var[0] == "z" else z3.Not(c)
    return f


MULTI = "cyclos_core::cyclos_core::exact_input"


def carried(e, st, fr, bb, what, head=None):
    """what the hops hand on: the one u64 (amount) or account handle the loop changes and needs again"""
    out = []
    for l in sorted(loops.changed_locals(e, fr.fn, loops.loop_blocks(e, fr.fn, bb))):
        if l not in e.live(fr.fn)[bb]: continue
        t = e.m.T(fr.fn["locals"][l])
        x, y = st.mem.get((fr.uid, l)), (head or st).mem.get((fr.uid, l))
        if y is None or y is sym.UNINIT: continue
        if what == "amount" and t["k"] in ("int", "uint") and not t.get("size") and isinstance(x, z3.ArithRef): out.append(x)
        if what == "account" and isinstance(x, Op) and x.t == "ai": out.append(x.a[0])
    if len(out) != 1: raise LostAnchor("the %s handed from hop to hop" % what)
    return out[0]


def head_block(it):
    for k in it.st.gh:
        if isinstance(k, str) and k.startswith("head:%d:" % it.uid) and it.cut.heads[it.st.gh[k]] is it.head:
            return int(k.split(":")[2])
    raise LostAnchor("loop head")


def hops_left(e, st, fr, bb, head=None):
    """the next hop's number and the number of hops: from the range the loop runs through, or from its counter"""
    live = e.live(fr.fn)[bb]
    r = [l for l, t in enumerate(fr.fn["locals"]) if l in live and (e.m.T(t).get("path") or "").endswith("ops::Range") and e.m.T(e.m.T(t)["gargs"][0]).get("size")
         and isinstance((head or st).mem.get((fr.uid, l)), Agg) and isinstance(st.mem.get((fr.uid, l)), Agg)]
    if len(r) == 1: return st.mem[(fr.uid, r[0])].f[:2]
    c = [l for l in loops.changed_locals(e, fr.fn, loops.loop_blocks(e, fr.fn, bb)) if l in live and e.m.T(fr.fn["locals"][l]).get("size")]
    n = e.init.get("arg.additional_accounts_per_pool")
    if r or len(c) != 1 or n is None or not isinstance(st.mem.get((fr.uid, c[0])), z3.ArithRef): return None
    return st.mem[(fr.uid, c[0])], n.a[1]


def all_hops(E, st, fr, bb):
    r = hops_left(E, st, fr, bb)
    try:
        carried(E, st, fr, bb, "amount")
    except LostAnchor:
        return []
    n = E.init.get("arg.additional_accounts_per_pool")
    if r is None or n is None: return []
    return [("one hop for each pool", And(r[1] == n.a[1], r[0] >= 0))]


def hop(var):
    """one hop of exact_input"""
    def f(v):
        e, it = v.e, v.p
        v.log = [x for x in it.st.log[len(it.head.log):] if x[0] != "loop"]
        bb = head_block(it)
        known = {k for k in it.head.gh if isinstance(k, str) and k.startswith("head:")}
        hs = heads(v.I, v.p, SWAP, known)
        if not hs:
            # the accounts of a hop are skipped
            for pid in ("C13", "C17"):
                yield pid, "skipping accounts has no effect", T if all(x[0] == "next" for x in v.log) else F
            return
        a0, i0 = carried(e, it.head, it.fr, bb, "amount"), carried(e, it.head, it.fr, bb, "account")
        a1, i1 = carried(e, it.st, it.fr, bb, "amount", it.head), carried(e, it.st, it.fr, bb, "account", it.head)
        A = accounts(e, *hs[0])
        w = Swap(e, *hs[0], var)
        yield from core_swap(v, var, A, a0, hs)
        yield "C16", "the hop swaps what the previous one delivered", w.amount == a0
        out = [x[4] for x in v.evs("transfer") if x[1] == A["vout"]]
        yield "C16", "the amount handed on is what the hop delivered", (z3.Sum(out) if out else I(0)) == a1
        yield "C17", "the hop is paid from the account the previous one paid into", T if A["tin"] == i0 else F
        r = hops_left(e, it.st, it.fr, bb, it.head)
        last = F if r is None else r[0] >= r[1]
        for pid in ("C16", "C17"):
            yield pid, "the account a hop pays into funds the next one", T if i1 == A["tout"] else last
        for x in v.evs("invoke"):
            yield "C17", "the payment callback is this program's own", x[1].a[1] == e.pid
        yield "C15", "no price limit beyond the price domain", w.limit == (PMIN + 1 if w.z else PMAX - 1)
    return f


def exact_input(var):
    def f(v):
        import ixprops
        e = v.e
        v_ = [x for x in v.log if x[0] in ("transfer", "invoke", "spl", "emit")]
        yield "C13", "nothing is paid outside the hops", T if not v_ else F
        yield "C17", "the swapper signs", v.signer("signer")
        yield from ixprops.deadline(v)
        hs = [(h, fr, int(k.split(":")[2])) for k, i in v.st.gh.items() if isinstance(k, str) and k.startswith("head:") for uid in [int(k.split(":")[1])]
              if uid in v.I.cuts[MULTI].frames for h, fr in [(v.I.cuts[MULTI].heads[i], v.I.cuts[MULTI].frames[uid])]]
        if len(hs) != 1: raise LostAnchor("the loop over the hops")
        h, fr, bb = hs[0]
        yield "C16", "at least the minimum output is delivered by the last hop", carried(e, h, fr, bb, "amount") >= v.arg("amount_out_minimum")
    return f


def first_hop(var):
    def f(E, st, fr, bb):
        try:
            a, i = carried(E, st, fr, bb, "amount"), carried(E, st, fr, bb, "account")
        except LostAnchor:
            return []       # not the loop over the hops
        return [("the first hop swaps the amount given", a == E.init["arg.amount_in"]), ("the first hop is paid from the input account", T if i == "input_token_account" else F)]
    return f


def prep_multi(var):
    def f(I_):
        I_.e.join = True
        I_.e.data_inv = {"PoolState": lambda e, i, v: inv_pool(e, dct(e, "PoolState", v))}
    return f


def cuts_multi(var):
    def at(E, st, fr): return accounts(E, st, fr)["obs"]
    return [(SWAP, loops.Cut(inv(var, at), name="swap loop", hints=lambda E, h, st, fr: matter(E, st, fr), steps=ahead(var), assume=direction(var))),
            (MULTI, loops.Cut(all_hops, name="hops", entry=first_hop(var)))]


LAST = lambda E, st, fr: "last_observation_state"


def cuts(var):
    return [(SWAP, loops.Cut(inv(var, LAST), name="swap loop", hints=lambda E, h, st, fr: matter(E, st, fr), steps=ahead(var)))]


VAR = {"swap": ["zi", "zo", "oi", "oo"], "exact_input_single": ["zi", "oi"], "exact_input": ["zi", "oi"]}
NAMES = {"zi": "token_0 in, exact input", "zo": "token_0 in, exact output", "oi": "token_1 in, exact input", "oo": "token_1 in, exact output"}


def register():
    import ixprops as X
    pids = set("C11 C13 C14 C15 C17 C19 C20 C22 C23 C24".split())
    for ix, f, ps in (("swap", swap, pids), ("exact_input_single", exact_input_single, pids | {"C16"}), ("exact_input", exact_input, pids | {"C16"})):
        multi = ix == "exact_input"
        X.SPECS[ix] = (f, {} if multi else {"pool_state": "PoolState"}, 4)
        X.VARIANTS[ix] = VAR[ix]
        X.CUTS[ix] = cuts_multi if multi else cuts
        X.PREP[ix] = prep_multi if multi else prep
        at = (lambda E, st, fr: accounts(E, st, fr)["obs"]) if multi else LAST
        X.ITERS[ix] = lambda var, at=at, multi=multi: [(SWAP, iteration(var, at))] + ([(MULTI, hop(var))] if multi else [])
        X.PIDS[ix] = ps
        X.BUDGET[ix] = 400
