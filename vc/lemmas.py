"""Lemmas over the contracts' values (no code of their own): consequences the properties are stated in."""
import z3
from contract import *
from lib import *
import states


class Lemma:
    """named valid formulas: build(S) -> [(name, premises, goal, hints)]"""

    def __init__(self, name, build, needs=()):
        self.name, self.build, self.needs = name, build, list(needs)

    def verify(self, mir):
        e = E(mir, "int")
        st = State()
        S = Spec(e, st)
        obs = []
        for nm, prem, goal, hints in self.build(S):
            s2 = st.fork()
            for p in prem: s2.add(p)
            s2.pc = list(st.pc) + list(prem) if isinstance(st.pc, list) else tuple(st.pc) + tuple(prem)
            r = prove(e, s2, goal, list(hints), 30000)
            o = Ob("lemma %s: %s" % (self.name, nm), "lemma", r)
            obs.append(o)
            # vacuity: the premises are satisfiable together
            q, _ = spec_z3(e, s2)
            if q == z3.unsat:
                obs.append(Ob("lemma %s: %s: premises are satisfiable" % (self.name, nm), "lemma", Res("failed", "z3", 0, None, "premises are contradictory")))
        return obs, {"function": "lemma " + self.name, "paths": 0, "exec_secs": 0, "inlined": [], "contracts": [c.name for c in self.needs], "assumed": []}


def spec_z3(e, st):
    s = z3.Solver()
    s.set("timeout", 3000)
    s.add(*e.relevant(st.pc, z3.BoolVal(True)), *st.pc)
    return s.check(), s


def u(e, name, lo=0, hi=M64):
    v = z3.Int(name)
    e.d.ranges[name] = (lo, hi)
    return v, [v >= lo, v <= hi]


def liquidity_round_trip(S):
    e = S.e
    A, fa = u(e, "A", 1)
    B, fb = u(e, "B")
    L, f1 = u(e, "L")
    K, f2 = u(e, "K")
    pr = fa + fb + f1 + f2 + [A <= B]
    pre = e.__dict__
    out = []
    for tok, c in ((0, amount0), (1, amount1)):
        def val(l, up):
            v = c.value(S, A, B, l, up)
            return v if isinstance(v, tuple) else (v, v)
        (dL, dLc), (uL, uLc) = val(L, False), val(L, True)
        out.append(("token_%d: removing liquidity never pays more than adding it cost" % tok, pr, dL <= uL,
                    [mulpos(L, B - A), mulpos(dLc - uLc, A), mulpos(dL - uL - 1, A)]))
        M = L + K
        dK, dKc = val(K, False)
        uK, uKc = val(K, True)
        dM, dMc = val(M, False)
        uM, uMc = val(M, True)
        out.append(("token_%d: removing in parts pays at most removing at once" % tok, pr, dL + dK <= dM,
                    [mulpos(L, B - A), mulpos(K, B - A), mulpos(dLc + dKc - dMc - 1, B), mulpos(dL + dK - dM - 1, A)]))
        out.append(("token_%d: adding at once costs at most adding in parts" % tok, pr, uM <= uL + uK,
                    [mulpos(L, B - A), mulpos(K, B - A), mulpos(uMc - uLc - uKc - 1, B), mulpos(uM - uL - uK - 1, A)]))
    return out


round_trip = Lemma("liquidity round trip", liquidity_round_trip, [amount0, amount1])


def tickrec(e, n, tick):
    d = {"tick": tick}
    fs = []
    for i in (0, 1):
        d["fee_growth_outside_%d_x32" % i], f = u(e, "%s.out%d" % (n, i))
        fs += f
    return d, fs


def fee_growth_inside(S):
    e = S.e
    lt, f1 = u(e, "lower", -221818, 221818)
    ut, f2 = u(e, "upper", -221818, 221818)
    tc, f3 = u(e, "tc", -(1 << 31), (1 << 31) - 1)
    t2, f4 = u(e, "tc2", -(1 << 31), (1 << 31) - 1)
    g0, f5 = u(e, "g0")
    g1, f6 = u(e, "g1")
    dl, f7 = u(e, "growth")
    lo, f8 = tickrec(e, "lo", lt)
    up, f9 = tickrec(e, "up", ut)
    pr = f1 + f2 + f3 + f4 + f5 + f6 + f8 + f9 + [lt < ut]
    W = 1 << 64

    def inside(lo, up, t, a, b):
        out = None
        for c, v in states.fee_inside.value(S, lo, up, t, a, b):
            out = v if out is None else [z3.If(c, x, y) for x, y in zip(v, out)]
        return out

    def crossed(t):
        return dict(t, fee_growth_outside_0_x32=S.d.wrap(g0 - t["fee_growth_outside_0_x32"], 64, False),
                    fee_growth_outside_1_x32=S.d.wrap(g1 - t["fee_growth_outside_1_x32"], 64, False))
    base = inside(lo, up, tc, g0, g1)
    res = []
    b = inside(crossed(lo), up, t2, g0, g1)
    res.append(("crossing the lower tick leaves the growth inside unchanged", pr + [tc < lt, t2 >= lt, t2 < ut], z3.And(base[0] == b[0], base[1] == b[1]), []))
    b = inside(lo, crossed(up), t2, g0, g1)
    res.append(("crossing the upper tick leaves the growth inside unchanged", pr + [tc >= lt, tc < ut, t2 >= ut], z3.And(base[0] == b[0], base[1] == b[1]), []))
    b = inside(lo, up, t2, g0, g1)
    res.append(("moving inside the range leaves the growth inside unchanged", pr + [tc >= lt, tc < ut, t2 >= lt, t2 < ut], z3.And(base[0] == b[0], base[1] == b[1]), []))
    ng = S.d.wrap(g0 + dl, 64, False)
    b = inside(lo, up, tc, ng, g1)
    res.append(("fees paid while the price is inside accrue inside", pr + f7 + [tc >= lt, tc < ut], b[0] == S.d.wrap(base[0] + dl, 64, False), []))
    res.append(("fees paid while the price is outside do not accrue inside", pr + f7 + [z3.Or(tc < lt, tc >= ut)], b[0] == base[0], []))
    x = crossed(crossed(lo))
    res.append(("crossing twice at the same growth restores the tick", pr, z3.And(x["fee_growth_outside_0_x32"] == lo["fee_growth_outside_0_x32"]), []))
    return res


growth = Lemma("fee growth inside a range", fee_growth_inside, [states.fee_inside, states.tick_cross])


def mint_costs(S):
    """what the instructions that take desired amounts rely on: any liquidity up to the one computed for an amount"""
    e = S.e
    A, fa = u(e, "A", 1)
    B, fb = u(e, "B")
    L, f1 = u(e, "L")
    amt, f2 = u(e, "amt")
    pr = fa + fb + f1 + f2
    out = []
    for tok, c in ((0, liq0), (1, liq1)):
        v, _ = c.value(S, A, B, amt)
        f, h = c.cost(S, A, B, L, amt)
        out.append(("token_%d: liquidity up to the computed one costs at most the amount" % tok, pr + [A < B, L <= v], f, h))
        a = (amount0, amount1)[tok].value(S, A, A, L, True)
        out.append(("token_%d: an empty range costs nothing" % tok, pr, (a[0] if isinstance(a, tuple) else a) == 0, []))
    return out


mint_cost = Lemma("cost of computed liquidity", mint_costs, [liq0, liq1])


def range_snapshot(S):
    """snapshots of a range are unchanged by crossing its bounds, and count time exactly while the price is inside"""
    e = S.e
    lt, f1 = u(e, "lower", -221818, 221818)
    ut, f2 = u(e, "upper", -221818, 221818)
    tc, f3 = u(e, "tc", -(1 << 31), (1 << 31) - 1)
    t2, f4 = u(e, "tc2", -(1 << 31), (1 << 31) - 1)
    now, f5 = u(e, "now", 0, (1 << 32) - 1)
    dt, f6 = u(e, "later", 0, (1 << 32) - 1)
    L, f7 = u(e, "L")
    F = (("tick_cumulative_outside", 64, True), ("seconds_per_liquidity_outside_x32", 64, False), ("seconds_outside", 32, False))
    G = ("tick_cumulative", "seconds_per_liquidity_cumulative_x32")

    def rec(n, tick):
        d, fs = {"tick": tick}, []
        for f, b, sg in F:
            d[f], x = u(e, "%s.%s" % (n, f), -(1 << 63) if sg else 0, (1 << 63) - 1 if sg else (1 << b) - 1)
            fs += x
        return d, fs
    lo, g1 = rec("lo", lt)
    up, g2 = rec("up", ut)
    O = {"block_timestamp": now}
    O[G[0]], g3 = u(e, "cum", -(1 << 63), (1 << 63) - 1)
    O[G[1]], g4 = u(e, "spl")
    O["initialized"], O["index"] = z3.BoolVal(True), z3.IntVal(0)
    pr = f1 + f2 + f3 + f4 + f5 + f7 + g1 + g2 + g3 + g4 + [lt < ut]
    P = lambda t: {"tick": t, "liquidity": L}

    def snap(lo, up, t, O, now):
        out = None
        for _, c, v in states.snapshot_inside.value(S, P(t), lo, up, O, now):
            out = v if out is None else [z3.If(c, x, y) for x, y in zip(v, out)]
        return out

    def crossed(t, O, now):
        a = [O[G[0]], O[G[1]], now]
        return dict(t, **{f: S.d.wrap(x - t[f], b, sg) for (f, b, sg), x in zip(F, a)})
    eq = lambda a, b: z3.And(*[x == y for x, y in zip(a, b)])
    base = snap(lo, up, tc, O, now)
    res = [("crossing the lower tick leaves the snapshot unchanged", pr + [tc < lt, t2 >= lt, t2 < ut], eq(base, snap(crossed(lo, O, now), up, t2, O, now)), []),
           ("crossing the upper tick leaves the snapshot unchanged", pr + [tc >= lt, tc < ut, t2 >= ut], eq(base, snap(lo, crossed(up, O, now), t2, O, now)), [])]
    # time passes
    l8 = S.d.wrap(now + dt, 32, False)
    O2 = states.transformed(S, None, O, l8, tc, L)
    x, y = snap(lo, up, tc, O, l8), snap(lo, up, tc, O2, l8)
    res.append(("a query at the current time equals one after the record is brought up to date", pr + f6 + [dt > 0], eq(x, y), []))
    res.append(("time inside the range counts in full", pr + f6 + [tc >= lt, tc < ut], x[2] == S.d.wrap(base[2] + dt, 32, False), []))
    res.append(("time outside the range does not count", pr + f6 + [z3.Or(tc < lt, tc >= ut)], eq(base, x), []))
    return res


snapshot = Lemma("snapshots of a range", range_snapshot, [states.snapshot_inside, states.tick_cross])
