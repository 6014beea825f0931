"""Contracts of the account state machines (programs/core/src/states)."""
import z3
from contract import *
from lib import *

W = 1 << 64


def fields(S, ti, ptr):
    """{field: value} of the struct behind a reference (in the pre-state)"""
    t = S.m.T(struct_ty(S.m, ti))
    v = S.e.load(S.st, ptr) if isinstance(ptr, Ptr) else ptr
    return {n: v.f[i] for i, (n, _) in enumerate(t["variants"][0]["fields"])}


def upd(S, ti, ptr, **kw):
    t = S.m.T(struct_ty(S.m, ti))
    v = S.e.load(S.st, ptr) if isinstance(ptr, Ptr) else ptr
    names = [n for n, _ in t["variants"][0]["fields"]]
    for k in kw:
        if k not in names:
            raise LostAnchor("field %s of %s" % (k, t["name"]))
    return Agg([kw.get(n, v.f[i]) for i, n in enumerate(names)])


def w64(S, x): return S.d.wrap(x, 64, False)


class TickUpdate(Contract):
    name = "cyclos_core::states::tick::TickState::update"
    names = ["self", "tick_current", "liquidity_delta", "fg0", "fg1", "spl", "tick_cumulative", "time", "upper", "max_liquidity"]
    uses = [add_delta]

    def cases(self, S, fn, s, tc, dl, f0, f1, spl, cum, time, upper, mx):
        ti = fn["ins"][0]
        t = fields(S, ti, s)
        gb = t["liquidity_gross"]
        ga = gb + dl
        okc = z3.And(ga >= 0, ga <= M64)
        out = [Case(z3.Not(okc), S.err, name="gross liquidity out of range")]
        for up in (True, False):
            uc = simp(upper if up else z3.Not(upper))
            if is_false(uc): continue
            net = t["liquidity_net"] - dl if up else t["liquidity_net"] + dl
            nok = z3.And(net >= -(1 << 63), net < (1 << 63))
            out.append(Case(simp(z3.And(okc, uc, z3.Not(nok))), None, panic=True, name="net liquidity overflow"))
            flipped = simp(z3.Xor(ga == 0, gb == 0))
            for init in (True, False):
                ic = z3.And(gb == 0, t["tick"] <= tc)
                if init:
                    new = upd(S, ti, s, liquidity_gross=ga, liquidity_net=net, fee_growth_outside_0_x32=f0, fee_growth_outside_1_x32=f1,
                              seconds_per_liquidity_outside_x32=spl, tick_cumulative_outside=cum, seconds_outside=time)
                else:
                    new = upd(S, ti, s, liquidity_gross=ga, liquidity_net=net)
                out.append(Case(simp(z3.And(okc, uc, nok, ic if init else z3.Not(ic))), S.ok(flipped), eff=[(s, new)],
                                name="%s tick, %s" % ("upper" if up else "lower", "first liquidity at or below the current tick" if init else "outside values kept")))
        return out


tick_update = TickUpdate()


class TickCross(Contract):
    name = "cyclos_core::states::tick::TickState::cross"
    names = ["self", "fg0", "fg1", "spl", "tick_cumulative", "time"]

    def apply(self, e, st, fn, args):
        out = Contract.apply(self, e, st, fn, args)
        for s, r in out: s.ev("cross", args[0].o if isinstance(args[0], Ptr) else None, *args[1:])
        return out

    def cases(self, S, fn, s, f0, f1, spl, cum, time):
        ti = fn["ins"][0]
        t = fields(S, ti, s)
        new = upd(S, ti, s, fee_growth_outside_0_x32=w64(S, f0 - t["fee_growth_outside_0_x32"]), fee_growth_outside_1_x32=w64(S, f1 - t["fee_growth_outside_1_x32"]),
                  seconds_per_liquidity_outside_x32=w64(S, spl - t["seconds_per_liquidity_outside_x32"]),
                  tick_cumulative_outside=S.d.wrap(cum - t["tick_cumulative_outside"], 64, True), seconds_outside=S.d.wrap(time - t["seconds_outside"], 32, False))
        return [Case(z3.BoolVal(True), t["liquidity_net"], eff=[(s, new)], name="cross")]


tick_cross = TickCross()


class TickClear(Contract):
    name = "cyclos_core::states::tick::TickState::clear"
    names = ["self"]

    def cases(self, S, fn, s):
        z = I(0)
        return [Case(z3.BoolVal(True), Agg([]), eff=[(s, upd(S, fn["ins"][0], s, liquidity_net=z, liquidity_gross=z, fee_growth_outside_0_x32=z, fee_growth_outside_1_x32=z,
                 tick_cumulative_outside=z, seconds_per_liquidity_outside_x32=z, seconds_outside=z))], name="clear")]


tick_clear = TickClear()


class TickIsClear(Contract):
    name = "cyclos_core::states::tick::TickState::is_clear"
    names = ["self"]

    def cases(self, S, fn, s):
        t = fields(S, fn["ins"][0], s)
        c = z3.And(*[t[n] == 0 for n in ("liquidity_net", "liquidity_gross", "fee_growth_outside_0_x32", "fee_growth_outside_1_x32",
                                          "tick_cumulative_outside", "seconds_per_liquidity_outside_x32", "seconds_outside")])
        return [Case(c, z3.BoolVal(True), name="clear"), Case(z3.Not(c), z3.BoolVal(False), name="not clear")]


tick_is_clear = TickIsClear()


class FeeGrowthInside(Contract):
    name = "cyclos_core::states::tick::get_fee_growth_inside"
    names = ["tick_lower", "tick_upper", "tick_current", "fg0", "fg1"]

    def value(self, S, lo, up, tc, g0, g1):
        """(condition, value) for the three positions of the current tick; equal modulo 2^64 to global - below - above"""
        out = []
        for a in (True, False):
            for b in (True, False):
                c = z3.And(tc >= lo["tick"] if a else tc < lo["tick"], tc < up["tick"] if b else tc >= up["tick"])
                v = []
                for i, g in ((0, g0), (1, g1)):
                    ol, ou = lo["fee_growth_outside_%d_x32" % i], up["fee_growth_outside_%d_x32" % i]
                    below = ol if a else g - ol
                    above = ou if b else g - ou
                    v.append(S.d.wrap(g - below - above, 64, False))
                out.append((c, v))
        return out

    def cases(self, S, fn, pl, pu, tc, g0, g1):
        lo, up = fields(S, fn["ins"][0], pl), fields(S, fn["ins"][1], pu)
        return [Case(c, Agg(v), name="region %d" % i) for i, (c, v) in enumerate(self.value(S, lo, up, tc, g0, g1))]


fee_inside = FeeGrowthInside()


class PositionUpdate(Contract):
    name = "cyclos_core::states::position::PositionState::update"
    names = ["self", "liquidity_delta", "fee_growth_inside_0_x32", "fee_growth_inside_1_x32"]
    uses = ARITH + [add_delta]

    def cases(self, S, fn, s, dl, f0, f1):
        ti = fn["ins"][0]
        p = fields(S, ti, s)
        L = p["liquidity"]
        nl = L + dl
        d0 = w64(S, f0 - p["fee_growth_inside_0_last_x32"])
        d1 = w64(S, f1 - p["fee_growth_inside_1_last_x32"])
        o0, o1 = S.FD(d0 * L, I(Q32)), S.FD(d1 * L, I(Q32))
        bad = z3.Or(z3.And(dl == 0, L == 0), nl < 0, nl > M64)
        fit = z3.And(o0 <= M64, o1 <= M64)
        new = upd(S, ti, s, liquidity=nl, fee_growth_inside_0_last_x32=f0, fee_growth_inside_1_last_x32=f1,
                  tokens_owed_0=w64(S, p["tokens_owed_0"] + o0), tokens_owed_1=w64(S, p["tokens_owed_1"] + o1))
        return [Case(bad, S.err, name="poke without liquidity, or liquidity out of range"),
                Case(z3.And(z3.Not(bad), z3.Not(fit)), None, panic=True, name="fees overflow"),
                Case(z3.And(z3.Not(bad), fit), S.ok(), eff=[(s, new)], name="credited")]

    def hints(self, S, fn, case, s, dl, f0, f1):
        return []


position_update = PositionUpdate()


def transformed(S, ti, o, ts, tick, liq):
    """fields of the observation advanced to ts"""
    delta = S.d.wrap(ts - o["block_timestamp"], 32, False)
    cum = S.d.wrap(o["tick_cumulative"] + tick * delta, 64, True)
    dd = S.d._s(delta * I(1 << 32))
    spl = w64(S, o["seconds_per_liquidity_cumulative_x32"] + z3.If(liq > 0, S.FD(dd, liq), dd))
    return dict(o, block_timestamp=ts, tick_cumulative=cum, seconds_per_liquidity_cumulative_x32=spl, initialized=z3.BoolVal(True))


class ObsTransform(Contract):
    name = "cyclos_core::states::oracle::ObservationState::transform"
    names = ["self", "block_timestamp", "tick", "liquidity"]

    def cases(self, S, fn, s, ts, tick, liq):
        ti = fn["ins"][0]
        o = fields(S, ti, s)
        return [Case(z3.BoolVal(True), upd(S, ti, s, **transformed(S, ti, o, ts, tick, liq)), name="advance")]


obs_transform = ObsTransform()


class ObsUpdate(Contract):
    name = "cyclos_core::states::oracle::ObservationState::update"
    names = ["self", "block_timestamp", "tick", "liquidity", "cardinality", "cardinality_next"]
    uses = [obs_transform]

    def cases(self, S, fn, s, ts, tick, liq, card, nxt):
        ti = fn["ins"][0]
        o = fields(S, ti, s)
        new = upd(S, ti, s, **transformed(S, ti, o, ts, tick, liq))
        same_ts = o["block_timestamp"] == ts
        grow = z3.And(nxt > card, o["index"] == S.d.wrap(card - 1, 16, False))
        return [Case(same_ts, card, eff=[(s, S.e.load(S.st, s))], name="already written this second"),
                Case(z3.And(z3.Not(same_ts), grow), nxt, eff=[(s, new)], name="written, cardinality grows"),
                Case(z3.And(z3.Not(same_ts), z3.Not(grow)), card, eff=[(s, new)], name="written")]


obs_update = ObsUpdate()


class ObsLatest(Contract):
    name = "cyclos_core::states::oracle::ObservationState::observe_latest"
    names = ["self", "time", "tick", "liquidity"]
    uses = [obs_transform]

    def cases(self, S, fn, s, time, tick, liq):
        ti = fn["ins"][0]
        o = fields(S, ti, s)
        t = transformed(S, ti, o, time, tick, liq)
        c = o["block_timestamp"] == time
        return [Case(c, Agg([o["tick_cumulative"], o["seconds_per_liquidity_cumulative_x32"]]), name="same second"),
                Case(z3.Not(c), Agg([t["tick_cumulative"], t["seconds_per_liquidity_cumulative_x32"]]), name="extrapolated")]


obs_latest = ObsLatest()


class NextObs(Contract):
    name = "cyclos_core::states::pool::PoolState::next_observation_index"
    names = ["self"]

    def cases(self, S, fn, s):
        p = fields(S, fn["ins"][0], s)
        n = p["observation_cardinality_next"]
        # index + 1 wraps at 2^16 in the shipped build
        i = S.d.wrap(p["observation_index"] + 1, 16, False)
        v = S.d.div("md", i, n)
        return [Case(n == 0, None, panic=True, name="cardinality 0"), Case(n > 0, v, name="next slot in the ring")]


next_obs = NextObs()


class SnapshotInside(Contract):
    """accumulators inside a range: outside values subtracted from each other, or both from the accumulators of now"""
    name = "cyclos_core::states::pool::PoolState::snapshot_cumulatives_inside"
    names = ["self", "lower", "upper", "latest_observation"]
    uses = [obs_transform]

    def value(self, S, P, lo, up, O, now):
        cur = transformed(S, None, O, now, P["tick"], P["liquidity"])
        same = O["block_timestamp"] == now
        acc = [z3.If(same, O[f], cur[f]) for f in ("tick_cumulative", "seconds_per_liquidity_cumulative_x32")] + [now]
        out = []
        F = (("tick_cumulative_outside", 64, True), ("seconds_per_liquidity_outside_x32", 64, False), ("seconds_outside", 32, False))
        for nm, c in (("below", P["tick"] < lo["tick"]), ("inside", z3.And(P["tick"] >= lo["tick"], P["tick"] < up["tick"])), ("above", z3.And(P["tick"] >= lo["tick"], P["tick"] >= up["tick"]))):
            v = []
            for (f, b, sg), a in zip(F, acc):
                x = {"below": lo[f] - up[f], "above": up[f] - lo[f], "inside": a - lo[f] - up[f]}[nm]
                v.append(S.d.wrap(x, b, sg))
            out.append((nm, c, v))
        return out

    def cases(self, S, fn, s, pl, pu, po):
        P, lo, up, O = (fields(S, t, x) for t, x in zip(fn["ins"], (s, pl, pu, po)))
        import anchor
        now = S.d.wrap(anchor.clock(S.e), 32, False)
        return [Case(c, Agg(v), name="price %s the range" % nm) for nm, c, v in self.value(S, P, lo, up, O, now)]


snapshot = snapshot_inside = SnapshotInside()


class BitPos(Contract):
    """word and bit of a tick: tick = 256 * word + bit"""
    name = "cyclos_core::states::tick_bitmap::position"
    names = ["tick_by_spacing"]

    def cases(self, S, fn, t):
        w = S.d.wrap(t / I(256), 16, True)
        return [Case(z3.BoolVal(True), Agg([w, t % I(256)]), name="split")]

    def lemmas(self, S, fn, case, t):
        return [("inverse", z3.Implies(z3.And(t >= -(1 << 23), t < (1 << 23)), case.val.f[0] * 256 + case.val.f[1] == t), [])]


bitpos = BitPos()
