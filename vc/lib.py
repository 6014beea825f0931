"""Contracts of the arithmetic libraries (programs/core/src/libraries)."""
import z3
from contract import *

P_MIN, P_MAX = 65537, 281472331703918


def I(v): return z3.IntVal(v)


class MulDivFloor(Contract):
    def __init__(self, ty, mx):
        self.name = "<%s as cyclos_core::libraries::full_math::MulDiv>::mul_div_floor" % ty
        self.mx = mx
        self.names = ["a", "b", "denominator"]
        self.ceil = False

    def cases(self, S, fn, a, b, d):
        n = S.d._s(a * b)
        q = S.CD(n, d) if self.ceil else S.FD(n, d)
        return [Case(d == 0, None, panic=True, name="zero denominator"),
                Case(z3.And(d > 0, q <= self.mx), S.some(q), name="exact quotient"),
                Case(z3.And(d > 0, q > self.mx), S.none, name="overflow")]


class MulDivCeil(MulDivFloor):
    def __init__(self, ty, mx):
        MulDivFloor.__init__(self, ty, mx)
        self.name = self.name.replace("floor", "ceil")
        self.ceil = True


class DivUp(Contract):
    def __init__(self, ty):
        self.name = "<%s as cyclos_core::libraries::unsafe_math::UnsafeMathTrait>::div_rounding_up" % ty
        self.names = ["x", "y"]

    def cases(self, S, fn, x, y):
        return [Case(y == 0, None, panic=True, name="zero denominator"),
                Case(y > 0, S.CD(x, y), name="ceiling")]


U128 = "cyclos_core::libraries::big_num::U128"
mdf64, mdc64 = MulDivFloor("u64", M64), MulDivCeil("u64", M64)
mdf128, mdc128 = MulDivFloor(U128, M128), MulDivCeil(U128, M128)
du64, du128 = DivUp("u64"), DivUp(U128)
ARITH = [mdf64, mdc64, mdf128, mdc128, du64, du128]


class AddDelta(Contract):
    name = "cyclos_core::libraries::liquidity_math::add_delta"
    names = ["x", "y"]

    def cases(self, S, fn, x, y):
        z = x + y
        return [Case(z3.And(z >= 0, z <= M64), S.ok(z), name="sum"),
                Case(z3.Or(z < 0, z > M64), S.err, name="under/overflow")]


add_delta = AddDelta()


def srt(S, a, b):
    return z3.If(a > b, b, a), z3.If(a > b, a, b)


class Amount0(Contract):
    """amount of token_0 between two prices: floor/ceil of L * 2^32 * (B - A) / (A * B), nested rounding"""
    name = "cyclos_core::libraries::sqrt_price_math::get_amount_0_delta_unsigned"
    names = ["sqrt_ratio_a_x32", "sqrt_ratio_b_x32", "liquidity", "round_up"]
    uses = ARITH

    def value(self, S, A, B, L, up):
        n = S.d._s(L * I(1 << 32)) * (B - A)
        if up:
            c = S.CD(n, B)
            return S.CD(c, A), c
        c = S.FD(n, B)
        return S.FD(c, A), c

    def cases(self, S, fn, pa, pb, L, up):
        out = []
        for o in (True, False):
            A, B = (pb, pa) if o else (pa, pb)
            oc = pa > pb if o else pa <= pb
            for u in (True, False):
                uc = up if u else z3.Not(up)
                uc = simp(uc)
                if is_false(uc): continue
                v, c = self.value(S, A, B, L, u)
                g = [oc, uc]
                nm = "%s, %s" % ("a > b" if o else "a <= b", "up" if u else "down")
                out.append(Case(simp(z3.And(*g, A == 0)), None, panic=True, name="zero price, " + nm))
                out.append(Case(simp(z3.And(*g, A > 0, v <= M64)), v, name=nm))
                out.append(Case(simp(z3.And(*g, A > 0, v > M64)), None, panic=True, name="overflow, " + nm))
        return out

    def hints(self, S, fn, case, pa, pb, L, up):
        # the quotient is at most the numerator: fits 128 bits
        h = []
        for A, B in ((pa, pb), (pb, pa)):
            n = S.d._s(L * I(1 << 32)) * (B - A)
            h += [mulpos(L, B - A), z3.Implies(z3.And(A <= B, L >= 0, A >= 0), L * (B - A) <= L * B)]
        return h


amount0 = Amount0()


class Amount1(Contract):
    """amount of token_1 between two prices: floor/ceil of L * (B - A) / 2^32"""
    name = "cyclos_core::libraries::sqrt_price_math::get_amount_1_delta_unsigned"
    names = ["sqrt_ratio_a_x32", "sqrt_ratio_b_x32", "liquidity", "round_up"]
    uses = ARITH

    def value(self, S, A, B, L, up):
        n = L * (B - A)
        return S.CD(n, I(Q32)) if up else S.FD(n, I(Q32))

    def cases(self, S, fn, pa, pb, L, up):
        out = []
        for o in (True, False):
            A, B = (pb, pa) if o else (pa, pb)
            oc = pa > pb if o else pa <= pb
            for u in (True, False):
                uc = simp(up if u else z3.Not(up))
                if is_false(uc): continue
                v = self.value(S, A, B, L, u)
                nm = "%s, %s" % ("a > b" if o else "a <= b", "up" if u else "down")
                out.append(Case(simp(z3.And(oc, uc, v <= M64)), v, name=nm))
                out.append(Case(simp(z3.And(oc, uc, v > M64)), None, panic=True, name="overflow, " + nm))
        return out


amount1 = Amount1()


class Next0(Contract):
    """price after token_0 is added to / removed from the pool, rounded up"""
    name = "cyclos_core::libraries::sqrt_price_math::get_next_sqrt_price_from_amount_0_rounding_up"
    names = ["sqrt_p_x32", "liquidity", "amount", "add"]
    uses = ARITH

    def cases(self, S, fn, P, L, a, add):
        N = S.d._s(L * I(1 << 32))
        aP = S.d._s(a * P)
        out = [Case(a == 0, P, name="zero amount")]
        nz = a != 0
        if not is_false(simp(add)):
            r = S.CD(S.d._s(N * P), N + aP)
            out += [Case(simp(z3.And(nz, add, aP <= M64, N + aP == 0)), None, panic=True, name="add, nothing in pool"),
                    Case(simp(z3.And(nz, add, aP <= M64, N + aP > 0)), r, name="add, exact")]
            q = S.FD(N, P)
            r2 = S.CD(N, q + a)
            out += [Case(simp(z3.And(nz, add, aP > M64)), r2, name="add, product overflows")]
        if not is_true(simp(add)):
            n = simp(z3.Not(add))
            r3 = S.CD(S.d._s(N * P), N - aP)
            out += [Case(simp(z3.And(nz, n, z3.Or(aP > M64, N <= aP))), None, panic=True, name="remove, more than the pool can give"),
                    Case(simp(z3.And(nz, n, aP <= M64, N > aP, r3 > M64)), None, panic=True, name="remove, price overflow"),
                    Case(simp(z3.And(nz, n, aP <= M64, N > aP, r3 <= M64)), r3, name="remove, exact")]
        return out

    def hints(self, S, fn, case, P, L, a, add):
        N = L * I(1 << 32)
        return [mulpos(a, P), mulpos(L, P)] + nexth0(S, P, N, a)

    def lemmas(self, S, fn, case, P, L, a, add):
        N = S.d._s(L * I(1 << 32))
        aP = S.d._s(a * P)
        r = case.val
        h = nexth0(S, P, N, a) + [mulpos(L, P), mulpos(a, P)]
        if case.name.startswith("add") or case.name == "zero amount":
            hh = h + [mulpos(r, a), mulpos(r, N + aP)]
            if case.name == "add, product overflows":
                q = S.FD(N, P)
                hh += [mulpos(r, q), r * P * (q + a) == r * P * q + r * P * a, r * (q + a) * P == r * P * (q + a),
                       z3.Implies(z3.And(r * (q + a) >= N, P >= 0), r * (q + a) * P >= N * P),
                       z3.Implies(z3.And(q * P <= N, r >= 0), r * (q * P) <= r * N)]
            g0 = z3.Implies(z3.And(add, P > 0, L > 0), r <= P)
            g1 = z3.Implies(z3.And(add, P > 0, L > 0), r * N + r * aP >= N * P)
            g2 = z3.Implies(z3.And(add, P > 0, L > 0), r > 0)
            return [("price does not rise", g0, hh), ("never below the exact price", g1, hh), ("price stays positive", g2, hh)]
        g = z3.And(r >= P, r * N - r * aP >= N * P)
        return [("price does not fall, never below the exact price", g, h + [mulpos(r, a), z3.Implies(z3.And(r < P, N > aP), r * (N - aP) <= P * (N - aP)), mulpos(P, aP)])]


def nexth0(S, P, N, a):
    """instances of: x <= y, z >= 0 => x z <= y z"""
    aP = a * P
    return [z3.Implies(z3.And(aP >= 0, P >= 0), P * (N + aP) >= N * P)]


next0 = Next0()


class Next1(Contract):
    """price after token_1 is added to / removed from the pool, rounded down"""
    name = "cyclos_core::libraries::sqrt_price_math::get_next_sqrt_price_from_amount_1_rounding_down"
    names = ["sqrt_p_x32", "liquidity", "amount", "add"]
    uses = ARITH

    def cases(self, S, fn, P, L, a, add):
        n = S.d._s(a * I(1 << 32))
        out = [Case(L == 0, None, panic=True, name="no liquidity")]
        if not is_false(simp(add)):
            q = S.FD(n, L)
            out += [Case(simp(z3.And(L > 0, add, P + q <= M64)), P + q, name="add"),
                    Case(simp(z3.And(L > 0, add, P + q > M64)), None, panic=True, name="add, price overflow")]
        if not is_true(simp(add)):
            nadd = simp(z3.Not(add))
            c = S.CD(n, L)
            out += [Case(simp(z3.And(L > 0, nadd, P > c)), P - c, name="remove"),
                    Case(simp(z3.And(L > 0, nadd, P <= c)), None, panic=True, name="remove, price underflow")]
        return out


next1 = Next1()


class NextIn(Contract):
    name = "cyclos_core::libraries::sqrt_price_math::get_next_sqrt_price_from_input"
    names = ["sqrt_p_x32", "liquidity", "amount_in", "zero_for_one"]
    uses = ARITH + [next0, next1]
    adding = True

    def cases(self, S, fn, P, L, a, z):
        out = [Case(z3.Or(P == 0, L == 0), None, panic=True, name="no price or liquidity")]
        add = z3.BoolVal(self.adding)
        for c, g in ((next0, z if self.adding else simp(z3.Not(z))), (next1, simp(z3.Not(z)) if self.adding else z)):
            if is_false(g): continue
            for k in c.cases(S, fn, P, L, a, add):
                if is_false(simp(k.cond)): continue
                k.cond = simp(z3.And(P > 0, L > 0, g, k.cond))
                k.name = ("token_0: " if c is next0 else "token_1: ") + k.name
                out.append(k)
        return out

    def hints(self, S, fn, case, P, L, a, z):
        return next0.hints(S, fn, case, P, L, a, z3.BoolVal(self.adding))

    def lemmas(self, S, fn, case, P, L, a, z):
        if case.name.startswith("token_0"):
            k = Case(case.cond, case.val, name=case.name.split(": ", 1)[1])
            return next0.lemmas(S, fn, k, P, L, a, z3.BoolVal(self.adding))
        return []


class NextOut(NextIn):
    name = "cyclos_core::libraries::sqrt_price_math::get_next_sqrt_price_from_output"
    names = ["sqrt_p_x32", "liquidity", "amount_out", "zero_for_one"]
    adding = False


next_in, next_out = NextIn(), NextOut()


class SwapStep(Rel):
    """one step of a swap"""
    name = "cyclos_core::libraries::swap_math::compute_swap_step"
    names = ["sqrt_ratio_current_x32", "sqrt_ratio_target_x32", "liquidity", "amount_remaining", "fee_pips"]
    uses = ARITH + [amount0, amount1, next0, next1, next_in, next_out]

    def requires(self, S, fn, P, T, L, rem, f):
        return [("fee below 100%", f < 1000000), ("current price positive", P > 0), ("target price positive", T > 0)]

    def apply(self, e, st, fn, args):
        out = Rel.apply(self, e, st, fn, args)
        for s, r in out: s.ev("step", tuple(args), r, fn["locals"][0])
        return out

    def post(self, S, fn, a, ret, e, st):
        P, T, L, rem, f = a
        ti = fn["locals"][0]
        nx, inn, out, fee = [S.fld(ret, ti, n) for n in ("sqrt_ratio_next_x32", "amount_in", "amount_out", "fee_amount")]
        res = []
        G = 1000000 - f
        N = S.d._s(L * I(1 << 32))
        z_, e_ = P >= T, rem >= 0
        rl = S.FD(rem * G, I(1000000))
        mp = mulpos
        for z in (True, False):
            zc = z_ if z else z3.Not(z_)
            zn = "0->1" if z else "1->0"
            for ex in (True, False):
                ec = e_ if ex else z3.Not(e_)
                g = z3.And(zc, ec)
                nm = "%s, exact %s: " % (zn, "input" if ex else "output")
                # already-decided branches produce no obligation
                if not e.feasible(st, g):
                    continue
                rq = rl if ex else -rem
                h = [mp(rem, G)] if ex else []
                # the step's amounts
                if z:
                    ain, c_in = amount0.value(S, nx, P, L, True)
                    aout = amount1.value(S, nx, P, L, False)
                    ainT, c_inT = amount0.value(S, T, P, L, True)
                    aoutT = amount1.value(S, T, P, L, False)
                    h += [mp(L, P - nx), mp(L, P - T)]
                else:
                    ain = amount1.value(S, P, nx, L, True)
                    aout, c_out = amount0.value(S, P, nx, L, False)
                    ainT = amount1.value(S, P, T, L, True)
                    aoutT, c_outT = amount0.value(S, P, T, L, False)
                    h += [mp(L, nx - P), mp(L, T - P)]
                if ex:
                    if z:
                        hp = [mp(T - nx, N + rl * P), mp(c_inT - 1 - rl * T, P), mp(ainT - 1 - rl, T)]
                        hin = [mp(ain - 1 - rl, nx), mp(c_in - 1 - rl * nx, P)]
                        e1 = S.CD(N * P, N + rl * P)
                        e2 = S.CD(N, S.FD(N, P) + rl)
                        exact = z3.If(rl == 0, P, z3.If(rl * P <= M64, e1, e2))
                    else:
                        q = S.FD(S.d._s(rl * I(1 << 32)), L)
                        hp = [mp(q - (T - P), L)]
                        hin = []
                        exact = P + q
                    reach = rl >= ainT
                else:
                    if z:
                        c = S.CD(S.d._s(-rem * I(1 << 32)), L)
                        hp = [mp(c - 1 - (P - T), L), mp(c - 1 - (P - nx), L)]
                        hin = [mp(L, c)]
                        exact = P - c
                    else:
                        exact = S.CD(S.d._s(N * P), N - -rem * P)
                        hp = [mp(nx - 1 - T, N - -rem * P), mp(c_outT - -rem * P, T), mp(aoutT - 1 - -rem, P)]
                        hin = [mp(-rem * P - (c_out + 1), nx), mp(-rem - (aout + 1), P)]
                    reach = -rem >= aoutT
                bound = z3.And(T <= nx, nx <= P) if z else z3.And(P <= nx, nx <= T)
                res.append((nm + "reaches the target exactly when enough remains", z3.Implies(z3.And(g, reach), nx == T), h))
                res.append((nm + "next price when the target is not reached", z3.Implies(z3.And(g, z3.Not(reach)), nx == exact), h))
                res.append((nm + "price moves towards the target and not past it", z3.Implies(g, bound), h + hp))
                res.append((nm + "amount_in is the rounded-up amount for the price move", z3.Implies(g, inn == ain), h + hp))
                if ex:
                    res.append((nm + "amount_out is the rounded-down amount for the price move", z3.Implies(g, out == aout), h + hp))
                    u = [nm + "input within the remaining amount less fee"]
                    res.append((u[0], z3.Implies(g, inn <= rl), h + hp + hin))
                    res.append((nm + "input plus fee within the remaining amount", z3.Implies(g, inn + fee <= rem), [mp(rem, G), mp(fee - 1 - (rem - inn), G)], u))
                    u2 = [nm + "all input used unless the target is reached"]
                    res.append((u2[0], z3.Implies(z3.And(g, nx != T), inn + fee == rem), h, u))
                    res.append((nm + "fee at least the fee rate", z3.Implies(g, fee * G >= inn * f), [mp(rem, G)], u + u2))
                    cf = S.CD(S.d._s(inn * f), G)
                    res.append((nm + "fee at the target", z3.Implies(z3.And(g, nx == T), fee == cf), h + hp))
                else:
                    res.append((nm + "amount_out is the rounded-down amount, capped at the request", z3.Implies(g, out == z3.If(aout > -rem, -rem, aout)), h + hp))
                    res.append((nm + "all output delivered unless the target is reached", z3.Implies(z3.And(g, nx != T), out == -rem), h + hp + hin))
                    cf = S.CD(S.d._s(inn * f), G)
                    res.append((nm + "fee is the rounded-up fee rate", z3.Implies(g, fee == cf), h))
        return res


swap_step = SwapStep()


class Amount0Signed(Contract):
    name = "cyclos_core::libraries::sqrt_price_math::get_amount_0_delta_signed"
    names = ["sqrt_ratio_a_x32", "sqrt_ratio_b_x32", "liquidity"]
    base = amount0
    uses = [amount0]

    def cases(self, S, fn, pa, pb, L):
        out = []
        for neg in (True, False):
            g = L < 0 if neg else L >= 0
            for k in self.base.cases(S, fn, pa, pb, -L if neg else L, z3.BoolVal(not neg)):
                c = simp(z3.And(g, k.cond))
                if is_false(c): continue
                v = None if k.panic else S.d.wrap(-S.d.wrap(k.val, 64, True) if neg else k.val, 64, True)
                out.append(Case(c, v, panic=k.panic, name=("burn, " if neg else "mint, ") + k.name))
        return out


class Amount1Signed(Amount0Signed):
    name = "cyclos_core::libraries::sqrt_price_math::get_amount_1_delta_signed"
    base = amount1
    uses = [amount1]


amount0s, amount1s = Amount0Signed(), Amount1Signed()


class Liq0(Contract):
    """liquidity bought by an amount of token_0"""
    name = "cyclos_core::libraries::liquidity_amounts::get_liquidity_for_amount_0"
    names = ["sqrt_ratio_a_x32", "sqrt_ratio_b_x32", "amount_0"]
    uses = ARITH
    tok = 0

    def value(self, S, A, B, amt):
        """-> (value, panic condition)"""
        if self.tok == 0:
            i = S.FD(A * B, I(Q32))
            v = S.FD(S.d._s(amt * i), B - A)
            return v, z3.Or(i > M64, B == A, v > M64)
        v = S.FD(S.d._s(amt * I(Q32)), B - A)
        return v, z3.Or(B == A, v > M64)

    def cases(self, S, fn, pa, pb, amt):
        out = []
        for o in (True, False):
            A, B = (pb, pa) if o else (pa, pb)
            oc = simp(pa > pb if o else pa <= pb)
            if is_false(oc): continue
            v, pc = self.value(S, A, B, amt)
            nm = "a > b" if o else "a <= b"
            out += [Case(simp(z3.And(oc, pc)), None, panic=True, name="overflow or equal prices, " + nm),
                    Case(simp(z3.And(oc, z3.Not(pc))), v, name=nm)]
        return out

    def cost(self, S, A, B, L, amt):
        """the tokens taken when this liquidity is minted do not exceed amt"""
        if self.tok == 0:
            i = S.FD(A * B, I(Q32))
            u, c = amount0.value(S, A, B, L, True)
            h = [mulpos(L, B - A), mulpos(u - 1 - amt, A), mulpos(c - 1 - amt * A, B), mulpos(amt * i - L * (B - A), I(Q32)), mulpos(A * B - i * I(Q32), amt),
                 mulpos(A, B), mulpos(amt, i)]
            return u <= amt, h
        u = amount1.value(S, A, B, L, True)
        return u <= amt, [mulpos(L, B - A)]

    def lemmas(self, S, fn, case, pa, pb, amt):
        A, B = (pb, pa) if case.name == "a > b" else (pa, pb)
        f, h = self.cost(S, A, B, case.val, amt)
        return [("minting the liquidity costs at most the amount", z3.Implies(A > 0, f), h)]


class Liq1(Liq0):
    name = "cyclos_core::libraries::liquidity_amounts::get_liquidity_for_amount_1"
    names = ["sqrt_ratio_a_x32", "sqrt_ratio_b_x32", "amount_1"]
    tok = 1


liq0, liq1 = Liq0(), Liq1()


class LiqForAmounts(Contract):
    name = "cyclos_core::libraries::liquidity_amounts::get_liquidity_for_amounts"
    names = ["sqrt_ratio_x32", "sqrt_ratio_a_x32", "sqrt_ratio_b_x32", "amount_0", "amount_1"]
    uses = ARITH + [liq0, liq1]

    def cases(self, S, fn, P, pa, pb, a0, a1):
        out = []
        for o in (True, False):
            A, B = (pb, pa) if o else (pa, pb)
            oc = simp(pa > pb if o else pa <= pb)
            if is_false(oc): continue
            nm = "a > b" if o else "a <= b"
            v, pc = liq0.value(S, A, B, a0)
            g = z3.And(oc, P <= A)
            out += [Case(simp(z3.And(g, pc)), None, panic=True, name="below, overflow, " + nm), Case(simp(z3.And(g, z3.Not(pc))), v, name="below, " + nm)]
            v0, p0 = liq0.value(S, P, B, a0)
            v1, p1 = liq1.value(S, A, P, a1)
            g = z3.And(oc, P > A, P < B)
            pc = z3.Or(p0, p1)
            out += [Case(simp(z3.And(g, pc)), None, panic=True, name="inside, overflow, " + nm),
                    Case(simp(z3.And(g, z3.Not(pc))), z3.If(v0 <= v1, v0, v1), name="inside, " + nm)]
            v, pc = liq1.value(S, A, B, a1)
            g = z3.And(oc, P > A, P >= B)
            out += [Case(simp(z3.And(g, pc)), None, panic=True, name="above, overflow, " + nm), Case(simp(z3.And(g, z3.Not(pc))), v, name="above, " + nm)]
        return out

    def lemmas(self, S, fn, case, P, pa, pb, a0, a1):
        A, B = (pb, pa) if "a > b" in case.name else (pa, pb)
        L = case.val
        if case.name.startswith("below"):
            f, h = liq0.cost(S, A, B, L, a0)
            return [("token_0 cost at most the amount", z3.Implies(A > 0, f), h)]
        if case.name.startswith("above"):
            f, h = liq1.cost(S, A, B, L, a1)
            return [("token_1 cost at most the amount", f, h)]
        f0, h0 = liq0.cost(S, P, B, L, a0)
        f1, h1 = liq1.cost(S, A, P, L, a1)
        v0, _ = liq0.value(S, P, B, a0)
        v1, _ = liq1.value(S, A, P, a1)
        return [("token_0 cost at most the amount", f0, h0 + [mulpos(v0 - L, B - P)]),
                ("token_1 cost at most the amount", f1, h1 + [mulpos(v1 - L, P - A)])]


liq_for_amounts = LiqForAmounts()


class AmtForLiq0(Contract):
    name = "cyclos_core::libraries::liquidity_amounts::get_amount_0_for_liquidity"
    names = ["sqrt_ratio_a_x32", "sqrt_ratio_b_x32", "liquidity"]
    uses = ARITH
    tok = 0

    def value(self, S, A, B, L):
        if self.tok == 0:
            v, _ = amount0.value(S, A, B, L, False)
            return v, z3.Or(B == 0, A == 0, v > M64)
        v = amount1.value(S, A, B, L, False)
        return v, v > M64

    def cases(self, S, fn, pa, pb, L):
        out = []
        for o in (True, False):
            A, B = (pb, pa) if o else (pa, pb)
            oc = simp(pa > pb if o else pa <= pb)
            if is_false(oc): continue
            v, pc = self.value(S, A, B, L)
            nm = "a > b" if o else "a <= b"
            out += [Case(simp(z3.And(oc, pc)), None, panic=True, name="overflow or zero price, " + nm), Case(simp(z3.And(oc, z3.Not(pc))), v, name=nm)]
        return out

    def hints(self, S, fn, case, pa, pb, L):
        return amount0.hints(S, fn, case, pa, pb, L, None)


class AmtForLiq1(AmtForLiq0):
    name = "cyclos_core::libraries::liquidity_amounts::get_amount_1_for_liquidity"
    tok = 1


amtliq0, amtliq1 = AmtForLiq0(), AmtForLiq1()


class AmtsForLiq(Contract):
    name = "cyclos_core::libraries::liquidity_amounts::get_amounts_for_liquidity"
    names = ["sqrt_ratio_x32", "sqrt_ratio_a_x32", "sqrt_ratio_b_x32", "liquidity"]
    uses = ARITH + [amtliq0, amtliq1]

    def cases(self, S, fn, P, pa, pb, L):
        out = []
        for o in (True, False):
            A, B = (pb, pa) if o else (pa, pb)
            oc = simp(pa > pb if o else pa <= pb)
            if is_false(oc): continue
            nm = "a > b" if o else "a <= b"
            for reg, g, x0, x1 in (("below", P <= A, (A, B), None), ("inside", z3.And(P > A, P < B), (P, B), (A, P)), ("above", z3.And(P > A, P >= B), None, (A, B))):
                v0, p0 = amtliq0.value(S, x0[0], x0[1], L) if x0 else (I(0), z3.BoolVal(False))
                v1, p1 = amtliq1.value(S, x1[0], x1[1], L) if x1 else (I(0), z3.BoolVal(False))
                pc = simp(z3.Or(p0, p1))
                out += [Case(simp(z3.And(oc, g, pc)), None, panic=True, name="%s, overflow, %s" % (reg, nm)),
                        Case(simp(z3.And(oc, g, z3.Not(pc))), Agg([v0, v1]), name="%s, %s" % (reg, nm))]
        return out

    def hints(self, S, fn, case, P, pa, pb, L):
        return amtliq0.hints(S, fn, case, pa, pb, L)


amtsliq = AmtsForLiq()
