"""Contracts of the bit-level functions, proved over bit-vectors."""
import z3
from contract import *
from states import fields, upd

BV = z3.BitVecVal


def bit(w, k):
    """bit k (8-bit index) of a 256-bit word"""
    return z3.Extract(0, 0, z3.LShR(w, z3.ZeroExt(248, k))) == BV(1, 1)


def word_of(v):
    """the 256-bit number held in four 64-bit limbs, least significant first"""
    return z3.Concat(*reversed(v.f)) if isinstance(v, Agg) else v


class Msb(Rel):
    name = "cyclos_core::libraries::bit_math::most_significant_bit"
    mode = "bv"
    names = ["x"]

    def panic_when(self, S, fn, x):
        return x == BV(0, 256)

    def post(self, S, fn, a, ret, e, st):
        x, k = a[0], z3.BitVec("k", 8)
        return [("the bit is set", bit(x, ret), []), ("no higher bit is set", z3.Implies(z3.UGT(k, ret), z3.Not(bit(x, k))), []), ("closed form", z3.And(*self.defn(x, ret)), [])]

    def apply(self, e, st, fn, args):
        x = args[0]
        if e.mode != "bv":
            raise Unsupported("bit function outside bit-vector mode")
        s2 = st.fork().add(x == BV(0, 256))
        if e.feasible(st, x == BV(0, 256)):
            e.panic(s2, "panic of " + self.name)
        st.add(x != BV(0, 256))
        r = z3.BitVec("bit!%d" % next(e.ctr), 8)
        st.add(*self.defn(x, r))
        return [(st, r)]

    def defn(self, x, r):
        # the highest set bit: x >> r == 1
        return [z3.LShR(x, z3.ZeroExt(248, r)) == BV(1, 256)]


class Lsb(Msb):
    name = "cyclos_core::libraries::bit_math::least_significant_bit"

    def post(self, S, fn, a, ret, e, st):
        x, k = a[0], z3.BitVec("k", 8)
        return [("the bit is set", bit(x, ret), []), ("no lower bit is set", z3.Implies(z3.ULT(k, ret), z3.Not(bit(x, k))), []), ("closed form", z3.And(*self.defn(x, ret)), [])]

    def defn(self, x, r):
        return [(x & (-x)) == (BV(1, 256) << z3.ZeroExt(248, r))]


class Flip(Rel):
    name = "cyclos_core::states::tick_bitmap::TickBitmapState::flip_bit"
    mode = "bv"
    names = ["self", "bit_pos"]

    def post(self, S, fn, a, ret, e, st):
        s, b = a
        pre = State((), dict(self._pre), (), {}, {})
        old = fields(Spec(e, pre), fn["ins"][0], s)
        new = fields(Spec(e, st), fn["ins"][0], s)
        k = z3.BitVec("k", 8)
        w0, w1 = word_of(old["word"]), word_of(new["word"])
        return [("exactly the given bit changes", bit(w1, k) == z3.Xor(bit(w0, k), k == b), []),
                ("nothing else changes", z3.And(new["bump"] == old["bump"], new["word_pos"] == old["word_pos"]), [])]

    def setup(self, run):
        self._pre = dict(run.st.mem)

    def apply(self, e, st, fn, args):
        s, b = args
        if e.mode == "bv":
            raise Unsupported("flip in bit-vector mode")
        S = Spec(e, st)
        old = fields(S, fn["ins"][0], s)
        new = Agg([e.fresh_int("word", 64, False, st) for _ in range(4)])
        e.store(st, s, upd(S, fn["ins"][0], s, word=new))
        st.ev("flip", s.o, b, old["word"], new)
        return [(st, Agg([]))]

    def panic_when(self, S, fn, *a):
        return z3.BoolVal(False)


class NextBit(Rel):
    name = "cyclos_core::states::tick_bitmap::TickBitmapState::next_initialized_bit"
    mode = "bv"
    names = ["self", "bit_pos", "lte"]
    ms = 60000

    def panic_when(self, S, fn, *a):
        return z3.BoolVal(False)

    def post(self, S, fn, a, ret, e, st):
        s, b, lte = a
        ti = fn["locals"][0]
        nx, ini = S.fld(ret, ti, "next"), S.fld(ret, ti, "initialized")
        w = word_of(fields(S, fn["ins"][0], s)["word"])
        k = z3.BitVec("k", 8)
        dn, up = lte, z3.Not(lte)
        return [("a found bit is set", z3.Implies(ini, bit(w, nx)), []),
                ("downward: found at or below", z3.Implies(z3.And(dn, ini), z3.ULE(nx, b)), []),
                ("downward: nothing skipped", z3.Implies(z3.And(dn, ini, z3.UGT(k, nx), z3.ULE(k, b)), z3.Not(bit(w, k))), []),
                ("downward: none found means none there", z3.Implies(z3.And(dn, z3.Not(ini)), z3.And(nx == BV(0, 8), z3.Implies(z3.ULE(k, b), z3.Not(bit(w, k))))), []),
                ("upward: found at or above", z3.Implies(z3.And(up, ini), z3.UGE(nx, b)), []),
                ("upward: nothing skipped", z3.Implies(z3.And(up, ini, z3.ULT(k, nx), z3.UGE(k, b)), z3.Not(bit(w, k))), []),
                ("upward: none found means none there", z3.Implies(z3.And(up, z3.Not(ini)), z3.And(nx == BV(255, 8), z3.Implies(z3.UGE(k, b), z3.Not(bit(w, k))))), [])]

    def apply(self, e, st, fn, args):
        s, b, lte = args
        if e.mode == "bv":
            raise Unsupported("next bit in bit-vector mode")
        S = Spec(e, st)
        o = fields(S, fn["ins"][0], s)
        nx = e.fresh_int("next_bit", 8, False, st)
        ini = e.fresh_bool("initialized")
        isset = z3.Function("isset", *([z3.IntSort()] * 5), z3.BoolSort())
        st.add(z3.Implies(ini, isset(*o["word"].f, nx)),
               z3.Implies(z3.And(lte, ini), nx <= b), z3.Implies(z3.And(lte, z3.Not(ini)), nx == 0),
               z3.Implies(z3.And(z3.Not(lte), ini), nx >= b), z3.Implies(z3.And(z3.Not(lte), z3.Not(ini)), nx == 255))
        st.ev("nib", s.o, o, b, lte, nx, ini)
        return [(st, S.struct(fn["locals"][0], next=nx, initialized=ini))]


msb, lsb, flip, nextbit = Msb(), Lsb(), Flip(), NextBit()
NextBit.uses = [msb, lsb]
