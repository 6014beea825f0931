"""Two arithmetic domains for the symbolic executor.

IntDom  machine integers as unbounded SMT integers, every wrap made explicit (exact);
BvDom   machine integers as bit-vectors (exact).
Both follow the shipped (release) semantics: arithmetic wraps, shifts mask their amount.
"""
import z3


class Unsupported(Exception):
    pass


_T, _F = z3.BoolVal(True), z3.BoolVal(False)
_TI, _FI = _T.get_id(), _F.get_id()


def is_true(e):
    return isinstance(e, z3.BoolRef) and e.get_id() == _TI


def is_false(e):
    return isinstance(e, z3.BoolRef) and e.get_id() == _FI


class IntDom:
    name = "int"

    def __init__(self):
        self.ranges = {}      # decl name -> (lo, hi)
        self._rng = {}
        self._keep = []       # keep asts alive so that ids stay valid
        self.kn = None        # path facts: ast id -> (lo, hi, ast)
        self.defs = {}        # quotient / remainder variables: name -> (kind, n, d, facts)
        self._defc = {}
        self._limb = {}       # ast id -> (X, i, ast): ast is the i-th 64-bit limb of X

    def learn(self, kn, c, pos=True):
        """record simple bounds implied by a path constraint"""
        if z3.is_not(c):
            return self.learn(kn, c.children()[0], not pos)
        if z3.is_and(c) and pos or z3.is_or(c) and not pos:
            for x in c.children():
                self.learn(kn, x, pos)
            return
        if not z3.is_app(c) or c.num_args() != 2:
            return
        k = c.decl().kind()
        a, b = c.children()
        if not z3.is_int(a):
            return
        va, vb = self.val(a), self.val(b)
        if (va is None) == (vb is None):
            return
        if vb is None:
            a, b, va, vb = b, a, vb, va
            k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k, k)
        lo = hi = None
        if k == z3.Z3_OP_LE: lo, hi = (None, vb) if pos else (vb + 1, None)
        elif k == z3.Z3_OP_GE: lo, hi = (vb, None) if pos else (None, vb - 1)
        elif k == z3.Z3_OP_LT: lo, hi = (None, vb - 1) if pos else (vb, None)
        elif k == z3.Z3_OP_GT: lo, hi = (vb + 1, None) if pos else (None, vb)
        elif k == z3.Z3_OP_EQ and pos: lo, hi = vb, vb
        elif not pos and k == z3.Z3_OP_EQ:
            l0, h0 = self.rng(a)
            o = kn.get(a.get_id())
            if o:
                l0 = o[0] if o[0] is not None else l0
                h0 = o[1] if o[1] is not None else h0
            if l0 == vb: lo = vb + 1
            elif h0 == vb: hi = vb - 1
            else: return
        else:
            return
        o = kn.get(a.get_id(), (None, None, a))
        lo = o[0] if lo is None else (lo if o[0] is None else max(lo, o[0]))
        hi = o[1] if hi is None else (hi if o[1] is None else min(hi, o[1]))
        kn[a.get_id()] = (lo, hi, a)

    def prng(self, e, depth=5):
        """range of e under the current path facts"""
        lo, hi = self.rng(e)
        kn = self.kn
        if not kn:
            return lo, hi
        o = kn.get(e.get_id())
        if o:
            if o[0] is not None and (lo is None or o[0] > lo): lo = o[0]
            if o[1] is not None and (hi is None or o[1] < hi): hi = o[1]
        if depth and z3.is_app(e) and e.num_args() and e.num_args() <= 4:
            r = self._rng0(e, lambda x: self.prng(x, depth - 1))
            if r[0] is not None and (lo is None or r[0] > lo): lo = r[0]
            if r[1] is not None and (hi is None or r[1] < hi): hi = r[1]
        return lo, hi

    def sort(self, bits):
        return z3.IntSort()

    def const(self, v, bits=None, signed=False):
        return z3.IntVal(v)

    def val(self, e):
        """python int if e is a constant"""
        if z3.is_int_value(e):
            return e.as_long()
        return None

    def bounds(self, bits, signed):
        return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)

    def fresh(self, name, bits, signed):
        x = z3.Int(name)
        self.ranges[name] = self.bounds(bits, signed)
        lo, hi = self.ranges[name]
        return x, [x >= lo, x <= hi]

    def rng(self, e):
        i = e.get_id()
        if i in self._rng:
            return self._rng[i]
        r = self._rng0(e)
        self._rng[i] = r
        self._keep.append(e)
        return r

    def _rng0(self, e, rng=None):
        rng = rng or self.rng
        if z3.is_int_value(e):
            v = e.as_long()
            return (v, v)
        d = e.decl()
        k = d.kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.ranges.get(d.name(), (None, None))
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in ch:
                a, b = rng(c)
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            return (lo, hi)
        if k == z3.Z3_OP_SUB:
            a, b = rng(ch[0])
            for c in ch[1:]:
                x, y = rng(c)
                a = None if a is None or y is None else a - y
                b = None if b is None or x is None else b - x
            return (a, b)
        if k == z3.Z3_OP_UMINUS:
            a, b = rng(ch[0])
            return (None if b is None else -b, None if a is None else -a)
        if k == z3.Z3_OP_MUL:
            a, b = rng(ch[0])
            for c in ch[1:]:
                x, y = rng(c)
                if None in (a, b, x, y):
                    if a is not None and x is not None and a >= 0 and x >= 0:
                        a, b = a * x, None
                        continue
                    return (None, None)
                ps = [a * x, a * y, b * x, b * y]
                a, b = min(ps), max(ps)
            return (a, b)
        if k == z3.Z3_OP_ITE:
            a, b = rng(ch[1])
            x, y = rng(ch[2])
            return (None if a is None or x is None else min(a, x), None if b is None or y is None else max(b, y))
        if k == z3.Z3_OP_IDIV:
            a, b = rng(ch[0])
            x, y = rng(ch[1])
            if x is not None and x > 0 and a is not None and b is not None:
                c = [a // x, b // x] + ([a // y, b // y] if y is not None else [0 if a >= 0 else -1, 0])
                return (min(c), max(c))
            if x is not None and x >= 0 and a is not None and a >= 0:
                return (None, b)  # divisor may be 0: unspecified below
            return (None, None)
        if k == z3.Z3_OP_MOD:
            x, y = rng(ch[1])
            if x is not None and x > 0 and y is not None:
                a, b = rng(ch[0])
                if a is not None and b is not None and a >= 0 and b < x:
                    return (a, b)
                return (0, y - 1)
            return (None, None)
        return (None, None)

    def wrap(self, e, bits, signed):
        lo, hi = self.bounds(bits, signed)
        a, b = self.prng(e)
        if a is not None and b is not None and lo <= a and b <= hi:
            return e
        m = 1 << bits
        if a is not None and b is not None:
            if lo <= a and b <= hi + m:
                return z3.If(e > hi, e - m, e)
            if a >= lo - m and b <= hi:
                return z3.If(e < lo, e + m, e)
            if a >= lo - m and b <= hi + m:
                return z3.If(e > hi, e - m, z3.If(e < lo, e + m, e))
        if signed:
            r = (e + (m // 2)) % m - (m // 2)
        else:
            r = e % m
        return r

    def bin(self, op, a, b, bits, signed):
        va, vb = self.val(a), self.val(b)
        if op == "Add":
            if vb == 0: return a
            if va == 0: return b
            return self.wrap(self._s(a + b), bits, signed)
        if op == "Sub":
            if vb == 0: return a
            return self.wrap(self._s(a - b), bits, signed)
        if op == "Mul":
            if va == 1: return b
            if vb == 1: return a
            return self.wrap(self._s(a * b), bits, signed)
        if op in ("Div", "Rem"):
            if not signed or (self._nn(a) and self._nn(b)):
                if vb == 1: return a if op == "Div" else z3.IntVal(0)
                if vb is None:
                    return self.div("fd" if op == "Div" else "md", a, b)
                return self._s(a / b) if op == "Div" else self._s(a % b)
            lo, hi = self.prng(a)
            bl, _ = self.prng(b)
            if vb is None and None not in (lo, hi) and bl is not None and bl >= 1 and lo > -(1 << (bits - 1)):
                # a positive divisor, and the quotient cannot overflow
                n = z3.If(a >= 0, a, -a)
                q = self.div("fd", n, b)
                if self.kn is not None:
                    self.kn[q.get_id()] = (0, max(abs(lo), abs(hi)), q)
                q = z3.If(a >= 0, q, -q)
                if op == "Div": return q
                r = self.div("md", n, b)
                return z3.If(a >= 0, r, -r)
            # rust truncated division from SMT euclidean division
            absa, absb = z3.If(a < 0, -a, a), z3.If(b < 0, -b, b)
            q = absa / absb
            q = z3.If((a < 0) != (b < 0), -q, q)
            if op == "Div":
                return self.wrap(q, bits, signed)
            r = absa % absb
            return z3.If(a < 0, -r, r)
        if op in ("Shl", "Shr"):
            if vb is None:
                raise Unsupported("symbolic shift in int mode")
            k = vb % bits if bits & (bits - 1) == 0 else vb
            if op == "Shl":
                if k == 0: return a
                return self.wrap(self._s(a * (1 << k)), bits, signed)
            if k == 0: return a
            return self._s(a / z3.IntVal(1 << k))
        if op in ("BitAnd", "BitOr", "BitXor"):
            if va is not None and vb is None:
                a, b, va, vb = b, a, vb, va
            if va is not None and vb is not None:
                m = (1 << bits) - 1
                r = {"BitAnd": (va & m) & (vb & m), "BitOr": (va & m) | (vb & m), "BitXor": (va & m) ^ (vb & m)}[op]
                if signed and r >> (bits - 1): r -= 1 << bits
                return z3.IntVal(r)
            if vb is not None:
                m = (1 << bits) - 1
                if op == "BitAnd":
                    mm = vb & m
                    if mm == 0: return z3.IntVal(0)
                    if mm == m: return a
                    if mm & (mm + 1) == 0:
                        return a % (mm + 1)
                    if not signed:
                        # contiguous mask 2^hi - 2^lo
                        lo = (mm & -mm).bit_length() - 1
                        t = mm >> lo
                        if t & (t + 1) == 0:
                            return self._s(((a / z3.IntVal(1 << lo)) % (t + 1)) * (1 << lo))
                if op in ("BitOr", "BitXor") and (vb & m) == 0:
                    return a
            raise Unsupported("bit operation %s in int mode" % op)
        raise Unsupported("binop " + op)

    def div(self, kind, n, d):
        """floor (fd), ceiling (cd) or remainder (md) of n / d for n >= 0, d > 0, as a defined variable"""
        vn, vd = self.val(n), self.val(d)
        if vn is not None and vd:
            return z3.IntVal({"fd": vn // vd, "cd": -((-vn) // vd), "md": vn % vd}[kind])
        k = (kind, n.get_id(), d.get_id())
        if k not in self._defc:
            q = z3.Int("%s!%d" % (kind, len(self._defc)))
            a, b = self.rng(n)
            x, y = self.rng(d)
            hi = None if b is None else b if x is None or x < 1 else (b // x if kind == "fd" else -((-b) // x))
            if kind == "md":
                hi = None if y is None else y - 1
            self.ranges[q.decl().name()] = (0, None if hi is None else max(hi, 0))
            # nothing is known of the quotient of a negative number: such a term stands for no value of the program
            g = d > 0 if a is not None and a >= 0 else z3.And(d > 0, n >= 0)
            if kind == "fd":
                f = [q >= 0, z3.Implies(g, z3.And(q * d <= n, n < q * d + d))]
            elif kind == "cd":
                f = [q >= 0, z3.Implies(g, z3.And(q * d >= n, n > q * d - d))]
            else:
                t = self.div("fd", n, d)
                f = [q >= 0, z3.Implies(g, z3.And(q < d, n == t * d + q))]
            self.defs[q.decl().name()] = (kind, n, d, f, q)
            self._defc[k] = (q, n, d)
        return self._defc[k][0]

    def _nn(self, e):
        a, _ = self.prng(e)
        return a is not None and a >= 0

    def _s(self, e):
        ch = e.children()
        if ch and all(z3.is_int_value(c) for c in ch):
            return z3.simplify(e)
        return e

    def raw(self, op, a, b):
        """mathematical result, no wrap"""
        return self._s({"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b}[op]())

    def overflow(self, op, a, b, bits, signed):
        lo, hi = self.bounds(bits, signed)
        r = self.raw(op, a, b)
        x, y = self.prng(r)
        c = []
        if y is None or y > hi: c.append(r > hi)
        if x is None or x < lo: c.append(r < lo)
        return z3.Or(*c) if len(c) > 1 else (c[0] if c else z3.BoolVal(False))

    def cmp(self, op, a, b, bits, signed):
        va, vb = self.val(a), self.val(b)
        if va is not None and vb is not None:
            return z3.BoolVal({"Eq": va == vb, "Ne": va != vb, "Lt": va < vb, "Le": va <= vb, "Gt": va > vb, "Ge": va >= vb}[op])
        if op in ("Lt", "Le", "Gt", "Ge"):
            (al, ah), (bl, bh) = self.prng(a), self.prng(b)
            if op == "Gt": return self.cmp("Lt", b, a, bits, signed)
            if op == "Ge": return self.cmp("Le", b, a, bits, signed)
            if op == "Lt":
                if ah is not None and bl is not None and ah < bl: return z3.BoolVal(True)
                if al is not None and bh is not None and al >= bh: return z3.BoolVal(False)
            else:
                if ah is not None and bl is not None and ah <= bl: return z3.BoolVal(True)
                if al is not None and bh is not None and al > bh: return z3.BoolVal(False)
        return {"Eq": lambda: a == b, "Ne": lambda: a != b, "Lt": lambda: a < b, "Le": lambda: a <= b,
                "Gt": lambda: a > b, "Ge": lambda: a >= b}[op]()

    def neg(self, a, bits, signed):
        return self.wrap(self._s(0 - a), bits, signed)

    def bnot(self, a, bits, signed):
        if signed:
            return self._s(z3.IntVal(-1) - a)
        return self._s(z3.IntVal((1 << bits) - 1) - a)

    def cast(self, a, fb, fs, tb, ts):
        return self.wrap(a, tb, ts)

    def limbs(self, a, bits):
        lo, hi = self.prng(a)
        out = []
        for i in range(bits // 64):
            if lo is not None and lo >= 0 and hi is not None and hi < (1 << (64 * i)):
                out.append(z3.IntVal(0))
                continue
            x = self._s(a / z3.IntVal(1 << (64 * i))) if i else a
            if not (lo is not None and lo >= 0 and hi is not None and hi < (1 << (64 * (i + 1)))):
                x = self._s(x % (1 << 64))
            if self.val(x) is None:
                self._limb.setdefault(x.get_id(), []).append((a, i, x))
            out.append(x)
        return out

    def from_limbs(self, ls):
        n = len(ls)
        while n > 1 and self.val(ls[n - 1]) == 0:
            n -= 1
        if n > 1:
            for X, i, _ in self._limb.get(ls[0].get_id(), []):
                if i == 0 and all(any(Y.get_id() == X.get_id() and k == j for Y, k, _ in self._limb.get(ls[j].get_id(), [])) for j in range(1, n)):
                    return self.wrap(X, 64 * n, False)
        r = ls[0]
        for i in range(1, n):
            if self.val(ls[i]) == 0:
                continue
            r = self._s(r + self._s(ls[i] * z3.IntVal(1 << (64 * i))))
        return r

    def bool_to_int(self, b, bits):
        if is_true(b): return z3.IntVal(1)
        if is_false(b): return z3.IntVal(0)
        return z3.If(b, z3.IntVal(1), z3.IntVal(0))


class BvDom:
    name = "bv"

    kn = None

    def __init__(self):
        self.defs = {}

    def learn(self, kn, c, pos=True):
        pass

    def sort(self, bits):
        return z3.BitVecSort(bits)

    def const(self, v, bits, signed=False):
        return z3.BitVecVal(v, bits)

    def val(self, e):
        if z3.is_bv_value(e):
            return e.as_long()
        return None

    def fresh(self, name, bits, signed):
        return z3.BitVec(name, bits), []

    def wrap(self, e, bits, signed):
        return e

    def _s(self, e):
        ch = e.children()
        if ch and all(z3.is_bv_value(c) for c in ch):
            return z3.simplify(e)
        return e

    def bin(self, op, a, b, bits, signed):
        if op in ("Shl", "Shr"):
            if b.size() != bits:
                b = z3.Extract(bits - 1, 0, b) if b.size() > bits else z3.ZeroExt(bits - b.size(), b)
            if bits & (bits - 1) == 0:
                b = z3.simplify(b & (bits - 1))
            if op == "Shl": return self._s(a << b)
            return self._s((a >> b) if signed else z3.LShR(a, b))
        f = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b,
             "Div": lambda: (a / b) if signed else z3.UDiv(a, b),
             "Rem": lambda: z3.SRem(a, b) if signed else z3.URem(a, b),
             "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b}
        return self._s(f[op]())

    def raw(self, op, a, b):
        raise Unsupported("raw in bv mode")

    def overflow(self, op, a, b, bits, signed):
        n = bits * 2 if op == "Mul" else bits + 1
        ext = (lambda x: z3.SignExt(n - bits, x)) if signed else (lambda x: z3.ZeroExt(n - bits, x))
        if not signed and op == "Sub":
            return z3.ULT(a, b)
        r = {"Add": lambda: ext(a) + ext(b), "Sub": lambda: ext(a) - ext(b), "Mul": lambda: ext(a) * ext(b)}[op]()
        back = ext(z3.Extract(bits - 1, 0, r))
        return z3.simplify(r != back)

    def cmp(self, op, a, b, bits, signed):
        if op in ("Eq", "Ne"):
            return z3.simplify(a == b if op == "Eq" else a != b) if self.val(a) is not None and self.val(b) is not None else (a == b if op == "Eq" else a != b)
        if signed:
            r = {"Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b}[op]()
        else:
            r = {"Lt": lambda: z3.ULT(a, b), "Le": lambda: z3.ULE(a, b), "Gt": lambda: z3.UGT(a, b), "Ge": lambda: z3.UGE(a, b)}[op]()
        if self.val(a) is not None and self.val(b) is not None:
            r = z3.simplify(r)
        return r

    def neg(self, a, bits, signed):
        return self._s(-a)

    def bnot(self, a, bits, signed):
        return self._s(~a)

    def cast(self, a, fb, fs, tb, ts):
        if tb == fb: return a
        if tb < fb: return z3.simplify(z3.Extract(tb - 1, 0, a))
        return z3.simplify(z3.SignExt(tb - fb, a) if fs else z3.ZeroExt(tb - fb, a))

    def limbs(self, a, bits):
        return [z3.simplify(z3.Extract(64 * i + 63, 64 * i, a)) for i in range(bits // 64)]

    def from_limbs(self, ls):
        return z3.simplify(z3.Concat(*reversed(ls)))

    def bool_to_int(self, b, bits):
        if is_true(b): return z3.BitVecVal(1, bits)
        if is_false(b): return z3.BitVecVal(0, bits)
        return z3.If(b, z3.BitVecVal(1, bits), z3.BitVecVal(0, bits))
