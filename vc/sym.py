"""Symbolic executor for MIR: generates verification conditions from the real code.

Every path is explored; calls are replaced by the callee's contract when one is registered
(E.contracts), by a model for library functions outside the repository (E.models), and inlined
otherwise.  Loops are unrolled when their trip count is concrete on every path and cut by a loop
contract (E.loop_cuts) otherwise.
"""
import itertools, re, time
import z3
from dom import IntDom, BvDom, Unsupported, is_true, is_false
from mir import Mir, LostAnchor, norm

z3.set_param("memory_max_size", 12000)


class Agg:
    """struct / tuple / array / enum-variant value"""
    __slots__ = ("v", "f")

    def __init__(self, f, v=0):
        self.f = tuple(f)
        self.v = v

    def __repr__(self):
        return "Agg%s%s" % ("" if not self.v else "#%s" % self.v, list(self.f))


class Ptr:
    """reference: object id + projection path; meta = slice length (int/term) or None"""
    __slots__ = ("o", "p", "m")

    def __init__(self, o, p=(), m=None):
        self.o, self.p, self.m = o, tuple(p), m

    def __repr__(self):
        return "&%s%s%s" % (self.o, "".join("." + str(x[1]) if isinstance(x, tuple) else str(x) for x in self.p), "" if self.m is None else "[%s]" % self.m)


class Op:
    """opaque value with a tag and payload"""
    __slots__ = ("t", "a")

    def __init__(self, t, *a):
        self.t, self.a = t, a

    def __repr__(self):
        return "<%s %s>" % (self.t, ",".join(map(str, self.a)))


UNINIT = Op("uninit")
LEARN = lambda kn, c: None


def vkey(v):
    """structural identity of a value"""
    if isinstance(v, Agg):
        return ("A", v.v, tuple(vkey(x) for x in v.f))
    if isinstance(v, Ptr):
        return ("P", v.o, tuple(pkey(x) for x in v.p))
    if isinstance(v, Op):
        return ("O", v.t, tuple(vkey(x) if isinstance(x, (Agg, Ptr, Op, z3.ExprRef)) else x for x in v.a))
    if isinstance(v, z3.ExprRef):
        return ("z", v.get_id())
    return v


def pkey(x):
    return tuple(y.get_id() if isinstance(y, z3.ExprRef) else y for y in x)


class State:
    __slots__ = ("pc", "mem", "log", "gh", "kn")

    def __init__(self, pc=(), mem=None, log=(), gh=None, kn=None):
        self.pc = pc
        self.mem = mem if mem is not None else {}
        self.log = log
        self.gh = gh if gh is not None else {}
        self.kn = kn if kn is not None else {}

    def fork(self):
        return State(self.pc, dict(self.mem), self.log, dict(self.gh), dict(self.kn))

    def add(self, *cs):
        cs = [c for c in cs if not is_true(c)]
        if cs:
            self.pc = self.pc + tuple(cs)
            for c in cs:
                LEARN(self.kn, c)
        return self

    def ev(self, *e):
        self.log = self.log + (e,)
        return self


class Outcome:
    __slots__ = ("k", "st", "v", "why")

    def __init__(self, k, st, v=None, why=None):
        self.k, self.st, self.v, self.why = k, st, v, why


class PathLimit(Unsupported):
    pass


class E:
    def __init__(self, mir, mode="int", feas_ms=400, max_paths=4000):
        self.m = mir
        self.d = IntDom() if mode == "int" else BvDom()
        self.mode = mode
        global LEARN
        LEARN = self.d.learn
        self.contracts = {}     # norm name (or suffix) -> callable(E, st, fn, args) -> [(st, value)]
        self.models = []        # (regex, callable)
        self.loop_cuts = {}     # (fn id) -> callable(E, st, fr, head) -> None or list of ("go", st)
        self.panics = []
        self.cuts = []          # outcomes of loop-body obligations
        self.ctr = itertools.count()
        self.feas_ms = feas_ms
        self.max_paths = max_paths
        self.paths = 0
        self.assumed = set()    # names of assumed library models used
        self.inlined = set()
        self.used_contracts = set()
        self._model_cache = {}
        self.stats = {"feas": 0, "feas_s": 0.0}
        self.unroll = 400
        self.assumptions_global = []
        self.deadline = None
        self.loopinfo = {}
        self.prune_div = True
        self.keep_panics = True
        self.merge_calls = set()
        self.feas_defs = True
        self.drop_err = set()
        self.dropped = 0
        import models
        models.install(self)

    # ------------------------------------------------------------------ values
    def new(self, hint="o"):
        return "%s!%d" % (hint, next(self.ctr))

    def fresh_int(self, name, bits, signed, st=None):
        x, cs = self.d.fresh("%s!%d" % (name, next(self.ctr)), bits, signed)
        if st is not None:
            st.add(*cs)
        else:
            self.assumptions_global += cs
        return x

    def fresh_bool(self, name):
        return z3.Bool("%s!%d" % (name, next(self.ctr)))

    def key(self, name="key"):
        return z3.Int("%s!%d" % (name, next(self.ctr)))

    def named(self, name, bits, signed, st):
        x, cs = self.d.fresh(name, bits, signed)
        st.add(*cs)
        return x

    def sym(self, ti, name, st, depth=0):
        """fresh symbolic value of a type"""
        m = self.m
        it = m.int_ty(ti)
        if it:
            return self.fresh_int(name, it[0], it[1], st)
        t = m.T(ti)
        k = t["k"]
        if k == "bool":
            return self.fresh_bool(name)
        if m.is_pubkey(ti):
            return self.key(name)
        if k == "adt":
            import models
            h = models.sym_adt(self, ti, t, name, st, depth)
            if h is not None:
                return h
            if t["adt"].lower().startswith("struct"):
                return Agg([self.sym(ft, name + "." + fn, st, depth + 1) for fn, ft in t["variants"][0]["fields"]])
            raise Unsupported("symbolic enum %s" % t["name"])
        if k == "tuple":
            return Agg([self.sym(x, name + "." + str(i), st, depth + 1) for i, x in enumerate(t["elems"])])
        if k == "array":
            e = m.T(t["elem"])
            if e["k"] == "uint" and e["bits"] == 8:
                return Op("bytes", "sym", z3.Int("%s!%d" % (name, next(self.ctr))), t["len"])
            if t["len"] <= 64:
                return Agg([self.sym(t["elem"], "%s[%d]" % (name, i), st, depth + 1) for i in range(t["len"])])
            return Op("bigarray", name)
        if k in ("ref", "ptr"):
            e = m.T(t["elem"])
            if e["k"] == "str":
                return Op("str", "sym", name)
            if e["k"] == "slice":
                o = self.new(name)
                ln = self.fresh_int(name + ".len", 64, False, st)
                st.mem[o] = Op("symslice", t["elem"] and e["elem"], name)
                return Ptr(o, (), ln)
            if e["k"] == "dyn":
                return Op("dyn", name)
            o = self.new(name)
            st.mem[o] = self.sym(t["elem"], name, st, depth + 1)
            return Ptr(o)
        if k in ("fndef", "closure", "never"):
            return Op("zst")
        return Op("opaque", t["name"], name)

    # ------------------------------------------------------------------ memory
    def get(self, v, path, st):
        for i, e in enumerate(path):
            if isinstance(v, z3.ExprRef) or (isinstance(v, Op)):
                if e[0] == "limbs":
                    v = Agg(self.d.limbs(v, e[1]))
                    continue
                if isinstance(v, Op):
                    import models
                    r = models.op_field(self, st, v, e)
                    if r is not None:
                        v = r
                        continue
                raise Unsupported("projection %s of %s" % (e, v))
            if isinstance(v, Ptr) and e[0] == "f":
                # fields of raw/fat pointers wrappers (Box, NonNull, Unique): transparent
                continue
            if not isinstance(v, Agg):
                raise Unsupported("projection %s of %r" % (e, v))
            if e[0] == "f":
                v = v.f[e[1]]
            elif e[0] == "v":
                if v.v != e[1]:
                    raise Unsupported("downcast to inactive variant")
            elif e[0] == "i":
                ix = e[1]
                if isinstance(ix, int):
                    v = v.f[ix]
                else:
                    c = self.d.val(ix)
                    if c is not None:
                        v = v.f[c]
                    else:
                        v = self.ite_select(v.f, ix)
            elif e[0] == "limbs":
                # a wide integer built as an aggregate (cannot happen: combined on construction)
                v = v.f[0]
            elif e[0] == "sub":
                v = Agg(v.f[e[1]:e[2]])
            else:
                raise Unsupported("path " + str(e))
        return v

    def ite_select(self, fs, ix):
        r = fs[-1]
        for i in range(len(fs) - 2, -1, -1):
            r = self.ite(ix == self.d.const(i, 64), fs[i], r)
        return r

    def ite(self, c, a, b):
        if a is b: return a
        if is_true(c): return a
        if is_false(c): return b
        if vkey(a) == vkey(b):
            return a
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
            return z3.If(c, a, b)
        if isinstance(a, Agg) and isinstance(b, Agg) and a.v == b.v and len(a.f) == len(b.f):
            return Agg([self.ite(c, x, y) for x, y in zip(a.f, b.f)], a.v)
        raise Unsupported("ite of %r / %r" % (a, b))

    def put(self, v, path, new, st):
        if not path:
            return new
        e = path[0]
        if e[0] == "limbs" and isinstance(v, z3.ExprRef):
            ls = Agg(self.d.limbs(v, e[1]))
            n = self.put(ls, path[1:], new, st)
            return self.d.from_limbs(list(n.f))
        if v is None or v is UNINIT or (isinstance(v, Op) and v.t == "uninit"):
            if e[0] == "f" or e[0] == "v":
                v = Agg([], e[1] if e[0] == "v" else 0)
            else:
                raise Unsupported("write into uninit %s" % (e,))
        if isinstance(v, Ptr) and e[0] == "f":
            return self.put(v, path[1:], new, st)
        if isinstance(v, Op):
            import models
            return models.op_put(self, st, v, path, new)
        if not isinstance(v, Agg):
            raise Unsupported("write projection %s of %r" % (e, v))
        if e[0] == "f":
            fs = list(v.f)
            while len(fs) <= e[1]:
                fs.append(UNINIT)
            fs[e[1]] = self.put(fs[e[1]], path[1:], new, st)
            return Agg(fs, v.v)
        if e[0] == "v":
            n = self.put(Agg(v.f, e[1]) if v.v != e[1] else v, path[1:], new, st)
            return Agg(n.f, e[1])
        if e[0] == "i":
            ix = e[1]
            c = ix if isinstance(ix, int) else self.d.val(ix)
            fs = list(v.f)
            if c is not None:
                fs[c] = self.put(fs[c], path[1:], new, st)
            else:
                for i in range(len(fs)):
                    fs[i] = self.ite(ix == self.d.const(i, 64), self.put(fs[i], path[1:], new, st), fs[i])
            return Agg(fs, v.v)
        raise Unsupported("write path " + str(e))

    def load(self, st, ptr):
        if not isinstance(ptr, Ptr):
            import models
            r = models.op_deref(self, st, ptr)
            if r is not None:
                return r
            raise Unsupported("load through %r" % (ptr,))
        if ptr.o not in st.mem:
            import models
            models.materialise(self, st, ptr.o)
        return self.get(st.mem[ptr.o], ptr.p, st)

    def store(self, st, ptr, v):
        if not isinstance(ptr, Ptr):
            raise Unsupported("store through %r" % (ptr,))
        if ptr.o not in st.mem:
            import models
            models.materialise(self, st, ptr.o)
        st.mem[ptr.o] = self.put(st.mem.get(ptr.o), ptr.p, v, st)

    # places ------------------------------------------------------------
    def resolve(self, st, fr, place):
        """-> (Ptr, type index or None)"""
        loc, proj = place
        p = Ptr((fr.uid, loc))
        ti = fr.fn["locals"][loc]
        for e in proj:
            t = self.m.T(ti) if ti is not None else None
            if e == "*":
                v = self.load_raw(st, p)
                if not isinstance(v, Ptr):
                    import models
                    v = models.deref_ptr(self, st, v)
                p = v
                ti = t.get("elem") if t else None
                if t and t["k"] == "adt":   # Box deref
                    ti = t["gargs"][0] if t.get("gargs") else None
            elif e[0] == "f":
                w = self.m.wide_bits(ti) if ti is not None else None
                if w:
                    p = Ptr(p.o, p.p + (("limbs", w),))
                else:
                    p = Ptr(p.o, p.p + (("f", e[1]),), p.m)
                ti = e[2]
            elif e[0] == "i":
                ix = self.load_raw(st, Ptr((fr.uid, e[1])))
                c = self.d.val(ix)
                p = Ptr(p.o, p.p + (("i", c if c is not None else ix),))
                ti = t.get("elem") if t else None
            elif e[0] == "c":
                off = e[1]
                if e[3]:
                    n = p.m if p.m is not None else t.get("len")
                    n = n if isinstance(n, int) else self.d.val(n)
                    if n is None:
                        raise Unsupported("from_end index of symbolic slice")
                    off = n - e[1]
                p = Ptr(p.o, p.p + (("i", off),))
                ti = t.get("elem") if t else None
            elif e[0] == "s":
                n = p.m if p.m is not None else t.get("len")
                n = n if isinstance(n, int) else self.d.val(n)
                if n is None: raise Unsupported("subslice of symbolic slice")
                to = n - e[2] if e[3] else e[2]
                p = Ptr(p.o, p.p + (("sub", e[1], to),), to - e[1])
            elif e[0] == "d":
                p = Ptr(p.o, p.p + (("v", e[1]),))
            elif e[0] == "o":
                pass
            else:
                raise Unsupported("proj " + str(e))
        return p, ti

    def load_raw(self, st, p):
        v = self.load(st, p)
        return v

    def read_place(self, st, fr, place):
        p, ti = self.resolve(st, fr, place)
        if p.m is not None and place[1] and place[1][-1] == "*":
            return p
        return self.load(st, p)

    def operand(self, st, fr, o):
        k = o[0]
        if k in ("cp", "mv"):
            return self.read_place(st, fr, o[1])
        if k == "k":
            return self.const(st, o[1], o[2])
        if k == "rt":
            return z3.BoolVal(False)
        raise Unsupported("operand " + k)

    def const(self, st, c, ti):
        t = self.m.T(ti)
        if "int" in c:
            if t["k"] == "bool":
                return z3.BoolVal(int(c["int"]) != 0)
            it = self.m.int_ty(ti)
            if it is None:
                it = (64, False)
            return self.d.const(int(c["int"]), it[0], it[1])
        if "fn" in c:
            return Op("fn", c["fn"])
        if "fnptr" in c:
            return Op("fn", c["fnptr"])
        if "zst" in c:
            if t["k"] == "adt" and t["adt"].lower().startswith("struct"):
                return Agg([self.const(st, {"zst": 1}, ft) for _, ft in t["variants"][0]["fields"]])
            return Op("zst", ti)
        if "bytes" in c:
            return Op("bytes", "lit", bytes(c["bytes"]))
        if "str" in c:
            return Op("str", "lit", c["str"])
        if "agg" in c:
            if self.m.is_pubkey(ti):
                import models
                b = c["agg"][0]
                return models.pubkey_const(self, bytes(b["bytes"])) if "bytes" in b else self.key()
            w = self.m.wide_bits(ti)
            if w:
                ls = [self.d.const(int(x["int"]), 64) for x in c["agg"][0]["agg"]]
                return self.d.from_limbs(ls)
            k = t["k"]
            if k == "adt":
                fts = [ft for _, ft in t["variants"][c["variant"]]["fields"]]
            elif k == "array":
                fts = [t["elem"]] * len(c["agg"])
            elif k == "tuple":
                fts = t["elems"]
            elif k == "slice":
                fts = [t["elem"]] * len(c["agg"])
            else:
                return Op("const", str(c)[:60])
            return Agg([self.const(st, x, ft) for x, ft in zip(c["agg"], fts)], c["variant"])
        if "ref" in c:
            e = t.get("elem")
            v = self.const(st, c["ref"], e) if e is not None else Op("const", "ref")
            o = self.new("const")
            st.mem[o] = v
            m = None
            if e is not None and self.m.T(e)["k"] == "slice":
                m = len(v.f) if isinstance(v, Agg) else None
            return Ptr(o, (), m)
        if "static" in c:
            return Ptr("static:" + c["static"])
        return Op("const", str(c)[:80], t["name"])

    # ------------------------------------------------------------------ rvalues
    def ity(self, ti):
        it = self.m.int_ty(ti)
        if it is None:
            t = self.m.T(ti)
            if t["k"] in ("ptr", "ref", "fnptr"):
                return (64, False)
            raise Unsupported("integer type expected: " + t["name"])
        return it

    def boolop(self, op, a, b):
        if op == "Eq": return a == b
        if op == "Ne": return z3.Xor(a, b)
        if op == "BitAnd": return z3.And(a, b)
        if op == "BitOr": return z3.Or(a, b)
        if op == "BitXor": return z3.Xor(a, b)
        if op == "Lt": return z3.And(z3.Not(a), b)
        if op == "Gt": return z3.And(a, z3.Not(b))
        if op == "Le": return z3.Or(z3.Not(a), b)
        if op == "Ge": return z3.Or(a, z3.Not(b))
        raise Unsupported("bool op " + op)

    def binop(self, st, op, a, b, ti, tb=None):
        op0 = op.replace("Unchecked", "")
        t = self.m.T(ti)
        if t["k"] == "bool":
            return simp(self.boolop(op0, a, b))
        if isinstance(a, (Ptr, Op)) or isinstance(b, (Ptr, Op)):
            if op0 in ("Eq", "Ne"):
                eq = vkey(a) == vkey(b)
                return z3.BoolVal(eq if op0 == "Eq" else not eq)
            raise Unsupported("pointer arithmetic " + op)
        bits, sg = self.ity(ti)
        if op0 in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.d.cmp(op0, a, b, bits, sg)
        if op0 == "Cmp":
            raise Unsupported("three-way cmp")
        return self.d.bin(op0, a, b, bits, sg)

    def rvalue(self, st, fr, r, dest_ti):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            if r[1] == "Cmp":
                bits, sg = self.ity(r[4])
                return Op("ordering", a, b, bits, sg)
            return self.binop(st, r[1], a, b, r[4])
        if k == "chk":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            bits, sg = self.ity(r[4])
            return Agg([self.d.bin(r[1], a, b, bits, sg), self.d.overflow(r[1], a, b, bits, sg)])
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "PtrMetadata":
                return self.ptr_len(a)
            t = self.m.T(r[3])
            if t["k"] == "bool":
                return simp(z3.Not(a))
            bits, sg = self.ity(r[3])
            return self.d.neg(a, bits, sg) if r[1] == "Neg" else self.d.bnot(a, bits, sg)
        if k == "cast":
            a = self.operand(st, fr, r[2])
            kind = r[1]
            if kind == "IntToInt":
                tt, ft = self.m.T(r[3]), self.m.T(r[4])
                if ft["k"] == "bool":
                    return self.d.bool_to_int(a, self.ity(r[3])[0])
                if ft["k"] == "adt":   # fieldless enum cast
                    if isinstance(a, Agg):
                        return self.d.const(ft["variants"][a.v]["discr"], self.ity(r[3])[0])
                    raise Unsupported("enum cast")
                fb, fs = self.ity(r[4]); tb, ts = self.ity(r[3])
                return self.d.cast(a, fb, fs, tb, ts)
            if kind.startswith("PointerCoercion") or kind.startswith("PtrToPtr") or kind == "BoxDerefTransmute":
                if "Unsize" in kind and isinstance(a, Ptr):
                    ft = self.m.T(r[4])
                    e = self.m.T(ft["elem"]) if "elem" in ft else None
                    if e and e["k"] == "array":
                        return Ptr(a.o, a.p, e["len"])
                    return a
                return a
            if kind == "Transmute" or kind == "Subtype":
                tt, ft = self.m.T(r[3]), self.m.T(r[4])
                import models
                return models.transmute(self, st, a, ft, tt, r[4], r[3])
            raise Unsupported("cast " + kind)
        if k in ("ref", "addr"):
            p, ti = self.resolve(st, fr, r[2])
            return p
        if k == "discr":
            v = self.read_place(st, fr, r[1])
            if isinstance(v, Op) and v.t == "ordering":
                return Op("orddiscr", *v.a)
            if not isinstance(v, Agg):
                import models
                r2 = models.op_discr(self, st, v, r[2])
                if r2 is not None: return r2
                raise Unsupported("discriminant of %r" % (v,))
            t = self.m.T(r[2])
            d = t["variants"][v.v]["discr"]
            dt = self.m.T(dest_ti)
            b = dt.get("bits", 64)
            if dt["k"] == "int" and d >> (b - 1):
                d = (d & ((1 << b) - 1))
                if d >> (b - 1): d -= 1 << b
            return self.d.const(d, b)
        if k == "len":
            p, ti = self.resolve(st, fr, r[1])
            return self.ptr_len(p)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[4]]
            kind = r[1]
            if kind == "adt":
                t = self.m.T(r[2])
                w = self.m.wide_bits(r[2])
                if w:
                    return self.d.from_limbs(list(ops[0].f))
                if self.m.is_pubkey(r[2]):
                    import models
                    return models.pubkey_from_bytes(self, ops[0])
                return Agg(ops, r[3])
            if kind == "array":
                e = self.m.T(r[2])
                if e["k"] == "uint" and e["bits"] == 8:
                    vs = [self.d.val(x) if isinstance(x, z3.ExprRef) else None for x in ops]
                    if all(x is not None for x in vs):
                        return Op("bytes", "lit", bytes(vs))
                    if len(ops) == 1:
                        return Op("bytes", "u8", ops[0])
                return Agg(ops)
            if kind == "closure":
                return Op("closure", r[2], tuple(ops))
            if kind == "rawptr":
                a = ops[0]
                if isinstance(a, Ptr):
                    return Ptr(a.o, a.p, ops[1] if isinstance(ops[1], (int, z3.ExprRef)) else None)
                return a
            if kind == "other":
                raise Unsupported("aggregate")
            return Agg(ops)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if isinstance(v, z3.ExprRef) and self.d.val(v) is not None and r[2] is not None and r[2] > 64:
                return Op("bytes", "lit", bytes([self.d.val(v) & 255]) * r[2]) if r[2] <= 4096 else Op("bigarray", "repeat")
            t = self.m.T(dest_ti)
            if t["k"] == "array" and self.m.T(t["elem"])["k"] == "uint" and self.m.T(t["elem"])["bits"] == 8 and isinstance(v, z3.ExprRef) and self.d.val(v) is not None:
                return Op("bytes", "lit", bytes([self.d.val(v)]) * r[2])
            return Agg([v] * r[2])
        raise Unsupported("rvalue " + k)

    def ptr_len(self, p):
        if isinstance(p, Ptr):
            if p.m is None:
                raise Unsupported("len of thin pointer")
            return self.d.const(p.m, 64) if isinstance(p.m, int) else p.m
        if isinstance(p, Op) and p.t == "str" and p.a[0] == "lit":
            return self.d.const(len(p.a[1]), 64)
        if isinstance(p, Op):
            import models
            r = models.op_len(self, p)
            if r is not None: return r
        raise Unsupported("len of %r" % (p,))

    # ------------------------------------------------------------------ solver
    def relevant(self, pc, extra, defs=True):
        """cone of influence of `extra` inside pc"""
        def vs(e):
            return expr_vars(e)
        want = set(vs(extra))
        rest = [(c, vs(c)) for c in pc] + self._globals()
        sel = []
        ch = True
        defs = self.d.defs if defs else {}
        done = set()
        while ch:
            ch = False
            if defs:
                new = [v for v in want if v in defs and v not in done]
                for v in new:
                    done.add(v)
                    for f in defs[v][3]:
                        sel.append(f)
                        want |= vs(f)
                        ch = True
            nxt = []
            for c, v in rest:
                if not v or not v.isdisjoint(want):
                    sel.append(c)
                    if not v <= want:
                        want |= v
                        ch = True
                else:
                    nxt.append((c, v))
            rest = nxt
        if len(done) > 1:
            sel += self.congruence(done)
        return sel

    def _globals(self):
        g = self.__dict__.setdefault("_glob", [])
        for c in self.assumptions_global[len(g):]:
            g.append((c, expr_vars(c)))
        return g

    def linear(self, c, side):
        """side: dict id -> range fact of an abstracted product"""
        cache = self.__dict__.setdefault("_lin", {})

        def go(x):
            i = x.get_id()
            if i in cache:
                y, sd, _ = cache[i]
                if sd: side.update(sd)
                return y
            my = {}
            if not z3.is_app(x) or not x.num_args():
                y = x
            else:
                ch = []
                for h in x.children():
                    ch.append(go(h))
                    my.update(cache[h.get_id()][1])
                k = x.decl().kind()
                nl = (k == z3.Z3_OP_MUL and sum(0 if z3.is_int_value(h) else 1 for h in ch) > 1) or (k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(ch[1]))
                if nl:
                    y = z3.Int("lin!%d" % i)
                    lo, hi = self.d.rng(x)
                    for b in ([y >= lo] if lo is not None else []) + ([y <= hi] if hi is not None else []):
                        my[b.get_id()] = b
                elif all(a.eq(b) for a, b in zip(ch, x.children())):
                    y = x
                else:
                    y = z3.Sum(ch) if k == z3.Z3_OP_ADD else z3.Product(ch) if k == z3.Z3_OP_MUL else z3.And(ch) if k == z3.Z3_OP_AND else z3.Or(ch) if k == z3.Z3_OP_OR else x.decl()(*ch)
            cache[i] = (y, my, x)
            if my: side.update(my)
            return y
        return go(c)

    def congruence(self, names):
        """quotients of equal operands are equal"""
        out = []
        ds = sorted(names)
        many = len(ds) > 14
        for i, x in enumerate(ds):
            for y in ds[:i]:
                a, b = self.d.defs[x], self.d.defs[y]
                if a[0] == b[0] == "ratio":
                    # the tick-to-price function is strictly increasing on its domain
                    import ticks
                    lo, hi = ticks.MINT, ticks.MAXT
                    out += [z3.Implies(a[1] == b[1], a[4] == b[4]), z3.Implies(z3.And(a[1] < b[1], b[1] > lo, a[1] < hi), a[4] < b[4]),
                            z3.Implies(z3.And(a[1] > b[1], a[1] > lo, b[1] < hi), a[4] > b[4])]
                elif a[0] == b[0] and (not many or a[1].eq(b[1]) or a[2].eq(b[2])):
                    c = simp(z3.And(a[1] == b[1], a[2] == b[2]))
                    if not is_false(c):
                        out.append(z3.Implies(c, a[4] == b[4]))
        return out

    def feasible(self, st, cond):
        """may cond hold under the path condition? (unknown counts as yes)"""
        if is_true(cond): return True
        if is_false(cond): return False
        t0 = time.time()
        cs = self.relevant(st.pc, cond, self.feas_defs)
        key = (tuple(sorted(c.get_id() for c in cs)), cond.get_id())
        if key in self._model_cache:
            return self._model_cache[key][0]
        s = z3.Solver()
        s.set("timeout", self.feas_ms)
        if self.feas_defs or self.mode != "int":
            raw_add(s, cs + [cond])
        else:
            # linear over-approximation: products of variables are arbitrary values in their range
            side = {}
            ls = [self.linear(c, side) for c in cs] + [self.linear(cond, side)]
            raw_add(s, ls + list(side.values()))
        r = s.check()
        self.stats["feas"] += 1
        self.stats["feas_s"] += time.time() - t0
        res = r != z3.unsat
        self._model_cache[key] = (res, cs, cond)  # keep asts alive
        return res

    # ------------------------------------------------------------------ execution
    def call(self, st, fn, args, depth=0):
        """-> list of (State, value); panics are recorded in self.panics"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        name = norm(fn["name"])
        c = self.contracts.get(fn["id"])
        if c is not None and depth > 0:
            self.used_contracts.add(name)
            return c(self, st, fn, args)
        mod = self.find_model(fn, name)
        if mod is not None:
            r = mod(self, st, fn, args, depth)
            if r is not NotImplemented:
                return r
        if "blocks" not in fn:
            raise Unsupported("no body or model: " + name)
        if depth > 60:
            raise Unsupported("call depth")
        if fn["krate"] == "cyclos_core":
            self.inlined.add(name)
        res = self.exec_fn(st, fn, args, depth)
        if fn["id"] in self.merge_calls and len(res) > 1:
            res = self.merge(res)
        return res

    def merge(self, res):
        """join return states that differ only in mergeable values"""
        groups = []
        for st, v in res:
            for g in groups:
                try:
                    m = self.merge2(g[0], g[1], st, v)
                except Unsupported:
                    continue
                g[0], g[1] = m
                break
            else:
                groups.append([st, v])
        return [(a, b) for a, b in groups]

    def joinable(self, a, b):
        if a is b: return True
        if isinstance(a, z3.ExprRef):
            return isinstance(b, z3.ExprRef) and a.sort().eq(b.sort())
        if isinstance(a, Agg):
            if not isinstance(b, Agg): return False
            if a.v != b.v or len(a.f) != len(b.f): return False
            return all(self.joinable(x, y) for x, y in zip(a.f, b.f))
        return vkey(a) == vkey(b)

    def merge2(self, s1, v1, s2, v2):
        if s1.log is not s2.log and len(s1.log) != len(s2.log):
            raise Unsupported("merge log")
        m2 = s2.mem
        for k, a in s1.mem.items():
            b = m2.get(k)
            if b is not None and a is not b and not self.joinable(a, b):
                raise Unsupported("merge")
        if s1.log != s2.log and [vkey_ev(x) for x in s1.log] != [vkey_ev(x) for x in s2.log]:
            raise Unsupported("merge log")
        n = 0
        for a, b in zip(s1.pc, s2.pc):
            if a is b or a.get_id() == b.get_id(): n += 1
            else: break
        c1 = z3.And(*s1.pc[n:]) if len(s1.pc) > n else z3.BoolVal(True)
        c2 = z3.And(*s2.pc[n:]) if len(s2.pc) > n else z3.BoolVal(True)
        ids = {c.get_id() for c in s1.pc[n:]}
        if not any(simp(z3.Not(c)).get_id() in ids for c in s2.pc[n:]) and not any(simp(z3.Not(c)).get_id() in {x.get_id() for x in s2.pc[n:]} for c in s1.pc[n:]):
            # not evidently exclusive: which of the two paths is taken is an unconstrained choice
            ch = self.fresh_bool("choice")
            c1 = z3.And(ch, c1)
            c2 = z3.And(z3.Not(ch), c2)
        v = None if v1 is None and v2 is None else self.ite(c1, v1, v2)
        mem = {}
        for k in s1.mem:
            if k in s2.mem:
                mem[k] = self.ite(c1, s1.mem[k], s2.mem[k])
            elif not isinstance(k, tuple):
                mem[k] = s1.mem[k]
        for k in s2.mem:
            if k not in s1.mem and not isinstance(k, tuple):
                mem[k] = s2.mem[k]
        gh = {}
        for k in set(s1.gh) | set(s2.gh):
            a, b = s1.gh.get(k), s2.gh.get(k)
            if vkey(a) == vkey(b) or a is b: gh[k] = a
            else: gh[k] = self.ite(c1, a, b)
        kn = {k: (min(a[0], b[0]) if a[0] is not None and b[0] is not None else None, max(a[1], b[1]) if a[1] is not None and b[1] is not None else None, a[2])
              for k, a in s1.kn.items() for b in [s2.kn.get(k)] if b is not None}
        either = z3.BoolVal(True) if is_true(c1) or is_true(c2) else simp(z3.Or(c1, c2))
        st = State(s1.pc[:n] + ((either,) if not is_true(either) else ()), mem, s1.log, gh, kn)
        return st, v

    def find_model(self, fn, name):
        key = ("m", fn["id"])
        if key in self._model_cache:
            return self._model_cache[key]
        r = None
        for rx, f in self.models:
            if rx.search(name):
                r = f
                break
        self._model_cache[key] = r
        return r

    def panic(self, st, why):
        if self.keep_panics:
            self.panics.append(Outcome("panic", st, None, why))

    def exec_fn(self, st, fn, args, depth, tupled=True):
        fr = Frame(fn, next(self.ctr))
        if "{closure" in fn["name"] and args:
            # called through the closure ABI: the arguments come as a tuple, and perhaps the closure by value
            if tupled and len(args) == 2 and fn["nargs"] == 2 and isinstance(args[1], Agg) and len(args[1].f) == 1:
                args = [args[0], args[1].f[0]]
            if isinstance(args[0], Op) and args[0].t == "closure" and self.m.T(fn["locals"][1])["k"] == "ref":
                o = self.new("clos")
                st.mem[o] = args[0]
                args = [Ptr(o)] + list(args[1:])
        if "spread" in fn and len(args) != fn["nargs"]:
            pass
        if len(args) != fn["nargs"]:
            # closure ABI: (closure, (args...)) -> untuple
            if len(args) == 2 and isinstance(args[1], Agg) and 1 + len(args[1].f) == fn["nargs"]:
                args = [args[0]] + list(args[1].f)
            else:
                raise Unsupported("arity of " + fn["name"])
        for i, a in enumerate(args):
            st.mem[(fr.uid, i + 1)] = a
        for i in range(len(fn["locals"])):
            if i == 0 or i > len(args):
                st.mem[(fr.uid, i)] = UNINIT
        work = [(st, 0, {})]
        out = []
        blocks = fn["blocks"]
        heads = self.heads(fn)
        join = self.join if isinstance(self.join, bool) else fn["id"] in self.join
        rpo = self.rpo(fn) if join else None
        while work:
            if join and len(work) > 1:
                st, bb, visits = self.take_joined(fn, fr, work, rpo)
            else:
                st, bb, visits = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget exhausted")
            if bb in heads:
                cut = self.loop_cuts.get(fn["id"])
                if cut is not None:
                    r = cut(self, st, fr, bb, visits)
                    if r is not None:
                        for s2 in r:
                            v2 = dict(visits); v2[("cut", bb)] = True
                            work.append((s2, ("body", bb), v2))
                        continue
                visits = dict(visits)
                visits[bb] = visits.get(bb, 0) + 1
                if visits[bb] > self.unroll:
                    raise Unsupported("loop unrolling limit in " + fn["name"])
            if isinstance(bb, tuple):
                bb = bb[1]
            stm, term = blocks[bb]
            self.d.kn = st.kn
            for s in stm:
                self.stmt(st, fr, s)
            nxt = self.term(st, fr, term, depth)
            for kind, s2, x in nxt:
                if kind == "goto":
                    work.append((s2, x, visits))
                elif kind == "ret":
                    if fn["id"] in self.drop_err and isinstance(x, Agg) and x.v == 1:
                        self.dropped += 1      # the whole instruction fails: the runtime reverts it
                        continue
                    out.append((s2, x))
            self.paths = max(self.paths, len(work) + len(out))
            for _, s2, _x in nxt:
                pass
            if len(work) + len(out) > self.max_paths:
                raise PathLimit("path limit in " + fn["name"])
        for s2, _ in out:
            for i in range(len(fn["locals"])):
                # locals of a finished frame are dead unless a returned reference points to them
                pass
        self.gc(out, fr)
        return out

    # ---- joining states that meet at a block
    join = False

    def rpo(self, fn):
        k = ("rpo", fn["id"])
        if k not in self._model_cache:
            blocks = fn["blocks"]
            succ = [succs(t) for _, t in blocks]
            order, seen = [], set()
            stack = [(0, iter(succ[0]))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        stack.append((x, iter(succ[x])))
                        break
                else:
                    order.append(b)
                    stack.pop()
            self._model_cache[k] = {b: i for i, b in enumerate(reversed(order))}
        return self._model_cache[k]

    def live(self, fn):
        """locals that may be read before being overwritten, per block entry (over-approximated)"""
        k = ("live", fn["id"])
        if k not in self._model_cache:
            blocks = fn["blocks"]

            def uses(x, out):
                if isinstance(x, list):
                    if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
                        out.add(x[0])
                        for pe in x[1]:
                            if isinstance(pe, list) and pe and pe[0] == "i": out.add(pe[1])
                        return
                    for y in x: uses(y, out)
                elif isinstance(x, dict):
                    for y in x.values(): uses(y, out)
            always = {0}
            gk = []
            for sts, tm in blocks:
                gen, kill = set(), set()
                for s in sts:
                    u = set()
                    if s[0] == "=":
                        uses(s[2], u)
                        if s[2][0] in ("ref", "addr"): always.add(s[2][2][0])
                        if s[1][1]: uses(s[1], u)
                    else:
                        uses(s[1:], u)
                    gen |= u - kill
                    if s[0] == "=" and not s[1][1]: kill.add(s[1][0])
                u = set()
                if tm[0] == "call":
                    uses(tm[1], u); uses(tm[2], u)
                    if tm[3][1]: uses(tm[3], u)
                    gen |= u - kill
                    if not tm[3][1]: kill.add(tm[3][0])
                else:
                    uses(tm[1:], u)
                    gen |= u - kill
                    if tm[0] == "switch": pass
                gk.append((gen, kill))
            live = [set() for _ in blocks]
            ch = True
            while ch:
                ch = False
                for b in range(len(blocks) - 1, -1, -1):
                    o = set()
                    for x in succs(blocks[b][1]): o |= live[x]
                    n = gk[b][0] | (o - gk[b][1])
                    if n != live[b]:
                        live[b] = n
                        ch = True
            self._model_cache[k] = [l | always for l in live]
        return self._model_cache[k]

    def joinpoints(self, fn):
        k = ("jp", fn["id"])
        if k not in self._model_cache:
            n = {}
            for b, (_, tm) in enumerate(fn["blocks"]):
                for x in set(succs(tm)): n[x] = n.get(x, 0) + 1
            def tail(b):
                for _ in range(60):
                    tm = fn["blocks"][b][1]
                    if tm[0] in ("ret", "resume", "unreach"): return True
                    if tm[0] not in ("goto", "drop"): return False
                    b = succs(tm)[0]
                return False
            self._model_cache[k] = {b for b, c in n.items() if c > 1 and not tail(b)}
        return self._model_cache[k]

    def take_joined(self, fn, fr, work, rpo):
        i = min(range(len(work)), key=lambda j: rpo.get(work[j][1][1] if isinstance(work[j][1], tuple) else work[j][1], 1 << 30))
        st, bb, vis = work.pop(i)
        if isinstance(bb, tuple):
            return st, bb, vis
        same = [j for j in range(len(work)) if work[j][1] == bb and work[j][2] == vis] if bb in self.joinpoints(fn) else ()
        if not same:
            return st, bb, vis
        lv = self.live(fn)[bb]
        n = len(fn["locals"])

        def trim(s):
            for l in range(n):
                if l not in lv and (fr.uid, l) in s.mem:
                    s.mem[(fr.uid, l)] = UNINIT
        trim(st)
        for j in reversed(same):
            s2 = work[j][0]
            trim(s2)
            try:
                m, _ = self.merge2(st, None, s2, None)
            except Unsupported:
                continue
            st = m
            work.pop(j)
            self.joined = self.__dict__.get("joined", 0) + 1
        return st, bb, vis

    def gc(self, out, fr):
        n = len(fr.fn["locals"])
        for s2, v in out:
            live = set()
            stack = [v]
            seen = set()
            esc = fr.esc
            if not esc:
                for i in range(n):
                    s2.mem.pop((fr.uid, i), None)

    def heads(self, fn):
        if fn["id"] in self.loopinfo:
            return self.loopinfo[fn["id"]]
        blocks = fn["blocks"]
        succ = [succs(t) for _, t in blocks]
        color = [0] * len(blocks)
        heads = set()
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for x in it:
                if color[x] == 0:
                    color[x] = 1
                    stack.append((x, iter(succ[x])))
                    break
                elif color[x] == 1:
                    heads.add(x)
            else:
                color[b] = 2
                stack.pop()
        self.loopinfo[fn["id"]] = heads
        return heads

    def stmt(self, st, fr, s):
        k = s[0]
        if k == "=":
            p, ti = self.resolve(st, fr, s[1])
            if s[2][0] in ("ref", "addr"):
                fr.esc = True
            v = self.rvalue(st, fr, s[2], ti)
            if not s[1][1]:
                st.mem[p.o] = v
            else:
                self.store(st, p, v)
        elif k == "setd":
            p, ti = self.resolve(st, fr, s[1])
            v = self.load(st, p)
            self.store(st, p, Agg(v.f if isinstance(v, Agg) else [], s[2]))
        elif k == "assume":
            pass
        else:
            raise Unsupported("statement " + k)

    def term(self, st, fr, t, depth):
        k = t[0]
        if k == "goto":
            return [("goto", st, t[1])]
        if k == "ret":
            v = st.mem.get((fr.uid, 0))
            if v is UNINIT:
                rt = self.m.T(fr.fn["locals"][0])
                if rt["k"] == "tuple" and not rt["elems"]:
                    v = Agg([])
            return [("ret", st, v)]
        if k == "drop":
            return [("goto", st, t[2])]
        if k == "unreach":
            return []
        if k == "resume":
            return []
        if k == "assert":
            c = self.operand(st, fr, t[1])
            if not t[2]:
                c = z3.Not(c)
            c = simp(c)
            out = []
            if not is_true(c):
                n = simp(z3.Not(c))
                if self.feasible(st, n):
                    if self.keep_panics:
                        s2 = st.fork().add(n)
                        self.panic(s2, "%s at %s line %s" % (t[3], fr.fn["name"], t[5]))
                    if not self.feasible(st, c):
                        return []
                    st.add(c)
            if is_false(c):
                return []
            return [("goto", st, t[4])]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            return self.switch(st, fr, v, t)
        if k == "call":
            return self.do_call(st, fr, t, depth)
        raise Unsupported("terminator " + k)

    def switch(self, st, fr, v, t):
        br, other, ti = t[2], t[3], t[4]
        if isinstance(v, Op) and v.t == "orddiscr":
            a, b, bits, sg = v.a
            conds = []
            for val, tgt in br:
                w = val & 0xff
                conds.append((self.d.cmp({255: "Lt", 0: "Eq", 1: "Gt"}[w], a, b, bits, sg), tgt))
        else:
            if not isinstance(v, z3.ExprRef):
                raise Unsupported("switch on %r" % (v,))
            conds = []
            if z3.is_bool(v):
                for val, tgt in br:
                    conds.append((simp(z3.Not(v)) if val == 0 else v, tgt))
            else:
                bits, sg = self.ity(ti)
                c = self.d.val(v)
                for val, tgt in br:
                    x = val
                    if sg and x >> (bits - 1): x -= 1 << bits
                    if c is not None:
                        cc = (c & ((1 << bits) - 1)) == (val & ((1 << bits) - 1))
                        conds.append((z3.BoolVal(cc), tgt))
                    else:
                        conds.append((v == self.d.const(x, bits, sg), tgt))
        out = []
        rest = [simp(z3.Not(c)) for c, _ in conds]
        oc = simp(z3.And(*rest)) if len(rest) > 1 else rest[0]
        allc = [(simp(c), tgt) for c, tgt in conds] + [(oc, other)]
        # is `other` an unreachable block?
        live = []
        for c, tgt in allc:
            if is_false(c):
                continue
            if fr.fn["blocks"][tgt][1][0] == "unreach" and not fr.fn["blocks"][tgt][0]:
                continue
            if is_true(c):
                return [("goto", st, tgt)]
            live.append((c, tgt))
        feas = [(c, tgt) for c, tgt in live if self.feasible(st, c)]
        if len(feas) == 1:
            c, tgt = feas[0]
            return [("goto", st.add(c), tgt)]
        for i, (c, tgt) in enumerate(feas):
            s2 = st.fork() if i < len(feas) - 1 else st
            s2.add(c)
            out.append(("goto", s2, tgt))
        # note: fork before add on the last one
        return out

    def do_call(self, st, fr, t, depth):
        f = self.operand(st, fr, t[1])
        args = [self.operand(st, fr, a) for a in t[2]]
        if isinstance(f, Op) and f.t == "fn":
            fn = self.m.fns[f.a[0]]
        elif isinstance(f, Op) and f.t == "const" and t[1][0] == "k":
            raise Unsupported("unresolved callee " + str(f))
        else:
            raise Unsupported("indirect call %r" % (f,))
        fr_line = t[5]
        res = self.call(st, fn, args, depth + 1)
        self.d.kn = st.kn
        out = []
        for s2, v in res:
            if t[4] is None:
                continue
            p, ti = self.resolve(s2, fr, t[3])
            if not t[3][1]:
                s2.mem[p.o] = v
            else:
                self.store(s2, p, v)
            out.append(("goto", s2, t[4]))
        return out

    def closure(self, st, cl, args, depth):
        """call a closure / fn value with a list of args"""
        if isinstance(cl, Op) and cl.t == "fn":
            return self.call(st, self.m.fns[cl.a[0]], args, depth + 1)
        if isinstance(cl, Op) and cl.t == "zst":
            ti = cl.a[0] if cl.a else None
            t = self.m.T(ti) if ti is not None else {}
            if "fn" in t:
                return self.call(st, self.m.fns[t["fn"]], [cl, Agg(args)] if t["k"] == "closure" else args, depth + 1)
        if isinstance(cl, Op) and cl.t == "closure":
            t = self.m.T(cl.a[0])
            fn = self.m.fns[t["fn"]]
            if "blocks" not in fn:
                raise Unsupported("closure body")
            env = Agg(cl.a[1])
            et = self.m.T(fn["locals"][1])
            if et["k"] == "ref":
                o = self.new("clos")
                st.mem[o] = env
                env = Ptr(o)
            return self.exec_fn(st, fn, [env] + args, depth + 1, tupled=False)
        raise Unsupported("closure call %r" % (cl,))


class Frame:
    __slots__ = ("fn", "uid", "esc")

    def __init__(self, fn, uid):
        self.fn, self.uid, self.esc = fn, uid, False


def vkey_ev(e):
    return tuple(vkey(x) for x in e)


_simp = {}


def simp(c):
    """light boolean simplification that keeps arithmetic terms as they are"""
    i = c.get_id()
    r = _simp.get(i)
    if r is None:
        r = _simp[i] = (_simp0(c), c)
    return r[0]


def _simp0(c):
    if is_true(c) or is_false(c):
        return c
    if z3.is_not(c):
        x = simp(c.children()[0])
        if is_true(x): return z3.BoolVal(False)
        if is_false(x): return z3.BoolVal(True)
        if z3.is_not(x): return x.children()[0]
        return z3.Not(x)
    if z3.is_and(c) or z3.is_or(c):
        a = z3.is_and(c)
        out = []
        for x in c.children():
            x = simp(x)
            if is_true(x):
                if a: continue
                return x
            if is_false(x):
                if not a: continue
                return x
            out.append(x)
        if not out: return z3.BoolVal(a)
        return out[0] if len(out) == 1 else (z3.And(*out) if a else z3.Or(*out))
    if z3.is_eq(c) or c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_XOR, z3.Z3_OP_DISTINCT):
        x, y = c.children()[:2]
        if x.eq(y):
            k = c.decl().kind()
            return z3.BoolVal(k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE))
        if not x.children() and not y.children() and not z3.is_bool(x):
            if c.decl().kind() != z3.Z3_OP_XOR:
                r = z3.simplify(c)
                if is_true(r) or is_false(r): return r
        if z3.is_bool(x):
            if z3.is_eq(c):
                if is_true(x): return simp(y)
                if is_true(y): return simp(x)
                if is_false(x): return simp(z3.Not(y))
                if is_false(y): return simp(z3.Not(x))
            if c.decl().kind() == z3.Z3_OP_XOR:
                if is_false(x): return simp(y)
                if is_false(y): return simp(x)
                if is_true(x): return simp(z3.Not(y))
                if is_true(y): return simp(z3.Not(x))
    if z3.is_bool(c) and c.decl().kind() == z3.Z3_OP_ITE:
        k, x, y = c.children()
        k = simp(k)
        if is_true(k): return simp(x)
        if is_false(k): return simp(y)
        x, y = simp(x), simp(y)
        if is_true(x) and is_false(y): return k
        if is_false(x) and is_true(y): return simp(z3.Not(k))
        return z3.If(k, x, y)
    return c


def raw_add(s, cs):
    ctx, h = s.ctx.ref(), s.solver
    seen = set()
    for c in cs:
        i = c.get_id()
        if i not in seen:
            seen.add(i)
            z3.Z3_solver_assert(ctx, h, c.as_ast())


def small(c, n=200):
    stack = [c]
    k = 0
    while stack:
        x = stack.pop()
        k += 1
        if k > n: return False
        stack.extend(x.children())
    return True


_vars = {}
_vkeep = []


def expr_vars(e):
    i = e.get_id()
    if i in _vars:
        return _vars[i]
    stack = [e]
    seen = set()
    r = set()
    while stack:
        x = stack.pop()
        xi = x.get_id()
        if xi in seen: continue
        seen.add(xi)
        if xi in _vars:
            r |= _vars[xi]
            continue
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r.add(x.decl().name())
        else:
            stack.extend(x.children())
    r = frozenset(r)
    _vars[i] = r
    _vkeep.append(e)
    return r


def succs(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch": return [x[1] for x in t[2]] + [t[3]]
    if k == "drop": return [t[2]]
    if k == "call": return [t[4]] if t[4] is not None else []
    if k == "assert": return [t[4]]
    return []
