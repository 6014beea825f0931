"""Contracts assumed on library code outside the repository (std, uint, anchor, solana, spl).
Every model that is used in a run is listed in the evidence as an assumption."""
import re
import z3
from dom import Unsupported, is_true, is_false


def S():
    import sym
    return sym


def ok(E, v):
    return S().Agg([v], 0)


def err(E, tag="err"):
    return S().Agg([S().Op("error", tag)], 1)


def some(v):
    return S().Agg([v], 1)


def none():
    return S().Agg([], 0)


UNIT = None


def unit():
    return S().Agg([])


# --------------------------------------------------------------- opaque hooks (extended by anchor.py)
FIELD_HOOKS, DEREF_HOOKS, LEN_HOOKS, PUT_HOOKS, SYM_HOOKS, DISCR_HOOKS, MAT_HOOKS = [], [], [], [], [], [], []


def op_field(E, st, v, e):
    for h in FIELD_HOOKS:
        r = h(E, st, v, e)
        if r is not None:
            return r
    if v.t == "closure" and e[0] == "f":
        return v.a[1][e[1]]
    return None


def op_put(E, st, v, path, new):
    for h in PUT_HOOKS:
        r = h(E, st, v, path, new)
        if r is not None:
            return r
    if v.t == "closure" and path[0][0] == "f":
        fs = list(v.a[1])
        fs[path[0][1]] = E.put(fs[path[0][1]], path[1:], new, st)
        return S().Op("closure", v.a[0], tuple(fs))
    raise Unsupported("write into %r" % (v,))


def op_deref(E, st, v):
    for h in DEREF_HOOKS:
        r = h(E, st, v)
        if r is not None:
            return r
    return None


def deref_ptr(E, st, v):
    sym = S()
    if isinstance(v, sym.Agg) and len(v.f) >= 1:
        # Box / NonNull style wrappers
        return deref_ptr(E, st, v.f[0]) if not isinstance(v.f[0], sym.Ptr) else v.f[0]
    if isinstance(v, sym.Op):
        r = op_deref(E, st, v)
        if isinstance(r, sym.Ptr):
            return r
        o = E.new("op")
        st.mem[o] = r if r is not None else v
        return sym.Ptr(o, (), op_len(E, v))
    raise Unsupported("deref of %r" % (v,))


def op_len(E, v):
    for h in LEN_HOOKS:
        r = h(E, v)
        if r is not None:
            return r
    return None


def op_discr(E, st, v, ti):
    for h in DISCR_HOOKS:
        r = h(E, st, v, ti)
        if r is not None:
            return r
    return None


def materialise(E, st, o):
    for h in MAT_HOOKS:
        if h(E, st, o):
            return
    raise Unsupported("read of unknown object %s" % (o,))


def sym_adt(E, ti, t, name, st, depth):
    for h in SYM_HOOKS:
        r = h(E, ti, t, name, st, depth)
        if r is not None:
            return r
    return None


def pubkey_const(E, b):
    return z3.IntVal(int.from_bytes(b, "little"))


def pubkey_from_bytes(E, v):
    sym = S()
    if isinstance(v, sym.Op) and v.t == "bytes":
        if v.a[0] == "lit":
            return pubkey_const(E, v.a[1])
        if v.a[0] == "key":
            return v.a[1]
    raise Unsupported("Pubkey from %r" % (v,))


def transmute(E, st, a, ft, tt, fti, tti):
    sym = S()
    fi, ti = E.m.int_ty(fti), E.m.int_ty(tti)
    if fi and ti and fi[0] == ti[0]:
        return E.d.cast(a, fi[0], fi[1], ti[0], ti[1])
    if ft["k"] in ("ref", "ptr") and tt["k"] in ("ref", "ptr"):
        return a
    if isinstance(a, (sym.Ptr, sym.Op)):
        return a
    raise Unsupported("transmute %s -> %s" % (ft["name"], tt["name"]))


# --------------------------------------------------------------- helpers
def arg_val(E, st, v):
    """value of an argument that may be passed by reference"""
    sym = S()
    while isinstance(v, sym.Ptr):
        v = E.load(st, v)
    return v


WIDE = re.compile(r"big_num::U(128|256)")


def wide_model(E, st, fn, args, depth):
    sym = S()
    d = E.d
    name = sym.norm(fn["name"])
    meth = name.rsplit("::", 1)[-1]
    outs = fn.get("out")
    m = re.match(r"^<&?(?:mut )?cyclos_core::libraries::big_num::U(\d+) as ([\w:]+)(?:<(.*)>)?>::(\w+)$", name)
    mi = re.match(r"^cyclos_core::libraries::big_num::U(\d+)::(\w+)$", name)
    mc = re.match(r"^(?:std|core)::.*<impl (?:std|core)::convert::(From|TryFrom|Into|TryInto)<(?:&)?(?:cyclos_core::libraries::)?.*", name)
    if m:
        bits = int(m.group(1)); tr = m.group(2).rsplit("::", 1)[-1]; targ = m.group(3)
    elif mi:
        bits = int(mi.group(1)); tr = None; targ = None
    else:
        return NotImplemented
    ins = fn.get("ins", [])

    def aty(i):
        ti = ins[i]
        t = E.m.T(ti)
        while t["k"] == "ref":
            ti = t["elem"]; t = E.m.T(ti)
        return E.m.int_ty(ti), ti

    def ival(i):
        return arg_val(E, st, args[i])

    def wd(i):
        """argument i as a wide value of `bits`; negative signed panics"""
        it, _ = aty(i)
        v = ival(i)
        if it is None:
            raise Unsupported("wide arg of " + name)
        if it[0] != bits or it[1]:
            if it[1]:
                neg = d.cmp("Lt", v, d.const(0, it[0], True), it[0], True)
                guard(neg, "U%d from negative" % bits)
            v = d.cast(v, it[0], it[1], bits, False)
        return v

    def guard(bad, why):
        nonlocal st
        if is_false(bad):
            return
        bad = S().simp(bad)
        if is_false(bad):
            return
        if E.feasible(st, bad):
            E.panic(st.fork().add(bad), why + " in " + name)
        if is_true(bad):
            raise Dead()
        n = z3.Not(bad)
        if not E.feasible(st, n):
            raise Dead()
        st.add(n)

    arith = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}
    class Dead(Exception):
        pass

    def done(v):
        E.assumed.add("uint::U%d::%s = the mathematical operation (panics on overflow / division by zero as documented)" % (bits, meth))
        return [(st, v)]

    def ar(op, a, b):
        if op in ("Div", "Rem"):
            guard(d.cmp("Eq", b, d.const(0, bits), bits, False), "division by zero")
        else:
            guard(d.overflow(op, a, b, bits, False), "arithmetic overflow")
            if E.mode == "int":
                return d.raw(op, a, b)
        return d.bin(op, a, b, bits, False)

    def sh(op, a, i):
        it, _ = aty(i)
        k = ival(i)
        if it is None:
            raise Unsupported("shift amount")
        kc = d.val(k)
        if kc is not None:
            if kc >= bits:
                return d.const(0, bits)
            return d.bin(op, a, d.const(kc, bits), bits, False)
        if E.mode != "bv":
            raise Unsupported("symbolic wide shift in int mode")
        ke = d.cast(k, it[0], False, bits, False) if it[0] <= bits else k
        return (a << ke) if op == "Shl" else z3.LShR(a, ke)

    try:
        if tr in ("Add", "Sub", "Mul", "Div", "Rem"):
            return done(ar(tr, wd(0), wd(1)))
        if tr in ("AddAssign", "SubAssign", "MulAssign", "DivAssign", "RemAssign"):
            E.store(st, args[0], ar(tr[:-6], wd(0), wd(1)))
            return done(unit())
        if tr in ("BitAnd", "BitOr", "BitXor"):
            return done(d.bin(tr, wd(0), wd(1), bits, False))
        if tr in ("BitAndAssign", "BitOrAssign", "BitXorAssign"):
            E.store(st, args[0], d.bin(tr[:-6], wd(0), wd(1), bits, False))
            return done(unit())
        if tr in ("Shl", "Shr"):
            return done(sh(tr, wd(0), 1))
        if tr in ("ShlAssign", "ShrAssign"):
            E.store(st, args[0], sh(tr[:-6], wd(0), 1))
            return done(unit())
        if tr == "Not":
            return done(d.bnot(wd(0), bits, False))
        if tr in ("PartialEq", "PartialOrd", "Ord") and meth in ("eq", "ne", "lt", "le", "gt", "ge"):
            return done(d.cmp(meth.capitalize(), wd(0), wd(1), bits, False))
        if meth == "cmp":
            return done(sym.Op("ordering", wd(0), wd(1), bits, False))
        if meth == "partial_cmp":
            return done(some(sym.Op("ordering", wd(0), wd(1), bits, False)))
        if meth in ("max", "min") and len(args) == 2:
            a, b = wd(0), wd(1)
            c = d.cmp("Ge" if meth == "max" else "Le", a, b, bits, False)
            return done(z3.If(c, a, b))
        if tr == "Clone":
            return done(wd(0))
        if tr == "Default" or meth == "zero":
            return done(d.const(0, bits))
        if tr == "From" and meth == "from":
            return done(wd(0))
        if meth == "one":
            return done(d.const(1, bits))
        if meth in ("max_value",):
            return done(d.const((1 << bits) - 1, bits))
        if meth == "min_value":
            return done(d.const(0, bits))
        if meth == "is_zero":
            return done(d.cmp("Eq", wd(0), d.const(0, bits), bits, False))
        if meth in ("as_u32", "as_u64", "as_usize", "as_u128") and mi:
            tb = {"as_u32": 32, "as_u64": 64, "as_usize": 64, "as_u128": 128}[meth]
            v = wd(0)
            guard(d.cmp("Gt", v, d.const((1 << tb) - 1, bits), bits, False) if tb < bits else z3.BoolVal(False), "integer overflow when casting")
            return done(d.cast(v, bits, False, tb, False))
        if meth in ("low_u32", "low_u64", "low_u128"):
            return done(d.cast(wd(0), bits, False, int(meth[5:]), False))
        if meth in ("checked_add", "checked_sub", "checked_mul", "checked_div", "checked_rem"):
            op = arith[meth[8:]]
            a, b = wd(0), wd(1)
            bad = d.cmp("Eq", b, d.const(0, bits), bits, False) if op in ("Div", "Rem") else d.overflow(op, a, b, bits, False)
            r = []
            bad = S().simp(bad)
            if not is_true(bad) and E.feasible(st, z3.Not(bad)):
                s2 = st.fork()
                if not is_false(bad): s2.add(z3.Not(bad))
                v = d.raw(op, a, b) if E.mode == "int" and op in ("Add", "Sub", "Mul") else d.bin(op, a, b, bits, False)
                r.append((s2, some(v)))
            if not is_false(bad) and E.feasible(st, bad):
                r.append((st.fork().add(bad), none()))
            done(None)
            return r
        if meth in ("overflowing_add", "overflowing_sub", "overflowing_mul"):
            op = arith[meth[12:]]
            a, b = wd(0), wd(1)
            return done(sym.Agg([d.bin(op, a, b, bits, False), d.overflow(op, a, b, bits, False)]))
        if meth in ("saturating_add", "saturating_sub", "saturating_mul"):
            op = arith[meth[11:]]
            a, b = wd(0), wd(1)
            return done(z3.If(d.overflow(op, a, b, bits, False), d.const((1 << bits) - 1 if op != "Sub" else 0, bits), d.bin(op, a, b, bits, False)))
        if meth == "div_mod":
            a, b = wd(0), wd(1)
            q = ar("Div", a, b)
            return done(sym.Agg([q, d.bin("Rem", a, b, bits, False)]))
        if meth == "bit":
            if E.mode == "bv":
                i = ival(1)
                ib = E.m.int_ty(ins[1])[0]
                i = d.cast(i, ib, False, bits, False)
                return done(z3.Extract(0, 0, z3.LShR(wd(0), i)) == 1)
            c = d.val(ival(1))
            if c is not None:
                return done((wd(0) / z3.IntVal(1 << c)) % 2 == 1)
        if meth in ("leading_zeros", "trailing_zeros", "bits"):
            if E.mode == "bv":
                v = wd(0)
                if meth == "trailing_zeros":
                    r = d.const(bits, 32)
                    for i in range(bits - 1, -1, -1):
                        r = z3.If(z3.Extract(i, i, v) == 1, d.const(i, 32), r)
                    return done(r)
                r = d.const(bits if meth == "leading_zeros" else 0, 32)
                for i in range(bits):
                    r = z3.If(z3.Extract(i, i, v) == 1, d.const(bits - 1 - i if meth == "leading_zeros" else i + 1, 32), r)
                if meth == "bits":
                    r = d.cast(r, 32, False, 64, False)
                return done(r)
            v = d.val(wd(0))
            if v is not None:
                r = {"leading_zeros": bits - v.bit_length(), "trailing_zeros": (v & -v).bit_length() - 1 if v else bits, "bits": v.bit_length()}[meth]
                return done(d.const(r, 32))
            raise Unsupported("bit scan in int mode")
    except Dead:
        return []
    return NotImplemented


def wide_into(E, st, fn, args, depth):
    """<u64 as TryFrom<U128>>::try_from etc."""
    raise Unsupported("wide conversion " + fn["name"])


# --------------------------------------------------------------- core::num
NUM = re.compile(r"core::num::<impl ([iu])(\d+|size)>::(\w+)$")


def num_model(E, st, fn, args, depth):
    sym = S()
    d = E.d
    m = NUM.search(sym.norm(fn["name"]))
    sg = m.group(1) == "i"
    bits = 64 if m.group(2) == "size" else int(m.group(2))
    meth = m.group(3)
    a = args[0] if args else None
    arith = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}

    def fork(bad, good):
        r = []
        bad = sym.simp(bad)
        if not is_true(bad) and E.feasible(st, z3.Not(bad)):
            s2 = st.fork()
            if not is_false(bad): s2.add(sym.simp(z3.Not(bad)))
            r.append((s2, some(good())))
        if not is_false(bad) and E.feasible(st, bad):
            r.append((st.fork().add(bad), none()))
        return r
    E.assumed.add("core::num::%s" % meth)
    if meth.startswith("checked_") and meth[8:] in arith:
        op = arith[meth[8:]]
        b = args[1]
        if op in ("Div", "Rem"):
            bad = d.cmp("Eq", b, d.const(0, bits), bits, sg)
            if sg:
                bad = z3.Or(bad, z3.And(a == d.const(-(1 << (bits - 1)), bits), b == d.const(-1, bits)))
            return fork(bad, lambda: d.bin(op, a, b, bits, sg))
        return fork(d.overflow(op, a, b, bits, sg), lambda: d.raw(op, a, b) if E.mode == "int" else d.bin(op, a, b, bits, sg))
    if meth.startswith("wrapping_") and meth[9:] in ("add", "sub", "mul"):
        return [(st, d.bin(arith[meth[9:]], a, args[1], bits, sg))]
    if meth == "wrapping_neg":
        return [(st, d.neg(a, bits, sg))]
    if meth in ("wrapping_shl", "wrapping_shr"):
        k = d.cast(args[1], 32, False, bits, False) if E.mode == "bv" else args[1]
        return [(st, d.bin("Shl" if meth.endswith("l") else "Shr", a, k, bits, sg))]
    if meth.startswith("overflowing_") and meth[12:] in ("add", "sub", "mul"):
        op = arith[meth[12:]]
        return [(st, sym.Agg([d.bin(op, a, args[1], bits, sg), d.overflow(op, a, args[1], bits, sg)]))]
    if meth in ("saturating_add", "saturating_sub", "saturating_mul") and E.mode == "int":
        op = arith[meth[11:]]
        lo, hi = d.bounds(bits, sg)
        r = d.raw(op, a, args[1])
        return [(st, z3.If(r > hi, z3.IntVal(hi), z3.If(r < lo, z3.IntVal(lo), r)))]
    if meth in ("abs", "wrapping_abs", "unsigned_abs") and sg:
        neg = d.cmp("Lt", a, d.const(0, bits, True), bits, True)
        r = z3.If(neg, d.neg(a, bits, True), a)
        if meth == "unsigned_abs":
            r = d.cast(r, bits, True, bits, False)
        return [(st, r)]
    if meth == "checked_abs" and sg:
        return fork(d.cmp("Eq", a, d.const(-(1 << (bits - 1)), bits), bits, True), lambda: z3.If(d.cmp("Lt", a, d.const(0, bits), bits, True), d.neg(a, bits, True), a))
    if meth == "checked_neg":
        return fork(d.cmp("Eq", a, d.const(-(1 << (bits - 1)), bits), bits, True) if sg else a != d.const(0, bits), lambda: d.neg(a, bits, sg))
    if meth in ("to_be_bytes", "to_le_bytes"):
        return [(st, sym.Op("bytes", ("be" if meth == "to_be_bytes" else "le") + str(bits), a))]
    if meth in ("leading_zeros", "trailing_zeros"):
        c = d.val(a)
        if c is not None:
            c &= (1 << bits) - 1
            return [(st, d.const(bits - c.bit_length() if meth[0] == "l" else ((c & -c).bit_length() - 1 if c else bits), 32))]
        if E.mode == "bv":
            if meth == "trailing_zeros":
                r = d.const(bits, 32)
                for i in range(bits - 1, -1, -1):
                    r = z3.If(z3.Extract(i, i, a) == 1, d.const(i, 32), r)
            else:
                r = d.const(bits, 32)
                for i in range(bits):
                    r = z3.If(z3.Extract(i, i, a) == 1, d.const(bits - 1 - i, 32), r)
            return [(st, r)]
        # integer mode: constrain the result instead of computing it
        if meth == "leading_zeros" and not sg:
            r = E.fresh_int("lz", 32, False, st)
            cs = [z3.Implies(a == 0, r == bits)]
            for i in range(bits):
                cs.append(z3.Implies(z3.And(a >= (1 << i), a < (1 << (i + 1))), r == bits - 1 - i))
            st.add(r <= bits, *cs)
            return [(st, r)]
    if meth == "pow":
        c = d.val(args[1])
        if c is not None and d.val(a) is not None:
            return [(st, d.const(pow(d.val(a), c), bits, sg))]
        if c is not None and c <= 8:
            r = d.const(1, bits, sg)
            for _ in range(c): r = d.bin("Mul", r, a, bits, sg)
            return [(st, r)]
    if meth in ("is_positive", "is_negative"):
        return [(st, d.cmp("Gt" if meth == "is_positive" else "Lt", a, d.const(0, bits), bits, True))]
    if meth in ("rem_euclid", "div_euclid", "checked_rem_euclid") and E.mode == "int":
        bad = args[1] == 0
        if E.feasible(st, bad):
            E.panic(st.fork().add(bad), "division by zero")
            st.add(z3.Not(bad))
        b = args[1]
        if d.val(b) is not None:
            return [(st, a % b if meth != "div_euclid" else a / b)]
        # as std defines them, by the truncating operations
        q, r = d.bin("Div", a, b, bits, sg), d.bin("Rem", a, b, bits, sg)
        if meth == "div_euclid":
            return [(st, z3.If(r < 0, z3.If(b > 0, q - 1, q + 1), q))]
        return [(st, z3.If(r < 0, z3.If(b > 0, r + b, r - b), r))]
    if meth in ("max_value", "min_value"):
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        return [(st, d.const(hi if meth == "max_value" else lo, bits, sg))]
    return NotImplemented


CMP = re.compile(r"(?:std|core)::cmp::impls::<impl (?:std|core)::cmp::(Ord|PartialOrd|PartialEq)(?:<.*>)? for ([\w&: ]+)>::(\w+)$")


def cmp_model(E, st, fn, args, depth):
    sym = S()
    m = CMP.search(sym.norm(fn["name"]))
    ty, meth = m.group(2), m.group(3)
    mm = re.match(r"^([iu])(8|16|32|64|128|size)$", ty)
    a, b = arg_val(E, st, args[0]), arg_val(E, st, args[1]) if len(args) > 1 else None
    if ty == "bool":
        if meth in ("eq", "ne"):
            return [(st, sym.simp(a == b if meth == "eq" else z3.Xor(a, b)))]
        return NotImplemented
    if not mm:
        return NotImplemented
    sg = mm.group(1) == "i"
    bits = 64 if mm.group(2) == "size" else int(mm.group(2))
    d = E.d
    E.assumed.add("core::cmp on machine integers")
    if meth in ("lt", "le", "gt", "ge", "eq", "ne"):
        return [(st, d.cmp(meth.capitalize(), a, b, bits, sg))]
    if meth in ("min", "max"):
        c = d.cmp("Le", a, b, bits, sg)
        if is_true(c): return [(st, a if meth == "min" else b)]
        if is_false(c): return [(st, b if meth == "min" else a)]
        return [(st, z3.If(c, a, b) if meth == "min" else z3.If(c, b, a))]
    if meth == "clamp":
        # panics for an empty interval
        lo, hi = b, arg_val(E, st, args[2])
        bad = d.cmp("Gt", lo, hi, bits, sg)
        if not is_false(bad):
            E.panic(st.fork().add(bad), "clamp to an empty interval")
            st = st.fork().add(sym.simp(z3.Not(bad)))
        c, e = d.cmp("Lt", a, lo, bits, sg), d.cmp("Gt", a, hi, bits, sg)
        return [(st, z3.If(c, lo, z3.If(e, hi, a)))]
    if meth == "cmp":
        return [(st, sym.Op("ordering", a, b, bits, sg))]
    if meth == "partial_cmp":
        return [(st, some(sym.Op("ordering", a, b, bits, sg)))]
    return NotImplemented


CONV = re.compile(r"(?:core|std)::convert::num::<impl (?:core|std)::convert::(From|TryFrom)<(\w+)> for (\w+)>::(\w+)$")


def conv_model(E, st, fn, args, depth):
    sym = S()
    m = CONV.search(sym.norm(fn["name"]))
    def p(s):
        if s == "bool": return (1, False)
        mm = re.match(r"^([iu])(8|16|32|64|128|size)$", s)
        if not mm: raise Unsupported("conversion " + s)
        return (64 if mm.group(2) == "size" else int(mm.group(2)), mm.group(1) == "i")
    a = args[0]
    tb, ts = p(m.group(3))
    if m.group(2) == "bool":
        return [(st, E.d.bool_to_int(a, tb))]
    fb, fs = p(m.group(2))
    d = E.d
    E.assumed.add("core::convert between machine integers")
    if m.group(1) == "From":
        return [(st, d.cast(a, fb, fs, tb, ts))]
    lo, hi = (-(1 << (tb - 1)), (1 << (tb - 1)) - 1) if ts else (0, (1 << tb) - 1)
    flo, fhi = (-(1 << (fb - 1)), (1 << (fb - 1)) - 1) if fs else (0, (1 << fb) - 1)
    bad = []
    if fhi > hi: bad.append(d.cmp("Gt", a, d.const(hi, fb, fs), fb, fs))
    if flo < lo: bad.append(d.cmp("Lt", a, d.const(lo, fb, fs), fb, fs))
    bad = [b for b in bad if not is_false(b)]
    if not bad:
        return [(st, ok(E, d.cast(a, fb, fs, tb, ts)))]
    bad = z3.Or(*bad) if len(bad) > 1 else bad[0]
    r = []
    if E.feasible(st, z3.Not(bad)):
        s2 = st.fork().add(z3.Not(bad))
        r.append((s2, ok(E, a if E.mode == "int" else d.cast(a, fb, fs, tb, ts))))
    if E.feasible(st, bad):
        r.append((st.fork().add(bad), err(E, "TryFromInt")))
    return r


def m_panic(E, st, fn, args, depth):
    E.panic(st, "panic: " + S().norm(fn["name"])[:80])
    return []


def m_swap(E, st, fn, args, depth):
    a, b = E.load(st, args[0]), E.load(st, args[1])
    E.store(st, args[0], b)
    E.store(st, args[1], a)
    E.assumed.add("core::mem::swap")
    return [(st, unit())]


def m_replace(E, st, fn, args, depth):
    a = E.load(st, args[0])
    E.store(st, args[0], args[1])
    return [(st, a)]


def m_unit(E, st, fn, args, depth):
    return [(st, unit())]


def m_ident(E, st, fn, args, depth):
    return [(st, args[0])]


def m_opaque(tag):
    def f(E, st, fn, args, depth):
        return [(st, S().Op(tag))]
    return f


def m_size_of(E, st, fn, args, depth):
    return [(st, E.fresh_int("size_of", 64, False, st))]


INTR = {}


def intrinsic_model(E, st, fn, args, depth):
    sym = S()
    name = fn.get("intrinsic") or sym.norm(fn["name"]).rsplit("::", 1)[-1].split("::<")[0]
    name = name.split("::<")[0]
    d = E.d
    def it():
        return E.ity(fn["gargs"][0])
    if name in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
        b, s = it()
        op = {"a": "Add", "s": "Sub", "m": "Mul"}[name[0]]
        return [(st, sym.Agg([d.bin(op, args[0], args[1], b, s), d.overflow(op, args[0], args[1], b, s)]))]
    if name in ("wrapping_add", "wrapping_sub", "wrapping_mul"):
        b, s = it()
        return [(st, d.bin({"a": "Add", "s": "Sub", "m": "Mul"}[name[9]], args[0], args[1], b, s))]
    if name in ("likely", "unlikely", "black_box"):
        return [(st, args[0])]
    if name in ("cold_path", "assert_inhabited", "assert_zero_valid", "assume"):
        return [(st, unit())]
    if name in ("unchecked_add", "unchecked_sub", "unchecked_div", "unchecked_rem"):
        b, s = it()
        return [(st, d.bin({"add": "Add", "sub": "Sub", "div": "Div", "rem": "Rem"}[name[10:]], args[0], args[1], b, s))]
    if name in ("unchecked_shl", "unchecked_shr"):
        b, s = it()
        k = args[1]
        return [(st, d.bin("Shl" if name.endswith("l") else "Shr", args[0], k, b, s))]
    if name in ("ctlz", "ctlz_nonzero", "cttz"):
        b, s = it()
        f = {"name": "core::num::<impl u%d>::%s" % (b, "leading_zeros" if name[:4] == "ctlz" else "trailing_zeros")}
        return num_model(E, st, f, args, depth)
    if name == "size_of":
        return m_size_of(E, st, fn, args, depth)
    if name in ("abort", "unreachable"):
        return []
    if name == "saturating_add" or name == "saturating_sub":
        b, s = it()
        f = {"name": "core::num::<impl %s%d>::%s" % ("i" if s else "u", b, name)}
        return num_model(E, st, f, args, depth)
    if name == "discriminant_value":
        v = arg_val(E, st, args[0])
        if isinstance(v, sym.Agg):
            t = E.m.T(fn["gargs"][0])
            ot = E.m.T(fn["out"])
            return [(st, d.const(t["variants"][v.v]["discr"], ot.get("bits", 64)))]
    if name in ("three_way_compare",):
        b, s = it()
        return [(st, sym.Op("ordering", args[0], args[1], b, s))]
    if name == "needs_drop":
        return [(st, z3.BoolVal(False))]
    return NotImplemented


ORD = re.compile(r"cmp::Ordering::(is_lt|is_le|is_gt|is_ge|is_eq|is_ne)$|<(?:std|core)::cmp::Ordering as (?:std|core)::cmp::PartialEq>::(eq|ne)$|option::Option<.*Ordering>::")


def ord_model(E, st, fn, args, depth):
    sym = S()
    n = sym.norm(fn["name"])
    m = ORD.search(n)
    a = arg_val(E, st, args[0])
    if m.group(1) and isinstance(a, sym.Op) and a.t == "ordering":
        x, y, b, s = a.a
        return [(st, E.d.cmp({"is_lt": "Lt", "is_le": "Le", "is_gt": "Gt", "is_ge": "Ge", "is_eq": "Eq", "is_ne": "Ne"}[m.group(1)], x, y, b, s))]
    if m.group(2):
        b_ = arg_val(E, st, args[1])
        if isinstance(a, sym.Op) and a.t == "ordering" and isinstance(b_, sym.Agg):
            x, y, b, s = a.a
            op = {0: "Lt", 1: "Eq", 2: "Gt"}[b_.v]
            r = E.d.cmp(op, x, y, b, s)
            return [(st, r if m.group(2) == "eq" else z3.Not(r))]
    return NotImplemented


def m_fn_call(E, st, fn, args, depth):
    """FnOnce::call_once & co. on closures / fn items"""
    cl = args[0]
    sym = S()
    if isinstance(cl, sym.Ptr):
        cl = E.load(st, cl)
    a = list(args[1].f) if isinstance(args[1], sym.Agg) else [args[1]]
    return E.closure(st, cl, a, depth)


def install(E):
    def add(rx, f):
        E.models.append((re.compile(rx), f))
    add(r"big_num::U(128|256)( as |::)", wide_model)
    add(NUM.pattern, num_model)
    add(CMP.pattern, cmp_model)
    add(CONV.pattern, conv_model)
    add(ORD.pattern, ord_model)
    add(r"^(core|std)::panicking::|^(core|std)::(option|result|slice|str)::.*(_failed|_fail)(::|$)|begin_panic|panic_bounds|^std::process::abort|handle_alloc_error|capacity_overflow", m_panic)
    add(r"^(std|core)::mem::swap(::<|$)", m_swap)
    add(r"^(std|core)::mem::replace(::<|$)", m_replace)
    add(r"^(std|core)::mem::(drop|forget)(::<|$)", m_unit)
    add(r"^(std|core)::mem::size_of(::<|$)", m_size_of)
    add(r"^(std|core)::intrinsics::", intrinsic_model)
    add(r"as (std|core)::ops::(FnOnce|FnMut|Fn)<.*>>::call(_once|_mut)?$", m_fn_call)
    add(r"^(std|core)::hint::must_use", m_ident)
    try:
        import anchor
        anchor.install(E, add)
    except ImportError:
        pass
