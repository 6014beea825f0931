"""Contracts evaluated on concrete arguments, against the repository's code running natively."""
import os, random, subprocess
import z3
import contract
from contract import *
from sym import E, State, Agg, Ptr, Op
import lib, states, bits, ticks

OPS = {}
for mod, ns in ((lib, "mdf64 mdc64 mdf128 mdc128 du64 du128 add_delta amount0 amount1 next0 next1 next_in next_out swap_step amount0s amount1s liq0 liq1 "
                      "liq_for_amounts amtliq0 amtliq1 amtsliq"),
                (states, "tick_update tick_cross tick_clear tick_is_clear fee_inside position_update obs_transform obs_update obs_latest next_obs snapshot bitpos"),
                (bits, "msb lsb flip nextbit")):
    for n in ns.split():
        OPS[n] = getattr(mod, n)
NAME = {id(c): n for n, c in OPS.items()}


class Native:
    def __init__(self, exe):
        self.exe = exe

    def run(self, lines, limit=120):
        p = subprocess.run([self.exe], input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=limit)
        return p.stdout.strip("\n").split("\n")


# ---------------------------------------------------------------- argument shapes
def shape(mir, ti):
    """(leaf types, builder) of a parameter type; leaves are (bits, signed) or 'bool' """
    it = mir.int_ty(ti)
    if it:
        return [it], lambda e, st, l: next(l)
    t = mir.T(ti)
    k = t["k"]
    if k == "bool":
        return ["bool"], lambda e, st, l: next(l)
    if mir.is_pubkey(ti):
        return [], lambda e, st, l: Op("key", 0)
    if k == "adt" and t["adt"].lower().startswith("struct"):
        w = mir.wide_bits(ti)
        if w:
            return [(w, False)], lambda e, st, l: next(l)
        parts = [shape(mir, ft) for _, ft in t["variants"][0]["fields"]]
        return sum([p[0] for p in parts], []), lambda e, st, l: Agg([p[1](e, st, l) for p in parts])
    if k == "array":
        if t["len"] > 64:
            raise Unsupported("array")
        p = shape(mir, t["elem"])
        return p[0] * t["len"], lambda e, st, l: Agg([p[1](e, st, l) for _ in range(t["len"])])
    if k in ("ref", "ptr"):
        p = shape(mir, t["elem"])

        def mk(e, st, l):
            o = e.new("arg")
            st.mem[o] = p[1](e, st, l)
            return Ptr(o)
        return p[0], mk
    raise Unsupported("concrete " + str(t.get("name", k)))


def leaves(e, st, v):
    if isinstance(v, Ptr):
        v = e.load(st, v)
    if isinstance(v, Agg):
        return [x for y in v.f for x in leaves(e, st, y)]
    if isinstance(v, z3.ExprRef):
        v = z3.simplify(v)
        if z3.is_true(v): return [1]
        if z3.is_false(v): return [0]
        if z3.is_int_value(v) or z3.is_bv_value(v): return [v.as_long()]
        raise Unsupported("not concrete: %s" % v)
    return []


def cdiv(kind, n, d):
    n, d = z3.simplify(n).as_long(), z3.simplify(d).as_long()
    if d <= 0 or n < 0:
        return z3.IntVal(0)
    return z3.IntVal({"fd": n // d, "cd": -((-n) // d), "md": n % d}[kind])


def is_res(mir, fn):
    t = mir.T(fn["locals"][0])
    return t["k"] == "adt" and t["adt"].lower().startswith("enum")


class Concrete:
    """one contract at concrete arguments"""

    def __init__(self, mir, c):
        self.m, self.c = mir, c
        self.fn = mir.fn(c.name)
        self.shapes = [shape(mir, ti) for ti in self.fn["ins"]]
        self.types = [x for s in self.shapes for x in s[0]]
        self.mut = [i for i, ti in enumerate(self.fn["ins"]) if mir.T(ti)["k"] == "ref" and mir.T(ti).get("mut")]

    def line(self, vals):
        return NAME[id(self.c)] + " " + " ".join(str(int(v)) for v in vals)

    def setup(self, vals):
        e = E(self.m, "int")
        e.d.div = cdiv
        st = State()
        if NAME[id(self.c)] == "snapshot": e.init["clock"] = z3.IntVal(int(vals[34]) + int(vals[0]) % 4 * 7)     # as the harness sets it
        l = iter([z3.BoolVal(bool(v)) if t == "bool" else z3.IntVal(int(v)) for t, v in zip(self.types, vals)])
        args = [s[1](e, st, l) for s in self.shapes]
        return e, st, [self.c.view(e, st, a) for a in args]

    def check(self, vals, answer):
        """None if the answer conforms (or the arguments are outside the contract), else what the contract says"""
        a = answer.split()
        if not a or a[0] == "unknown-op":
            return None
        if self.c.mode == "bv":
            return bitcheck(NAME[id(self.c)], vals, a)
        e, st, args = self.setup(vals)
        S = Spec(e, st)
        for nm, f in self.c.requires(S, self.fn, *args):
            if not is_true(z3.simplify(f)):
                return None
        if isinstance(self.c, Rel):
            if a[0] != "ok":
                p = self.c.panic_when(S, self.fn, *args)
                return None if p is None or is_true(z3.simplify(p)) else "no panic"
            ts, mk = shape(self.m, self.fn["locals"][0])
            it = iter([z3.BoolVal(x == "1") if t == "bool" else z3.IntVal(int(x)) for t, x in zip(ts, a[1:])])
            ret = mk(e, st, it)
            for x in self.c.post(S, self.fn, args, ret, e, st):
                if is_false(z3.simplify(x[1])):
                    return "postcondition: " + x[0]
            return None
        for k in self.c.cases(S, self.fn, *args):
            if not is_true(z3.simplify(k.cond)):
                continue
            if k.panic:
                return None if a[0] == "panic" else "panic (%s)" % k.name
            err = is_res(self.m, self.fn) and contract.is_any_err(k.val) or (is_res(self.m, self.fn) and not k.val.f and k.val.v == 0 and self.m.T(self.fn["locals"][0])["name"].find("Option") >= 0)
            if err:
                return None if a[0] == "err" else "an error (%s)" % k.name
            want = leaves(e, st, k.val)
            for q, v in k.eff:
                want += leaves(e, st, v)
            got = [int(x) for x in a[1:]] if a[0] == "ok" else None
            if got is None:
                return "ok %s (%s)" % (want, k.name)
            if not k.eff and self.mut:
                got = got[:len(want)]
            if got != want:
                return "ok %s (%s)" % (" ".join(map(str, want)), k.name)
            return None
        return None


def bitcheck(op, vals, a):
    if op in ("msb", "lsb"):
        x = vals[0]
        if x == 0:
            return None if a[0] == "panic" else "panic"
        w = x.bit_length() - 1 if op == "msb" else (x & -x).bit_length() - 1
        return None if a == ["ok", str(w)] else "ok %d" % w
    word = sum(v << (64 * i) for i, v in enumerate(vals[2:6]))
    if op == "flip":
        w = word ^ (1 << vals[6])
        want = ["ok", str(vals[0]), str(vals[1])] + [str((w >> (64 * i)) & M64) for i in range(4)]
        return None if a == want else " ".join(want)
    b, lte = vals[6], vals[7]
    if lte:
        c = word & ((1 << (b + 1)) - 1)
        want = [c.bit_length() - 1, 1] if c else [0, 0]
    else:
        c = word >> b
        want = [b + (c & -c).bit_length() - 1, 1] if c else [255, 0]
    want = ["ok"] + [str(x) for x in want]
    return None if a == want else " ".join(want)


# ---------------------------------------------------------------- argument generation
def rnd(r, ty):
    if ty == "bool":
        return r.randrange(2)
    bits, signed = ty
    hi = (1 << (bits - 1 if signed else bits)) - 1
    lo = -hi - 1 if signed else 0
    k = r.randrange(10)
    if k < 2:
        v = r.randrange(0, 4)
    elif k < 4:
        v = (1 << r.randrange(bits)) + r.randrange(-2, 3)
    elif k < 8:
        v = r.getrandbits(r.randrange(1, bits + 1))
    else:
        v = hi - r.randrange(4)
    if signed and r.randrange(2):
        v = -v
    return min(max(v, lo), hi)


PMIN, PMAX = 65537, 281472331703918


def price(r, near=None):
    k = r.randrange(6)
    if near is not None and k < 3:
        v = near + r.choice([-1, 0, 1, 2, r.randrange(-1000, 1000), r.randrange(-(1 << 30), 1 << 30), near // 100, -(near // 50)])
    elif k == 3:
        v = (1 << r.randrange(17, 48)) + r.randrange(-1, 2)
    elif k == 4:
        v = r.choice([PMIN, PMIN + 1, PMAX - 1, PMAX, 1 << 32, (1 << 32) + 1])
    else:
        v = int(2 ** r.uniform(16.1, 47.9))
    return min(max(v, PMIN), PMAX)


def amt(r, bits=64):
    return rnd(r, (bits, False)) if r.randrange(3) else int(2 ** r.uniform(0, 45))


def gen(op, r, types):
    """argument vector for an operation: interesting for that operation more often than uniform"""
    wild = r.randrange(8) == 0
    if wild:
        v = [rnd(r, t) for t in types]
    elif op in ("amount0", "amount1"):
        p = price(r); v = [p, price(r, p), amt(r), r.randrange(2)]
    elif op in ("amount0s", "amount1s"):
        p = price(r); v = [p, price(r, p), amt(r, 62) * r.choice([1, -1])]
    elif op in ("next0", "next1", "next_in", "next_out"):
        v = [price(r), amt(r), amt(r), r.randrange(2)]
    elif op == "swap_step":
        p = price(r); f = r.choice([0, 1, 100, 500, 3000, 10000, 999999, r.randrange(1000000)])
        v = [p, price(r, p), amt(r), amt(r, 62) * r.choice([1, -1]), f]
    elif op in ("liq0", "liq1"):
        p = price(r); v = [p, price(r, p), amt(r)]
    elif op == "liq_for_amounts":
        p = price(r); q = price(r, p); v = [r.choice([p, q, price(r, p), (p + q) // 2]), p, q, amt(r), amt(r)]
    elif op in ("amtliq0", "amtliq1"):
        p = price(r); v = [p, price(r, p), amt(r)]
    elif op == "amtsliq":
        p = price(r); q = price(r, p); v = [r.choice([p, q, price(r, p), (p + q) // 2]), p, q, amt(r)]
    elif op == "tick_update":
        v = [rnd(r, t) for t in types]
        v[3] = r.choice([0, 0, 5, v[3]])
        if r.randrange(2): v[10] = r.choice([v[10] % 1000, -v[3], -v[3] + 1, 7])
        if r.randrange(2): v[9] = v[1] + r.randrange(-1, 2)
        v[9] = min(max(v[9], -(1 << 31)), (1 << 31) - 1)
        v[10] = min(max(v[10], -(1 << 63)), (1 << 63) - 1)
    elif op == "fee_inside":
        v = [rnd(r, t) for t in types]
        v[1], v[10] = sorted([r.randrange(-50, 50), r.randrange(-50, 50)])
        v[18] = r.choice([v[1], v[1] - 1, v[10], v[10] - 1, r.randrange(-60, 60), (v[1] + v[10]) // 2])
    elif op == "position_update":
        v = [rnd(r, t) for t in types]
        if r.randrange(2): v[6] = r.choice([0, -v[1], 5, -v[1] - 1, -3])
        v[6] = min(max(v[6], -(1 << 63)), (1 << 63) - 1)
        if r.randrange(2): v[1] = r.getrandbits(r.randrange(1, 34))
    elif op.startswith("obs_"):
        v = [rnd(r, t) for t in types]
        if r.randrange(3): v[6] = (v[2] + r.choice([0, 1, 2, 3600, r.getrandbits(31)])) % (1 << 32)
        if r.randrange(2): v[7] = r.randrange(-221818, 221819)
        if op == "obs_update" and r.randrange(2):
            v[9] = r.randrange(1, 5); v[10] = v[9] + r.randrange(0, 3); v[1] = v[9] - r.choice([1, 1, 0, 2]) if v[9] > 1 else 0
            v[1] = max(v[1], 0)
    elif op == "snapshot":
        v = [rnd(r, t) for t in types]
        v[15], v[24] = sorted([r.randrange(-50, 50), r.randrange(-50, 50)])
        v[5] = r.choice([v[15], v[15] - 1, v[24], v[24] - 1, r.randrange(-60, 60), (v[15] + v[24]) // 2])
        if r.randrange(3): v[3] = r.getrandbits(r.randrange(1, 34))
    elif op == "bitpos":
        v = [r.choice([-1, 1]) * r.getrandbits(r.randrange(1, 24))]
    elif op in ("flip", "nextbit"):
        v = [rnd(r, t) for t in types]
        m = r.randrange(4)
        for i in range(2, 6):
            v[i] = 0 if m == 0 else (1 << r.randrange(64)) * r.randrange(2) if m == 1 else r.getrandbits(64) if m == 2 else M64 * r.randrange(2)
    elif op in ("mdf64", "mdc64", "mdf128", "mdc128"):
        v = [rnd(r, t) for t in types]
        if r.randrange(2): v[2] = max(v[2], 1)
        if r.randrange(4) == 0: v[2] = max(v[0], v[1], 1)
    else:
        v = [rnd(r, t) for t in types]
    out = []
    for x, t in zip(v, types):
        if t == "bool": out.append(int(bool(x))); continue
        hi = (1 << (t[0] - 1 if t[1] else t[0])) - 1
        out.append(min(max(int(x), -hi - 1 if t[1] else 0), hi))
    return out


def search(mir, native, c, n, seed=1, extra=()):
    """-> (number tried, [(vals, answer, expected)...]) at most 3 mismatches"""
    k = Concrete(mir, c)
    op = NAME[id(c)]
    r = random.Random("%s/%s" % (seed, op))
    vs = [list(x) for x in extra if len(x) == len(k.types)] + [gen(op, r, k.types) for _ in range(n)]
    ans = native.run([k.line(v) for v in vs])
    bad = []
    for v, a in zip(vs, ans):
        w = k.check(v, a)
        if w:
            bad.append((v, a, w))
            if len(bad) >= 3: break
    return len(vs), bad, list(zip(vs[:2], ans[:2]))
