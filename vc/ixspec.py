"""Vocabulary for instruction postconditions: what an instruction may assume about the accounts it is
given (the data invariants kept by the other instructions) and how a path of it is described."""
import time
import z3
import sym, anchor, ticks, lib, spec
from sym import Agg, Op, Ptr
from spec import prove, mulpos, Res
from contract import Ob, Spec
from dom import is_true, is_false, Unsupported
from mir import LostAnchor
from inst import Inst

M64 = (1 << 64) - 1
Q32 = 1 << 32
I = z3.IntVal
PMIN, PMAX = ticks.PMIN, ticks.PMAX
T, F = z3.BoolVal(True), z3.BoolVal(False)


def And(*x): return z3.And(*x) if x else T


def typ(e, name):
    """type index of a struct of the program by its last path segment"""
    c = e.__dict__.setdefault("_typ", {})
    if name not in c:
        r = [i for i, t in enumerate(e.m.types) if t["k"] == "adt" and t["path"].rsplit("::", 1)[-1] == name and t["path"].startswith("cyclos_core::")]
        if not r:
            r = [i for i, t in enumerate(e.m.types) if t["k"] == "adt" and t["path"].rsplit("::", 1)[-1] == name]
        if not r: raise LostAnchor("struct " + name)
        c[name] = r[0]
    return c[name]


def names(e, ti):
    return [n for n, _ in e.m.T(ti)["variants"][0]["fields"]]


def obj(e, acct, ty):
    o = "data:%s:%s" % (acct, ty)
    ti = typ(e, ty)
    e.data_ty.setdefault(o, ti)
    anchor.init_data(e, o, ti)
    return o


def dct(e, ty, v):
    return dict(zip(names(e, typ(e, ty)), v.f))


def eqv(a, b):
    """equality of two stored values"""
    if isinstance(a, Agg) and isinstance(b, Agg):
        if len(a.f) != len(b.f): return F
        return And(*[eqv(x, y) for x, y in zip(a.f, b.f)]) if a.f else T
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return T if a.eq(b) else a == b
    if isinstance(a, Op) and isinstance(b, Op) and a.t == b.t == "opt":
        return And(a.a[0] == b.a[0], z3.Implies(a.a[0], eqv(a.a[1], b.a[1])))
    if sym.vkey(a) == sym.vkey(b): return T
    return F


# ------------------------------------------------------------------ data invariants
def inv_pool(e, p):
    """kept by every instruction (established by create_and_init_pool, preserved by swap; see C15, C21)"""
    s = p["tick_spacing"]
    return [p["fee"] < 1000000, s > 0, s < 16384, p["sqrt_price_x32"] >= PMIN, p["sqrt_price_x32"] < PMAX,
            p["tick"] >= ticks.MINT, p["tick"] < ticks.MAXT,
            ticks.ratio(e.d, p["tick"]) <= p["sqrt_price_x32"], p["sqrt_price_x32"] <= ticks.ratio(e.d, p["tick"] + 1)]


def inv_tick(e, t):
    return [t["tick"] >= ticks.MINT, t["tick"] <= ticks.MAXT]


def prep_for(accts):
    """accts: {account: type}: assume the data invariants of these accounts' initial data"""
    def prep(I_):
        e = I_.e
        for a, ty in accts.items():
            o = obj(e, a, ty)
            v = dct(e, ty, e.init[o])
            for c in {"PoolState": inv_pool, "TickState": inv_tick}.get(ty, lambda e, v: [])(e, v):
                I_.st.add(c)
    return prep


class V:
    """one successful path of an instruction"""

    def __init__(self, I_, p):
        self.I, self.e, self.p, self.st = I_, I_.e, p, p.st
        self.S = Spec(self.e, self.st)
        self.log = [x for x in p.st.log if x[0] not in ("loop",)]
        self.clock = self.e.init.get("clock")

    def pre(self, acct, ty):
        return dct(self.e, ty, self.e.init[obj(self.e, acct, ty)])

    def post(self, acct, ty):
        o = obj(self.e, acct, ty)
        return dct(self.e, ty, self.st.mem.get(o, self.e.init[o]))

    def at(self, snap, acct, ty):
        o = obj(self.e, acct, ty)
        return dct(self.e, ty, snap.mem.get(o, self.e.init[o]))

    def key(self, a): return anchor.K(self.e, "key", a)
    def signer(self, a): return anchor.K(self.e, "signer", a)

    def typed(self, a, ty):
        """the account is owned by the program and holds this type"""
        return And(anchor.K(self.e, "disc", a) == anchor.DISC.setdefault(ty, len(anchor.DISC) + 1), anchor.K(self.e, "owner", a) == self.e.pid)

    def arg(self, n, bits=64, signed=False):
        k = "arg." + n
        if k not in self.e.init:
            raise LostAnchor("argument " + n)
        return self.e.init[k]

    def bal0(self, a): return anchor.K(self.e, "bal0", a)
    def bal(self, a): return anchor.bal(self.e, self.st, a)

    def token(self, a):
        """pre-state fields of a token account"""
        v = self.e.init.get("spl:%s:TokenAccount" % a)
        if v is None:
            anchor.mk_token(self.e, sym.State(), a, "TokenAccount", anchor.spl_ty(self.e, "TokenAccount"))
            v = self.e.init["spl:%s:TokenAccount" % a]
        t = self.e.m.T(anchor.spl_ty(self.e, "TokenAccount"))
        return dict(zip([n for n, _ in t["variants"][0]["fields"]], v.f))

    def evs(self, kind): return [x for x in self.log if x[0] == kind]

    def emitted(self, name, ty=None):
        r = [x for x in self.log if x[0] == "emit" and x[1] == name]
        return [dct(self.e, name, x[2]) for x in r]

    # ---- addresses
    def be(self, bits, x): return ("be%d" % bits, x)

    def lit(self, s): return ("lit:" + s.encode().hex(), None)

    def pda(self, *parts):
        return anchor.pda(self.e, list(parts))

    def ata(self, wallet, mint):
        return anchor.uf(self.e, "ata", [wallet, mint])

    def pool_pda_seeds(self, pool):
        return [self.lit("p"), ("key", pool["token_0"]), ("key", pool["token_1"]), self.be(32, pool["fee"]), ("key", pool["bump"])]

    def tick_addr(self, pool, tick, bump):
        return self.pda(self.lit("t"), ("key", pool["token_0"]), ("key", pool["token_1"]), self.be(32, pool["fee"]), self.be(32, tick), ("key", bump))

    def bitmap_addr(self, pool, word, bump):
        return self.pda(self.lit("b"), ("key", pool["token_0"]), ("key", pool["token_1"]), self.be(32, pool["fee"]), self.be(16, word), ("key", bump))

    def obs_addr(self, pool, idx, bump):
        return self.pda(self.lit("o"), ("key", pool["token_0"]), ("key", pool["token_1"]), self.be(32, pool["fee"]), self.be(16, idx), ("key", bump))

    def position_addr(self, pool, owner, lo, up, bump):
        return self.pda(self.lit("ps"), ("key", pool["token_0"]), ("key", pool["token_1"]), self.be(32, pool["fee"]), ("key", owner), self.be(32, lo), self.be(32, up), ("key", bump))

    def cls(self, ty):
        return [o.split(":")[1] for o in self.st.mem if isinstance(o, str) and o.startswith("data:") and o.endswith(":" + ty)]

    def unchanged(self, ty, but=()):
        """[(account, changed field condition)] of all accounts of this type except the given ones"""
        out = []
        for a in self.cls(ty):
            if a in but or ("init:" + a) in self.st.gh: continue
            o = obj(self.e, a, ty)
            out.append(eqv(self.st.mem[o], self.e.init[o]))
        return And(*out)

    def keeps(self, acct, ty, *fields):
        a, b = self.pre(acct, ty), self.post(acct, ty)
        return And(*[eqv(a[f], b[f]) for f in fields])

    def keeps_but(self, acct, ty, *fields):
        a, b = self.pre(acct, ty), self.post(acct, ty)
        return And(*[eqv(a[f], b[f]) for f in a if f not in fields])

    # ---- values
    def ratio(self, t): return ticks.ratio(self.e.d, t)

    def amount(self, tok, A, B, L, up):
        """exact token amount between prices A <= B"""
        c = lib.amount0 if tok == 0 else lib.amount1
        v = c.value(self.S, A, B, L, up)
        return v[0] if isinstance(v, tuple) else v

    def wrap(self, x, bits=64, signed=False): return self.e.d.wrap(x, bits, signed)

    def modeq(self, a, b, bits=64):
        return (a - b) % I(1 << bits) == 0


def discharge(I_, clauses, label, pids, extra=None, ms=15000, shard=(0, 1), paths=None):
    """clauses(v) yields (property, name, term[, hints]); -> {pid: [obligation]}"""
    out = []
    spec.LINEAR = True
    agg = {}
    order = []
    t0 = time.time()
    oks = I_.oks if paths is None else paths
    for i, p in enumerate(oks):
        if i % shard[1] != shard[0]: continue
        v = V(I_, p)
        for c in clauses(v):
            pid, nm, term = c[:3]
            if pid not in pids: continue
            hints = list(c[3]) if len(c) > 3 else []
            k = nm
            if k not in agg:
                agg[k] = Res("proved", "simplifier")
                agg[k].n = 0
                order.append(k)
            r = agg[k]
            if r.status == "failed": continue
            t = time.time()
            q = prove(I_.e, p.st, term, hints, ms)
            r.secs += time.time() - t
            r.n += 1
            if q.status != "proved":
                r.status, r.by = q.status, q.by
                r.model = q.model
                r.detail = "path %d of %s" % (i, label)
                if q.model is not None:
                    r.detail += ": " + describe(I_, p, q.model)
            elif q.by and q.by != "simplifier":
                r.by = q.by
    for k in order:
        r = agg[k]
        o = Ob("%s: %s" % (label, k), label, r).js()
        o["task"] = label
        o["paths"] = r.n
        out.append(o)
    return out


def describe(I_, p, m):
    d = {}
    for x in m.decls():
        n = x.name()
        if x.arity() == 0 and not n.startswith(("lin!", "q!", "m!")) and len(d) < 80:
            d[n] = str(m[x])
    return ", ".join("%s=%s" % kv for kv in sorted(d.items()))[:3000]


def info(I_, label, n):
    e = I_.e
    return {"function": "instruction " + label, "paths": len(I_.paths), "exec_secs": round(I_.secs, 1), "inlined": sorted(x for x in e.inlined if x.startswith("cyclos_core::") or "cyclos_core" in x)[:60],
            "contracts": sorted(e.used_contracts), "assumed": sorted(e.assumed)}


class It:
    """end of a loop iteration, as a path"""

    def __init__(self, cut, head, st, uid):
        self.cut, self.head, self.st, self.uid = cut, head, st, uid
        self.fr = cut.frames[uid]


def iterations(I_, cut=None):
    return [It(c, *x) for n, c in I_.cuts.items() if cut in (None, n) for x in c.iters]


def heads(I_, p, cut, but=()):
    """[(head state, frame)] of a loop as a path went through it"""
    c = I_.cuts[cut]
    out = []
    for k, i in p.st.gh.items():
        if isinstance(k, str) and k.startswith("head:") and k not in but:
            uid = int(k.split(":")[1])
            if uid in c.frames: out.append((c.heads[i], c.frames[uid]))
    return out


def local_of(e, st, fr, ty, live=None):
    """fields of the frame's local of a struct type"""
    for l, ti in enumerate(fr.fn["locals"]):
        t = e.m.T(ti)
        if t["k"] == "adt" and t["path"].rsplit("::", 1)[-1] == ty:
            v = st.mem.get((fr.uid, l))
            if isinstance(v, Agg) and (live is None or l in live):
                return dict(zip(names(e, ti), v.f))
    raise LostAnchor("local of type %s in %s" % (ty, fr.fn["name"]))
