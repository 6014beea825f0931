"""Contracts, obligations and their discharge."""
import os, subprocess, sys, time, tempfile
import z3
import sym
from sym import E, State, Agg, Ptr, Op, Outcome, norm
from mir import Mir, LostAnchor
from dom import Unsupported, is_true, is_false

M64 = (1 << 64) - 1
Q32 = 1 << 32


class Path:
    """one path of a function: how it ends, its state, result and path condition"""

    def __init__(self, kind, st, val, why=None):
        self.kind, self.st, self.val, self.why = kind, st, val, why

    @property
    def is_ok(self):
        return self.kind == "ret" and isinstance(self.val, Agg) and self.val.v == 0


class Run:
    """symbolic execution of one function of the repository"""

    def __init__(self, mir, name, mode="int", contracts=(), pre=None, args=None, feas_ms=400, names=None,
                 budget=300, setup=None, merge=()):
        self.m = mir
        self.fn = mir.fn(name)
        self.name = norm(self.fn["name"])
        self.e = E(mir, mode, feas_ms=feas_ms)
        self.e.deadline = time.time() + budget
        self.st = State()
        self.contracts = contracts
        for c in contracts:
            c.bind(self.e)
        for n in merge:
            f = mir.find(n)
            if f: self.e.merge_calls.add(f["id"])
        if args is None:
            args = []
            for i, ti in enumerate(self.fn["ins"]):
                nm = names[i] if names else "a%d" % i
                args.append(self.e.sym(ti, nm, self.st))
        self.args = args
        self.a = [self.e.load(self.st, a) if isinstance(a, Ptr) else a for a in args]
        if setup: setup(self)
        if pre is not None:
            for c in pre(self):
                self.st.add(c)
        self.pre_mem = dict(self.st.mem)
        t = time.time()
        res = self.e.call(self.st.fork(), self.fn, list(args), 0)
        self.paths = [Path("ret", s, v) for s, v in res] + [Path("panic", o.st, None, o.why) for o in self.e.panics]
        self.secs = time.time() - t

    @property
    def rets(self):
        return [p for p in self.paths if p.kind == "ret"]

    @property
    def panics(self):
        return [p for p in self.paths if p.kind == "panic"]


# --------------------------------------------------------------------- solving
STATS = {"queries": 0, "secs": 0.0, "by": {}}


def _z3(cs, ms, tactic=None, seed=0):
    s = z3.Solver() if tactic is None else tactic
    s.set("timeout", ms)
    if seed:
        s.set("random_seed", seed)
    sym.raw_add(s, cs)
    r = s.check()
    return r, s


def smt2(cs):
    s = z3.Solver()
    s.add(*cs)
    return s.to_smt2()


def cvc5(cs, secs, extra=()):
    txt = "(set-logic ALL)\n" + smt2(cs)
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % int(secs * 1000), *extra, f.name], capture_output=True, text=True, timeout=secs + 5)
        o = p.stdout.strip().split("\n")[0] if p.stdout else ""
    except subprocess.TimeoutExpired:
        o = "timeout"
    finally:
        os.unlink(f.name)
    return o


class Res:
    def __init__(self, status, by="", secs=0.0, model=None, detail=""):
        self.status, self.by, self.secs, self.model, self.detail = status, by, secs, model, detail

    def __repr__(self):
        return "%s[%s %.2fs %s]" % (self.status, self.by, self.secs, self.detail)


retry = [3]


def decide(cs, ms=20000, use_cvc5=True):
    """is the conjunction unsatisfiable?  -> Res proved / failed (with model) / unknown"""
    t = time.time()
    STATS["queries"] += 1
    cs = [c for c in cs if not is_true(c)]
    if any(is_false(c) for c in cs):
        return Res("proved", "simplifier", 0.0)
    steps = [("z3", min(ms, 4000))]
    if use_cvc5:
        steps.append(("cvc5", ms))
    steps.append(("z3b", ms))
    r = None
    for kind, lim in steps:
        if kind == "z3":
            q, s = _z3(cs, lim)
        elif kind == "z3b":
            q, s = _z3(cs, lim, z3.Then("simplify", "solve-eqs", "smt").solver(), 7)
        else:
            o = cvc5(cs, lim / 1000.0, ("--nl-ext-tplanes",))
            if o == "unsat":
                r = Res("proved", "cvc5", time.time() - t)
                break
            continue
        if q == z3.unsat:
            r = Res("proved", "z3", time.time() - t)
            break
        if q == z3.sat:
            r = Res("failed", "z3", time.time() - t, s.model())
            break
    if r is None and ms >= 10000 and retry[0] > 0:
        # both back ends gave up: once more with other seeds and more time, a few times per process
        retry[0] -= 1
        for seed in (11, 29):
            q, s = _z3(cs, 2 * ms, None, seed)
            if q == z3.unsat: r = Res("proved", "z3", time.time() - t)
            elif q == z3.sat: r = Res("failed", "z3", time.time() - t, s.model())
            if r is not None: break
    if r is None:
        r = Res("unknown", "", time.time() - t)
    STATS["secs"] += r.secs
    STATS["by"][r.by] = STATS["by"].get(r.by, 0) + 1
    return r


def mulpos(x, y):
    """valid lemma instance: product of non-negatives is non-negative"""
    return z3.Implies(z3.And(x >= 0, y >= 0), x * y >= 0)


def divfacts(q, n, d):
    """q = n div d for d > 0"""
    return [z3.Implies(d > 0, z3.And(q * d <= n, n < q * d + d))]


def relevant(e, pc, goal):
    return e.relevant(pc, goal)


LINEAR = False         # try the linear abstraction of an obligation first
SHARD = (0, 1)         # this process discharges every n-th obligation
_count = 0


def prove(e, st, goal, hints=(), ms=20000):
    """pc and hints |= goal"""
    global _count
    _count += 1
    if _count % SHARD[1] != SHARD[0]:
        return Res("skipped")
    if is_true(goal):
        return Res("proved", "simplifier")
    neg = z3.Not(goal)
    conj = z3.And(neg, *hints) if hints else neg
    cs = e.relevant(st.pc, conj) + list(hints) + [neg]
    if LINEAR and e.mode == "int":
        # products of variables as arbitrary values in their range: an over-approximation, unsat is conclusive
        t = time.time()
        side = {}
        ls = [e.linear(c, side) for c in cs]
        q, _ = _z3(ls + list(side.values()), 3000)
        if q == z3.unsat:
            STATS["queries"] += 1
            STATS["secs"] += time.time() - t
            STATS["by"]["z3"] = STATS["by"].get("z3", 0) + 1
            return Res("proved", "z3", time.time() - t)
    r = decide(cs, ms)
    if r.status == "failed":
        # make the counterexample a model of the whole path condition
        full = list(st.pc) + e.assumptions_global + [f for d in e.d.defs.values() for f in d[3]] + list(hints) + [neg]
        q, s = _z3(full, ms)
        if q == z3.sat:
            r.model = s.model()
        elif q == z3.unsat:
            r = Res("proved", "z3", r.secs)
    return r
