"""Function contracts: cases with values, memory effects, requirements and lemmas.

A contract is used twice.  `apply` replaces a call: the caller must establish `requires`, then one
case is assumed.  `verify` executes the real body (with the callees' contracts) and proves, on every
path, that it ends as the case whose condition holds says: same result, same effects, same panics.
"""
import time
import z3
from sym import E, State, Agg, Ptr, Op, simp, vkey
from dom import Unsupported, is_true, is_false
from mir import LostAnchor, norm
from spec import Run, Path, Res, prove, decide, mulpos, M64, Q32

ANY = Op("any")
M128 = (1 << 128) - 1


class Case:
    def __init__(self, cond, val, eff=(), panic=False, name="", ev=()):
        self.cond, self.val, self.eff, self.panic, self.name, self.ev = cond, val, tuple(eff), panic, name, tuple(ev)


class Spec:
    """vocabulary for writing contracts, bound to an executor and a path state"""

    def __init__(self, e, st):
        self.e, self.st, self.d, self.m = e, st, e.d, e.m
        self.facts = []
        e.d.kn = st.kn

    def fact(self, *cs):
        for c in cs:
            if not is_true(c):
                self.facts.append(c)
                self.st.add(c)

    def _div(self, kind, n, d):
        return self.d.div(kind, n, d)

    def FD(self, n, d):
        """floor(n / d) for n >= 0"""
        return self._div("fd", n, d)

    def CD(self, n, d):
        """ceil(n / d) for n >= 0"""
        return self._div("cd", n, d)

    def I(self, v):
        return z3.IntVal(v)

    def some(self, v):
        return Agg([v], 1)

    none = Agg([], 0)

    def ok(self, v=None):
        return Agg([v if v is not None else Agg([])], 0)

    err = Agg([ANY], 1)

    def wrapped(self, v, bits, signed=False):
        return self.d.wrap(v, bits, signed)

    def struct(self, ti, **fields):
        t = self.m.T(ti)
        names = [n for n, _ in t["variants"][0]["fields"]]
        if set(names) != set(fields):
            raise LostAnchor("fields of %s: %s" % (t["name"], names))
        return Agg([fields[n] for n in names])

    def fld(self, agg, ti, name):
        t = self.m.T(ti)
        for i, (n, _) in enumerate(t["variants"][0]["fields"]):
            if n == name:
                return agg.f[i]
        raise LostAnchor("field %s of %s" % (name, t["name"]))


def is_any_err(v):
    return isinstance(v, Agg) and any(x is ANY for x in v.f)


def same(v, w, e=None):
    """formula: value v of the code equals value w of the contract (ANY matches anything)"""
    if w is ANY:
        return z3.BoolVal(True)
    if isinstance(w, Agg):
        if not isinstance(v, Agg) or v.v != w.v:
            return z3.BoolVal(False)
        if len(v.f) != len(w.f):
            if any(x is not ANY for x in w.f):
                return z3.BoolVal(False)
            return z3.BoolVal(True)
        cs = [same(x, y) for x, y in zip(v.f, w.f)]
        cs = [c for c in cs if not is_true(c)]
        return z3.And(*cs) if cs else z3.BoolVal(True)
    if isinstance(w, z3.ExprRef):
        if not isinstance(v, z3.ExprRef) or v.sort() != w.sort():
            return z3.BoolVal(False)
        return simp(v == w)
    if vkey(v) == vkey(w):
        return z3.BoolVal(True)
    return z3.BoolVal(False)


def struct_ty(m, ti):
    t = m.T(ti)
    while t["k"] in ("ref", "ptr"):
        ti = t["elem"]
        t = m.T(ti)
    return ti


class Ob:
    """one obligation and how it was discharged"""

    def __init__(self, name, fn, res, path=None, model=None):
        self.name, self.fn, self.res, self.path, self.model = name, fn, res, path, model

    def js(self):
        return {"name": self.name, "fn": self.fn, "status": self.res.status, "by": self.res.by, "secs": round(self.res.secs, 3),
                "detail": self.res.detail[:4000], "model": self.model}


class Contract:
    name = None
    mode = "int"
    names = None           # parameter names, for messages and replay
    uses = ()              # contracts of callees used while verifying the body
    ms = 20000
    budget = 240
    oracle = None          # (probe op) name in the native harness

    def cases(self, S, fn, *a):
        raise NotImplementedError

    def requires(self, S, fn, *a):
        return []

    def lemmas(self, S, fn, case, *a):
        """[(name, formula, hints)] consequences of a returning case, proved once, assumed by callers"""
        return []

    def hints(self, S, fn, case, *a):
        """valid facts (instances of arithmetic lemmas) that help the solver"""
        return []

    # ------------------------------------------------------------------ use
    def bind(self, e):
        f = e.m.find(self.name)
        if f is not None:
            e.contracts[f["id"]] = self.apply

    def view(self, e, st, a):
        return a

    def apply(self, e, st, fn, args):
        S = Spec(e, st)
        a = [self.view(e, st, x) for x in args]
        for nm, c in self.requires(S, fn, *a):
            if not is_true(c):
                e.__dict__.setdefault("callpre", []).append((st.fork(), nm + " required by " + self.name, c))
        cs = self.cases(S, fn, *a)
        out = []
        live = [c for c in cs if not is_false(simp(c.cond))]
        feas = [c for c in live if len(live) == 1 or e.feasible(st, c.cond)]
        if e.__dict__.get("merge_contracts"):
            return self.apply_merged(e, st, fn, a, feas)
        for i, c in enumerate(feas):
            s2 = st.fork() if i < len(feas) - 1 else st
            s2.add(c.cond)
            if c.panic:
                e.panic(s2, "panic of " + self.name)
                continue
            S2 = Spec(e, s2)
            for nm, f, h in self.lemmas(S2, fn, c, *a):
                s2.add(f)
            for p, v in c.eff:
                e.store(s2, p, v)
            for ev in c.ev:
                s2.ev(*ev)
            out.append((s2, self.inst(e, s2, c.val, fn)))
        return out

    def apply_merged(self, e, st, fn, a, feas):
        """one successor per shape of result (Ok / Err, Some / None), values merged by case"""
        groups = {}
        for c in feas:
            if c.panic:
                e.panic(st.fork().add(c.cond), "panic of " + self.name)
                continue
            groups.setdefault(c.val.v if isinstance(c.val, Agg) else 0, []).append(c)
        out = []
        gs = list(groups.values())
        for i, g in enumerate(gs):
            s2 = st.fork() if i < len(gs) - 1 else st
            s2.add(simp(z3.Or(*[c.cond for c in g])) if len(g) > 1 else g[0].cond)
            for c in g:
                for nm, f, h in self.lemmas(Spec(e, s2), fn, c, *a):
                    s2.add(simp(z3.Implies(c.cond, f)) if len(g) > 1 else f)
            val = self.inst(e, s2, g[-1].val, fn)
            for c in reversed(g[:-1]):
                val = e.ite(simp(c.cond), self.inst(e, s2, c.val, fn), val) if not is_any_err(c.val) else val
            ptrs = []
            for c in g:
                for p, v in c.eff:
                    if not any(vkey(p) == vkey(q) for q in ptrs):
                        ptrs.append(p)
            for p in ptrs:
                old = e.load(s2, p)
                new = None
                for c in reversed(g):
                    v = next((v for q, v in c.eff if vkey(q) == vkey(p)), old)
                    new = v if new is None else e.ite(simp(c.cond), v, new)
                e.store(s2, p, new)
            out.append((s2, val))
        return out

    def inst(self, e, st, v, fn):
        if isinstance(v, Agg):
            return Agg([Op("error", "any") if x is ANY else self.inst(e, st, x, fn) for x in v.f], v.v)
        return v

    # ------------------------------------------------------------------ proof
    def verify(self, mir):
        """-> (obligations, info)"""
        fnm = self.name
        run = Run(mir, self.name, self.mode, contracts=[c for c in self.uses], names=self.names, budget=self.budget,
                  pre=(lambda r: [c for _, c in self.requires(Spec(r.e, r.st), r.fn, *[self.view(r.e, r.st, x) for x in r.args])]))
        e = run.e
        fnm = run.name
        obs = []
        np = 0
        for p in run.paths:
            np += 1
            S = Spec(e, p.st)
            # arguments as the contract sees them, in the pre-state memory
            pre = State(p.st.pc, dict(run.pre_mem), (), dict(run.st.gh), p.st.kn)
            a = [self.view(e, pre, x) for x in run.args]
            Sp = Spec(e, pre)
            cs = self.cases(Sp, run.fn, *a)
            st = State(pre.pc, p.st.mem, p.st.log, p.st.gh, p.st.kn)
            for c in cs:
                good = z3.BoolVal(True)
                if p.kind == "panic":
                    if c.panic:
                        continue
                    good = z3.BoolVal(False)
                elif c.panic:
                    good = z3.BoolVal(False)
                else:
                    parts = [same(p.val, c.val)]
                    for q, v in c.eff:
                        parts.append(same(e.load(st, q), v))
                    for q in self.frame(run, c):
                        parts.append(same(e.load(st, q), e.load(pre, q)))
                    good = z3.And(*parts) if len(parts) > 1 else parts[0]
                goal = simp(z3.Implies(c.cond, good)) if not is_true(c.cond) else good
                if is_false(good):
                    goal = simp(z3.Not(c.cond))
                h = list(self.hints(Spec(e, st), run.fn, c, *a))
                r = prove(e, st, goal, h, self.ms)
                o = Ob("%s: path %d (%s) conforms to case %s" % (fnm, np, p.kind if p.kind == "ret" else "panic: " + str(p.why), c.name), fnm, r)
                if r.status == "failed":
                    o.model = self.model_args(e, run, r.model)
                obs.append(o)
        for s2, nm, c in e.__dict__.get("callpre", []):
            r = prove(e, s2, c, [], self.ms)
            o = Ob("%s: %s" % (fnm, nm), fnm, r)
            if r.status == "failed":
                o.model = self.model_args(e, run, r.model)
            obs.append(o)
        # lemmas from the contract alone
        e2 = E(mir, self.mode)
        st = State()
        args = [e2.sym(ti, (self.names[i] if self.names else "a%d" % i), st) for i, ti in enumerate(run.fn["ins"])]
        a = [self.view(e2, st, x) for x in args]
        S = Spec(e2, st)
        for _, c in self.requires(S, run.fn, *a):
            st.add(c)
        cs = self.cases(S, run.fn, *a)
        for c in cs:
            if c.panic:
                continue
            s2 = st.fork().add(c.cond)
            prev = []
            for nm, f, h in self.lemmas(Spec(e2, s2), run.fn, c, *a):
                r = prove(e2, s2, f, list(h), self.ms)
                obs.append(Ob("%s: lemma %s in case %s" % (fnm, nm, c.name), fnm, r))
                s2.add(f)
        # the cases cover every input that satisfies the requirements
        r = prove(e2, st, simp(z3.Or(*[c.cond for c in cs])) if len(cs) > 1 else cs[0].cond, [], self.ms)
        obs.append(Ob("%s: cases are exhaustive" % fnm, fnm, r))
        # vacuity: the body really has a returning path and some case is reachable
        if not run.rets:
            obs.append(Ob("%s: some path returns" % fnm, fnm, Res("failed", "executor", 0, None, "no returning path")))
        info = {"function": fnm, "paths": len(run.paths), "exec_secs": round(run.secs, 2), "inlined": sorted(e.inlined - {fnm}),
                "contracts": sorted(e.used_contracts), "assumed": sorted(e.assumed)}
        return obs, info

    def frame(self, run, case):
        return []

    def model_args(self, e, run, model):
        out = {}
        for i, x in enumerate(run.args):
            nm = self.names[i] if self.names and i < len(self.names) else "a%d" % i
            v = run.a[i]
            out[nm] = mval(model, v)
        return out


def mval(model, v):
    if isinstance(v, z3.ExprRef):
        r = model.eval(v, model_completion=True)
        if z3.is_int_value(r): return r.as_long()
        if z3.is_bv_value(r): return r.as_long()
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        return str(r)
    if isinstance(v, Agg):
        return [mval(model, x) for x in v.f]
    return str(v)


class Rel(Contract):
    """contract given as a relation between arguments and result: `post` is proved of every returning
    path of the body and assumed by callers; `panics` (if given) says exactly when the call may panic"""
    def panic_when(self, S, fn, *a):
        return None

    def post(self, S, fn, a, ret, e, st):
        """[(name, formula, hints)]"""
        raise NotImplementedError

    def result(self, S, fn, a, e, st):
        return e.sym(fn["out"] if "out" in fn else fn["locals"][0], "ret." + self.name.split("::")[-1], st)

    def apply(self, e, st, fn, args):
        S = Spec(e, st)
        a = [self.view(e, st, x) for x in args]
        for nm, c in self.requires(S, fn, *a):
            e.__dict__.setdefault("callpre", []).append((st.fork(), nm + " required by " + self.name, c))
        ret = self.result(S, fn, a, e, st)
        for x in self.post(S, fn, a, ret, e, st):
            st.add(x[1])
        return [(st, ret)]

    def verify(self, mir):
        run = Run(mir, self.name, self.mode, contracts=list(self.uses), names=self.names, budget=self.budget, setup=self.setup,
                  pre=(lambda r: [c for _, c in self.requires(Spec(r.e, r.st), r.fn, *[self.view(r.e, r.st, x) for x in r.args])]))
        e = run.e
        obs = []
        for k, p in enumerate(run.rets):
            S = Spec(e, p.st)
            pre = State(p.st.pc, dict(run.pre_mem), (), dict(run.st.gh), p.st.kn)
            a = [self.view(e, pre, x) for x in run.args]
            proved = {}
            for x in self.post(S, run.fn, a, p.val, e, p.st):
                nm, f, h = x[:3]
                h = list(h) + [proved[n] for n in (x[3] if len(x) > 3 else ()) if n in proved]
                r = prove(e, p.st, f, h, self.ms)
                if r.status in ("proved", "skipped"):
                    proved[nm] = f
                o = Ob("%s: path %d: %s" % (run.name, k + 1, nm), run.name, r)
                if r.status == "failed":
                    o.model = self.model_args(e, run, r.model)
                obs.append(o)
        for s2, nm, c in e.__dict__.get("callpre", []):
            r = prove(e, s2, c, [], self.ms)
            o = Ob("%s: %s" % (run.name, nm), run.name, r)
            if r.status == "failed":
                o.model = self.model_args(e, run, r.model)
            obs.append(o)
        a0 = [self.view(e, State(run.st.pc, dict(run.pre_mem), (), {}, {}), x) for x in run.args]
        pc = self.panic_when(Spec(e, State(run.st.pc, dict(run.pre_mem), (), {}, {})), run.fn, *a0)
        if pc is not None:
            for p in run.paths:
                r = prove(e, p.st, pc if p.kind == "panic" else simp(z3.Not(pc)), [], self.ms)
                o = Ob("%s: %s" % (run.name, "panics only when it must (%s)" % p.why if p.kind == "panic" else "does not return when it must panic"), run.name, r)
                if r.status == "failed":
                    o.model = self.model_args(e, run, r.model)
                obs.append(o)
        if not run.rets:
            obs.append(Ob("%s: some path returns" % run.name, run.name, Res("failed", "executor", 0, None, "no returning path")))
        info = {"function": run.name, "paths": len(run.paths), "exec_secs": round(run.secs, 2), "inlined": sorted(e.inlined - {run.name}),
                "contracts": sorted(e.used_contracts), "assumed": sorted(e.assumed)}
        return obs, info

    setup = None
