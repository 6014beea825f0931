"""Loop contracts: a loop is cut at its head.

First arrival: the invariant must hold (base obligation); everything the loop may change is replaced
by arbitrary values satisfying the invariant.  Later arrivals: the invariant must hold again
(preservation obligation) and the path ends.  What the loop changes is found, not declared: locals
assigned in the loop syntactically, memory and balances by comparing the state at the back edge with
the state at the head; when something new turns up the whole run is repeated with it included.
"""
import os
import z3
import sym
from sym import Agg, Ptr, Op, vkey
from dom import Unsupported


def loop_blocks(e, fn, head):
    """natural loop of a head: blocks that reach a back edge without passing the head"""
    k = ("loopblocks", fn["id"], head)
    if k not in e._model_cache:
        succ = [sym.succs(t) for _, t in fn["blocks"]]
        pred = {}
        for b, ss in enumerate(succ):
            for x in ss:
                pred.setdefault(x, []).append(b)
        rpo = e.rpo(fn)
        back = [b for b in pred.get(head, []) if b in rpo and rpo[b] >= rpo[head]]
        body, stack = {head}, back
        while stack:
            b = stack.pop()
            if b in body: continue
            body.add(b)
            stack += [p for p in pred.get(b, []) if p in rpo]
        e._model_cache[k] = body
    return e._model_cache[k]


def changed_locals(e, fn, body):
    out = set()
    for b in body:
        sts, tm = fn["blocks"][b]
        for s in sts:
            if s[0] in ("=", "setd"):
                if "*" not in s[1][1]: out.add(s[1][0])
                if s[0] == "=" and s[2][0] in ("ref", "addr") and s[2][1] in ("mut", "Mut") and "*" not in s[2][2][1]:
                    out.add(s[2][2][0])
        if tm[0] == "call" and "*" not in tm[3][1]:
            out.add(tm[3][0])
    return out


class Cut:
    def __init__(self, inv=None, name="loop", cands=None, hints=None, steps=None, assume=None, entry=None):
        """inv(E, st, frame) -> [(name, term)]; cands(E, st, value) -> {key: term} about one integer the loop
        changes: candidate invariants, kept if they hold at entry and are preserved"""
        self.inv, self.name, self.cands, self.hints = inv, name, cands, hints   # hints(E, head, st, frame): valid facts
        self.assume = assume    # assume(E, st, frame): the case of a case split this run is about
        self.entry = entry      # entry(E, st, frame, block) -> [(name, term)]: to hold where the loop begins
        self.steps = steps      # steps(E, head, st, frame) -> [(name, term, hints)]: proved, then used for the rest
        self.dropped = set()
        self.havoc = set()      # memory objects / ghost keys the loop changes
        self.dirty = False
        self.heads = {}         # (frame uid, block) -> head state
        self.obs = []           # (state, name, term, hints)
        self.iters = []         # (head state, end-of-iteration state, frame uid)
        self.frames = {}        # frame uid -> frame

    def reset(self):
        self.heads, self.obs, self.iters, self.dirty, self.frames = {}, [], [], False, {}

    def terms(self, E, st, fr, bb=None):
        return self.inv(E, st, fr, bb) if self.inv else []

    def guesses(self, E, st, fr, bb):
        """candidate invariants that have not been refuted"""
        out = {}
        if self.cands is None: return out

        def leaves(v, k):
            if isinstance(v, Agg):
                for i, x in enumerate(v.f): yield from leaves(x, k + (i,))
            elif isinstance(v, z3.ArithRef): yield k, v
        for l in sorted(changed_locals(E, fr.fn, loop_blocks(E, fr.fn, bb))):
            v = st.mem.get((fr.uid, l))
            if l in E.live(fr.fn)[bb] and v is not None:
                for k, x in leaves(v, (l,)):
                    for c, t in self.cands(E, st, x).items():
                        if (k, c) not in self.dropped: out[(k, c)] = t
        return out

    def check_guesses(self, E, st, fr, bb):
        from spec import prove
        for k, t in self.guesses(E, st, fr, bb).items():
            if prove(E, st, t, (), 2000).status != "proved":
                self.dropped.add(k)
                self.dirty = True

    def fresh(self, E, st, ti, old, name):
        if isinstance(old, Op) and old.t == "acctiter":
            return Op("acctiter", "*")
        if isinstance(old, Op) and old.t == "ai":
            return Op("ai", E.new("any*"), *old.a[1:])
        if isinstance(old, Op) and old.t in ("opaque", "zst", "str", "fn"):
            return old
        if old is sym.UNINIT:
            return old
        t = E.m.T(ti) if ti is not None else None
        if t and t["k"] == "adt" and t["path"].endswith("option::Option"):
            s2 = sym.State()
            pay = E.sym(t["gargs"][0], name, s2)
            b = E.fresh_bool(name + ".some")
            st.add(*s2.pc)
            return Op("opt", b, pay)
        if isinstance(old, Agg) and (ti is None or not (t["k"] == "adt" and t["adt"].lower().startswith("enum"))):
            fts = [None] * len(old.f)
            if t and t["k"] == "adt": fts = [x for _, x in t["variants"][0]["fields"]]
            elif t and t["k"] == "tuple": fts = t["elems"]
            elif t and t["k"] == "array": fts = [t["elem"]] * len(old.f)
            return Agg([self.fresh(E, st, ft, x, "%s.%d" % (name, i)) for i, (ft, x) in enumerate(zip(fts, old.f))], old.v)
        if isinstance(old, z3.BoolRef):
            return E.fresh_bool(name)
        if isinstance(old, z3.ExprRef) and ti is not None:
            return E.sym(ti, name, st)
        if isinstance(old, z3.ArithRef) and ti is None:
            return E.fresh_int(name, 64, False, st)
        raise Unsupported("loop changes %s of a kind that cannot be generalised: %r" % (name, old))

    def __call__(self, E, st, fr, bb, visits):
        hk = "head:%s:%d" % (fr.uid, bb)
        self.frames[fr.uid] = fr
        if ("cut", bb) not in visits:
            if self.assume:
                c = self.assume(E, st, fr)
                if not E.feasible(st, c): return []
                st = st.fork().add(c)
            if self.entry:
                for nm, c in self.entry(E, st, fr, bb): self.obs.append((st.fork(), nm, c, ()))
            for nm, c in self.terms(E, st, fr, bb):
                self.obs.append((st.fork(), nm + " at loop entry", c, ()))
            self.check_guesses(E, st, fr, bb)
            body = loop_blocks(E, fr.fn, bb)
            live = E.live(fr.fn)[bb]
            st = st.fork()
            names = {l[1][0]: l[0] for l in fr.fn.get("names", []) if not l[1][1]}
            for l in sorted(changed_locals(E, fr.fn, body)):
                if l in live:
                    k = (fr.uid, l)
                    old = st.mem.get(k, sym.UNINIT)
                    ti = fr.fn["locals"][l]
                    t = E.m.T(ti)
                    if t["k"] in ("ref", "ptr") or (t["k"] in ("closure", "fndef")):
                        st.mem[k] = sym.UNINIT
                        continue
                    st.mem[k] = self.fresh(E, st, ti, old, "loop.%s" % names.get(l, "_%d" % l))
                else:
                    st.mem[(fr.uid, l)] = sym.UNINIT
            for k in self.havoc:
                if k[0] == "gh":
                    if k[1] in st.gh:
                        st.gh[k[1]] = self.fresh(E, st, None, st.gh[k[1]], "loop." + str(k[1]))
                elif k[1] in st.mem:
                    st.mem[k[1]] = self.fresh(E, st, E.data_ty.get(k[1]), st.mem[k[1]], "loop." + str(k[1]))
            st.ev("loop", self.name)
            st.kn = dict(st.kn)
            for nm, c in self.terms(E, st, fr, bb):
                st.add(c)
            for c in self.guesses(E, st, fr, bb).values():
                st.add(c)
            st.gh[hk] = len(self.heads)
            self.heads[st.gh[hk]] = st.fork()
            return [st]
        h = self.heads[st.gh[hk]]
        hs = tuple(self.hints(E, h, st, fr)) if self.hints else ()
        if self.steps:
            for nm, c, hh in self.steps(E, h, st, fr):
                self.obs.append((st.fork(), nm, c, tuple(hh)))
                hs += (c,)
        for nm, c in self.terms(E, st, fr, bb):
            self.obs.append((st.fork(), nm + " preserved by the loop body", c, hs))
        self.check_guesses(E, st, fr, bb)
        ch = changed_locals(E, fr.fn, loop_blocks(E, fr.fn, bb))
        for k, v in h.mem.items():
            if isinstance(k, tuple) and k[0] == fr.uid and (k[1] in ch or k[1] not in E.live(fr.fn)[bb]):
                continue
            if v is sym.UNINIT or ("mem", k) in self.havoc: continue
            w = st.mem.get(k)
            if w is None or w is sym.UNINIT:
                continue        # dead
            if w is not v and vkey(w) != vkey(v):
                if os.environ.get("DBG"): print("loop changes", k, v, w)
                self.havoc.add(("mem", k))
                self.dirty = True
        for k, v in h.gh.items():
            if ("gh", k) in self.havoc or not isinstance(v, z3.ExprRef): continue
            w = st.gh.get(k)
            if w is not v and (w is None or vkey(w) != vkey(v)):
                self.havoc.add(("gh", k))
                self.dirty = True
        self.iters.append((h, st, fr.uid))
        return []
