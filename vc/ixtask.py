"""Instruction obligations as jobs of a property's check."""
import time, traceback
import z3
import ixspec, ixprops, par, spec
from inst import Inst
from contract import Ob
from spec import Res
from dom import Unsupported
from mir import LostAnchor


def execute(mir, ix, variant=None):
    cl, inv, shards = ixprops.SPECS[ix]
    pre = ixprops.PREP[ix](variant) if ix in ixprops.PREP else None

    def prep(I_):
        ixspec.prep_for(inv)(I_)
        if pre: pre(I_)
    cuts = ixprops.CUTS[ix](variant) if ix in ixprops.CUTS else []
    return Inst(mir, ix, prep=prep, cuts=cuts, budget=ixprops.BUDGET.get(ix, 240))


def clauses(ix, variant):
    cl = ixprops.SPECS[ix][0]
    return cl(variant) if variant else cl


def run(mir, ix, pids, ms=15000, variant=None):
    cl, shards = clauses(ix, variant), ixprops.SPECS[ix][2]
    I_ = execute(mir, ix, variant)
    label = ix + (" [%s]" % variant if variant else "")
    if not I_.oks:
        raise Unsupported("no successful path of %s" % label)
    consistent(I_, label)

    def part(i):
        def f():
            spec.LINEAR = True
            sh = (i, shards)
            obs = ixspec.discharge(I_, cl, label, pids, ms=ms, shard=sh)
            for cut, ic in (ixprops.ITERS[ix](variant) if ix in ixprops.ITERS else ()):
                obs += ixspec.discharge(I_, ic, label + " (loop)", pids, ms=ms, paths=ixspec.iterations(I_, cut), shard=sh)
            for c in I_.cuts.values():
                obs += loop_obs(I_, c.obs, label + " (loop)", ms, sh)
            obs += loop_obs(I_, [x + ((),) for x in I_.e.__dict__.get("callpre", [])], label, ms, sh)
            return obs
        return f
    if shards == 1:
        parts = [("ok", part(0)())]
    else:
        parts = par.pmap([part(i) for i in range(shards)], shards, 800, group=False)
    agg = {}
    for st, r in parts:
        if st != "ok": raise Unsupported("obligations of %s: %s %s" % (label, st, str(r)[:800]))
        for o in r:
            a = agg.get(o["name"])
            if a is None:
                agg[o["name"]] = o
                continue
            a["secs"] += o["secs"]
            a["paths"] = a.get("paths", 1) + o.get("paths", 1)
            if o["status"] != "proved" and a["status"] == "proved":
                for k in ("status", "by", "model", "detail"): a[k] = o.get(k)
            elif o["by"] not in (None, "", "simplifier") and a["status"] == "proved":
                a["by"] = o["by"]
    return list(agg.values()), ixspec.info(I_, label, len(agg))


def consistent(I_, label):
    """the assumptions must not contradict each other: nothing may follow from a contradiction"""
    for p in I_.oks[:2] + ixspec.iterations(I_)[:2]:
        if spec.prove(I_.e, p.st, z3.BoolVal(False), (), 1500).status == "proved":
            if not [q for q in I_.oks if spec.prove(I_.e, q.st, z3.BoolVal(False), (), 1500).status != "proved"]:
                raise Unsupported("contradictory assumptions on every path of " + label)


def loop_obs(I_, items, label, ms, shard=(0, 1)):
    """base and preservation obligations of a loop contract, preconditions of called contracts"""
    agg = {}
    for i, (st, nm, t, hints) in enumerate(items):
        if i % shard[1] != shard[0]: continue
        k = "%s: %s" % (label, nm)
        a = agg.setdefault(k, Res("proved", "simplifier"))
        if a.status == "failed": continue
        r = spec.prove(I_.e, st, t, hints, ms)
        a.secs += r.secs
        if r.status != "proved":
            if a.status == "proved": a.status, a.by, a.model, a.detail = r.status, r.by, r.model, r.detail or ""
        elif r.by != "simplifier" and a.status == "proved":
            a.by = r.by
    out = []
    for k, r in agg.items():
        o = Ob(k, label, r).js()
        o["task"] = label
        out.append(o)
    return out


def task(pid, ix, variant=None):
    def f(mir, native, tier, seed):
        try:
            obs, info = run(mir, ix, {pid}, 15000 if tier == "quick" else 60000, variant)
        except (Unsupported, LostAnchor) as x:
            return dict(unsupported="%s: %s" % (type(x).__name__, x), ix=ix)
        except Exception as x:
            return dict(unsupported="%s: %s %s" % (type(x).__name__, x, traceback.format_exc()[-1500:]), ix=ix)
        if not obs:
            return dict(unsupported="no obligation of %s in %s" % (pid, ix), ix=ix)
        return dict(obs=obs, info=info)
    return ("%s%s" % (ix, "/" + variant if variant else ""), f)


def tasks(pid):
    out = []
    for ix, ps in ixprops.PIDS.items():
        if pid in ps:
            for v in ixprops.VARIANTS.get(ix, {None: 0}):
                out.append(task(pid, ix, v))
    return out
