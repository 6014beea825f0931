"""Contracts of the tick / price functions.

The function from ticks to prices is `ratio`: a defined variable per tick term.  That it is strictly
increasing on [-221818, 221818] with the stated end points is established by evaluating the
repository's function on every tick of the domain (checks C02, C03)."""
import time
import z3
from contract import *

MINT, MAXT = -221818, 221818
PMIN, PMAX = 65537, 281472331703918


def ratio(d, t):
    """price at tick t (t inside the domain)"""
    c = d.__dict__.setdefault("_ratio", {})
    k = t.get_id()
    if k not in c:
        v = z3.Int("ratio!%d" % len(c))
        d.ranges[v.decl().name()] = (PMIN, PMAX)
        f = [v >= PMIN, v <= PMAX, z3.Implies(t <= MINT, v == PMIN), z3.Implies(t >= MAXT, v == PMAX)]
        d.defs[v.decl().name()] = ("ratio", t, None, f, v)
        c[k] = (v, t)
    return c[k][0]


class RatioAtTick(Contract):
    name = "cyclos_core::libraries::tick_math::get_sqrt_ratio_at_tick"
    names = ["tick"]

    def cases(self, S, fn, t):
        g = z3.And(t >= MINT, t <= MAXT)
        return [Case(g, S.ok(ratio(S.d, t)), name="price"), Case(z3.Not(g), S.err, name="outside the tick domain")]


class TickAtRatio(Contract):
    name = "cyclos_core::libraries::tick_math::get_tick_at_sqrt_ratio"
    names = ["sqrt_price_x32"]

    def cases(self, S, fn, p):
        d = S.d
        c = d.__dict__.setdefault("_tickof", {})
        k = p.get_id()
        if k not in c:
            v = z3.Int("tickof!%d" % len(c))
            d.ranges[v.decl().name()] = (MINT, MAXT - 1)
            lo, hi = ratio(d, v), ratio(d, v + 1)
            f = [v >= MINT, v <= MAXT - 1, z3.Implies(z3.And(p >= PMIN, p < PMAX), z3.And(lo <= p, p < hi))]
            d.defs[v.decl().name()] = ("tickof", p, p, f, v)
            c[k] = (v, p)
        g = z3.And(p >= PMIN, p < PMAX)
        return [Case(g, S.ok(c[k][0]), name="tick"), Case(z3.Not(g), S.err, name="outside the price domain")]


ratio_at_tick, tick_at_ratio = RatioAtTick(), TickAtRatio()


# --------------------------------------------------------------------- verification
import bisect, json as _json, os, struct, subprocess, tempfile
from decimal import Decimal, getcontext
import cgen, par
import sym as _sym

FN_R = RatioAtTick.name
FN_T = TickAtRatio.name
WORKERS = 8


class _Look:
    """get_sqrt_ratio_at_tick inside get_tick_at_sqrt_ratio: its contract, as a table"""
    name = FN_R

    def bind(self, e):
        f = e.m.find(self.name)
        if f is not None: e.contracts[f["id"]] = self.apply

    def apply(self, e, st, fn, a):
        R = z3.Function("RATIO", z3.BitVecSort(32), z3.BitVecSort(64))
        g = z3.And(a[0] >= MINT, a[0] <= MAXT)
        s2 = st.fork().add(z3.Not(g))
        st.add(g)
        return [(st, Agg([R(a[0])], 0)), (s2, Agg([Op("error", "T")], 1))]


def _paths(mir, name, contracts):
    def feas(self, st, c): return not is_false(simp(c))
    old = E.feasible, E.join
    E.feasible, E.join = feas, True
    try:
        run = Run(mir, name, "bv", contracts=contracts, names=["x"], budget=120)
    finally:
        E.feasible, E.join = old
    var = run.a[0]
    out = []
    for p in run.paths:
        c = z3.And(*p.st.pc) if p.st.pc else z3.BoolVal(True)
        ok = p.kind == "ret" and p.val.v == 0
        out.append((c, p.val.f[0] if ok else None, "ok" if ok else "err" if p.kind == "ret" else "panic"))
    return run, var, out


MAIN = r"""
static long evals;
/* every argument in [a, b] takes a path of kind `kind` (and yields `want` if check): report what does not */
static int expect(U a, U b, int check, U want, const char *kinds, char kind) {
  I x = {a, b}, o; evals++;
  int k = eval(x, &o);
  if (k >= 0 && kinds[k] == kind && (!check || (o.a == want && o.b == want))) return 1;
  if (a == b) { printf("bad %%llu %%d %%llu\n", (unsigned long long)a, k, (unsigned long long)o.a); return 0; }
  U m = a + (b - a) / 2;
  if (!expect(a, m, check, want, kinds, kind)) return 0;
  return expect(m + 1, b, check, want, kinds, kind);
}
int main(int argc, char **argv) {
  const char *kinds = "%s";
  FILE *f = fopen(argv[1], "rb"); TLO = %d; THI = %d; TAB = malloc(8ul * (THI - TLO + 1));
  if (f && strcmp(argv[1], "/dev/null")) { if (fread(TAB, 8, THI - TLO + 1, f) != THI - TLO + 1) return 3; fclose(f); }
  int bad = 0;
  if (!strcmp(argv[2], "table")) {
    for (int t = atoi(argv[3]); t <= atoi(argv[4]); t++) {
      I x = pt((U)(unsigned)t), o; int k = eval(x, &o);
      printf("%%c %%llu\n", k < 0 ? '?' : kinds[k], k >= 0 && kinds[k] == 'o' ? (unsigned long long)o.a : 0ull);
    }
    return 0;
  }
  if (!strcmp(argv[2], "range")) expect(strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), 0, 0, kinds, argv[5][0]);
  if (!strcmp(argv[2], "ticks"))
    for (int t = atoi(argv[3]); t <= atoi(argv[4]) && bad < 3; t++)
      if (!expect(TAB[t - TLO], TAB[t + 1 - TLO] - 1, 1, (U)(unsigned)t, kinds, 'o')) bad++;
  printf("evals %%ld\n", evals);
  return 0;
}
"""


def _compile(var, paths, nm):
    kinds = "".join({"ok": "o", "err": "e", "panic": "p"}[k] for _, _, k in paths)
    return cgen.compile_(cgen.program(var, [(c, v) for c, v, _ in paths], MAIN % (kinds, MINT, MAXT)), nm)


def _run(exe, *a):
    p = subprocess.run([exe] + [str(x) for x in a], capture_output=True, text=True, timeout=900)
    if p.returncode:
        raise Unsupported("enumeration failed")
    return p.stdout.split("\n")


def _chunks(lo, hi, n):
    s = (hi - lo + n) // n
    return [(a, min(a + s - 1, hi)) for a in range(lo, hi + 1, s)]


def ob(name, ok, secs, by="complete enumeration", fn=FN_R, detail=""):
    return {"name": name, "fn": fn, "status": "proved" if ok else "failed", "by": by, "secs": round(secs, 2), "detail": detail, "model": None, "task": "ticks"}


def native_table(native):
    parts = [native.run(["ratio_table %d %d" % c])[0].split() for c in _chunks(MINT, MAXT, 4)]
    if any(p[0] != "ok" for p in parts):
        return None
    return [int(x) for p in parts for x in p[1:]]


def mir_table(mir, obs, bad, infos):
    """evaluate the extracted function on its complete domain"""
    t0 = time.time()
    run, var, paths = _paths(mir, FN_R, [])
    exe = _compile(var, paths, "ratio")
    res = par.pmap([lambda c=c: _run(exe, "/dev/null", "table", *c) for c in _chunks(MINT, MAXT, WORKERS)], WORKERS, 600)
    if any(s != "ok" for s, _ in res): raise Unsupported("enumeration of ticks failed")
    tab = []
    wrong = None
    for _, ls in res:
        for l in ls:
            if not l: continue
            k, v = l.split()
            if k != "o" and wrong is None: wrong = MINT + len(tab)
            tab.append(int(v) if k == "o" else -1)
    obs.append(ob("price of every tick in [-221818, 221818] is defined (no error, no panic)", wrong is None, time.time() - t0))
    t1 = time.time()
    o = _run(exe, "/dev/null", "range", MAXT + 1, (1 << 31) - 1, "e") + _run(exe, "/dev/null", "range", 1 << 31, (1 << 32) + MINT - 1, "e")
    b = [l for l in o if l.startswith("bad")]
    obs.append(ob("every tick outside [-221818, 221818] is rejected", not b, time.time() - t1))
    if b:
        t = int(b[0].split()[1])
        bad.append(("ratio_at_tick", t - (1 << 32) if t >= 1 << 31 else t, "err"))
    if wrong is not None: bad.append(("ratio_at_tick", wrong, "ok"))
    infos.append({"function": run.name, "paths": len(paths), "inlined": sorted(run.e.inlined - {run.name}), "assumed": sorted(run.e.assumed), "exec_secs": 0, "contracts": []})
    return tab


def get_table(mir, native, obs, bad, infos, bounded):
    try:
        tab = mir_table(mir, obs, bad, infos)
    except (Unsupported, LostAnchor) as x:
        tab = native_table(native) if native else None
        if tab is None: raise
        bounded.append("get_sqrt_ratio_at_tick: extraction not possible (%s); the compiled function was run on every tick of the domain instead" % str(x)[:150])
        obs.append(ob("price of every tick in [-221818, 221818] is defined (native run)", all(v >= 0 for v in tab), 0, "complete native enumeration"))
        return tab
    if native:
        t = time.time()
        nt = native_table(native)
        d = [MINT + i for i, (a, b) in enumerate(zip(tab, nt or [])) if a != b]
        if nt is None or d:
            obs.append(ob("the compiled function agrees with the extracted one on every tick", False, time.time() - t))
        else:
            obs.append(ob("the compiled function agrees with the extracted one on every tick", True, time.time() - t, "complete native enumeration"))
    return tab


def _replay(native, bad):
    out = []
    for op, x, want in bad:
        a = native.run(["%s %d" % (op, x)])[0] if native else "?"
        out.append(dict(kind="input" if native and a.split()[0] != want and a != want else "obligation", fn=FN_R if op == "ratio_at_tick" else FN_T, op=op, args=[x], got=a, want=want, status="failed",
                        model=None, detail="", obligation="%s(%d) must be %s" % (op, x, want)))
    return out


def task_c02(mir, native, tier, seed):
    obs, bad, infos, bounded = [], [], [], []
    tab = get_table(mir, native, obs, bad, infos, bounded)
    t = time.time()
    dec = [i for i in range(1, len(tab)) if not tab[i] > tab[i - 1]]
    obs.append(ob("prices are strictly increasing in the tick", not dec, time.time() - t))
    if dec: bad.append(("ratio_at_tick", MINT + dec[0], "more than %d" % tab[dec[0] - 1]))
    obs.append(ob("the lowest and highest price are 65537 and 281472331703918", (tab[0], tab[-1]) == (PMIN, PMAX), 0))
    if tab[0] != PMIN: bad.append(("ratio_at_tick", MINT, "ok %d" % PMIN))
    if tab[-1] != PMAX: bad.append(("ratio_at_tick", MAXT, "ok %d" % PMAX))
    tried = len(tab)
    if not dec and min(tab) > 0:
        try:
            run, var, paths = _paths(mir, FN_T, [_Look()])
            infos.append({"function": run.name, "paths": len(paths), "inlined": sorted(run.e.inlined - {run.name}), "assumed": sorted(run.e.assumed), "exec_secs": 0, "contracts": [FN_R]})
            exe = _compile(var, paths, "tick")
            f = tempfile.NamedTemporaryFile(suffix=".tab", delete=False)
            f.write(struct.pack("<%dQ" % len(tab), *tab))
            f.close()
            t = time.time()
            jobs = [lambda c=c: _run(exe, f.name, "ticks", *c) for c in _chunks(MINT, MAXT - 1, 4 * WORKERS)]
            jobs += [lambda: _run(exe, f.name, "range", 0, tab[0] - 1, "e"), lambda: _run(exe, f.name, "range", tab[-1], (1 << 64) - 1, "e")]
            res = par.pmap(jobs, WORKERS, 700)
            os.unlink(f.name)
            if any(s != "ok" for s, _ in res): raise Unsupported("enumeration of prices failed: " + str([r for r in res if r[0] != "ok"][:1]))
            ev = sum(int(l.split()[1]) for _, ls in res for l in ls if l.startswith("evals"))
            b1 = [int(l.split()[1]) for _, ls in res[:-2] for l in ls if l.startswith("bad")]
            b2 = [int(l.split()[1]) for _, ls in res[-2:] for l in ls if l.startswith("bad")]
            obs.append(ob("the tick of every price p in [65537, 281472331703918) is the greatest tick with price <= p (%d intervals)" % ev, not b1, time.time() - t, "complete interval enumeration", FN_T))
            obs.append(ob("every price outside [65537, 281472331703918) is rejected", not b2, 0, "complete interval enumeration", FN_T))
            for p in b1[:2]: bad.append(("tick_at_ratio", p, "ok %d" % (MINT + bisect.bisect_right(tab, p) - 1)))
            for p in b2[:2]: bad.append(("tick_at_ratio", p, "err"))
        except (Unsupported, LostAnchor) as x:
            if not native: raise
            import random
            r = random.Random(seed)
            ps = sorted({q for v in tab for q in (v - 1, v) if PMIN <= q < PMAX} | {int(2 ** r.uniform(16.01, 47.99)) for _ in range(300000)} | {0, PMIN - 1, PMAX, (1 << 64) - 1})
            tried += len(ps)
            for p, a in zip(ps, native.run(["tick_at_ratio %d" % p for p in ps])):
                w = "ok %d" % (MINT + bisect.bisect_right(tab, p) - 1) if PMIN <= p < PMAX else "err"
                if a != w:
                    bad.append(("tick_at_ratio", p, w))
                    break
            bounded.append("get_tick_at_sqrt_ratio: extraction not possible (%s); bounded: the compiled function was run at both sides of every tick price and at 300000 random prices" % str(x)[:150])
    return dict(obs=obs, info=infos[0] if infos else {"function": "tick_math", "paths": 0, "inlined": [], "assumed": [], "exec_secs": 0, "contracts": []}, infos=infos, bad=_replay(native, bad), bounded=bounded, tried=tried,
                samples=["ratio(%d) = %d" % (MINT + i, tab[i]) for i in (0, 1, 221818, 221819)])


# measured on the pinned tree: see DESIGN.md
ABS_ERR = Decimal("1")          # units of 2^-32
REL_ERR = Decimal("5e-12")


def task_c03(mir, native, tier, seed):
    obs, bad, infos, bounded = [], [], [], []
    tab = get_table(mir, native, obs, bad, infos, bounded)
    t0 = time.time()
    worst = accuracy(tab)
    off = [x for x in worst[2]]
    obs.append(ob("every tick price is within its error bound of sqrt(1.0001^tick)", not off, time.time() - t0, detail="worst relative error %.3e" % worst[0]))
    for t, lo, hi in off[:2]: bad.append(("ratio_at_tick", t, "between %d and %d" % (lo, hi)))
    return dict(obs=obs, info=infos[0] if infos else {"function": "tick_math", "paths": 0, "inlined": [], "assumed": [], "exec_secs": 0, "contracts": []}, infos=infos, bad=_replay(native, bad), bounded=bounded, tried=len(tab),
                samples=["worst relative error beyond rounding %.3e at tick %d" % (worst[0], worst[1])])


def accuracy(tab, rel=REL_ERR, ab=ABS_ERR):
    getcontext().prec = 60
    s = Decimal("1.0001").sqrt()
    x = Decimal(2) ** 32
    off = []
    worst = (0.0, 0)
    for dirn in (1, -1):
        v = x
        for k in range(MAXT + 1):
            t = k * dirn
            p = tab[t - MINT]
            e = (abs(Decimal(p) - v) - ab) / v
            if e > worst[0]: worst = (float(e), t)
            if abs(Decimal(p) - v) > ab + rel * v: off.append((t, int(v - ab - rel * v), int(v + ab + rel * v) + 1))
            v = v * s if dirn == 1 else v / s
    return worst[0], worst[1], off
