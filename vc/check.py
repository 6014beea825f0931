"""Decides one property on /repo's current tree:  check.py <property> [--keep]"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
T0 = time.time()
import build, par
V = build.V
SHARDS = {"swap_step": 6, "liq_for_amounts": 2, "amount0s": 2, "amount1s": 2, "nextbit": 2}


def histories(pid, seed, secs, exe, refused=False):
    """random instruction histories of the native program, watched for breaches of one property"""
    import re, subprocess
    try:
        out = subprocess.run([exe, str(seed), "1000000", "150", pid, str(secs)], capture_output=True, text=True, errors="replace", timeout=secs + 20,
                             env=dict(os.environ, **({"VW_REFUSED": pid} if refused else {}))).stdout
    except subprocess.TimeoutExpired as x:
        # an instruction that does not come to an end
        out = x.stdout or ""
        out = out.decode("utf8", "replace") if isinstance(out, bytes) else out
    n, bad = 0, []
    for l in out.splitlines():
        m = re.match(r"RAN (\d+) accepted and compared, (\d+) rejected as demanded", l)
        if m: n = int(m.group(1)) + int(m.group(2))
        m = re.match(r"BAD [^|]* \| seed (\d+) history (\d+)(?: steps (\d+))? \| (.*)", l)
        if m: bad.append((m.group(4), "vworld %s %d %s %s 3600 %s" % (m.group(1), int(m.group(2)) + 1, m.group(3) or "150", pid, m.group(2))))
    return n, bad


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    b = build.ensure()
    if "mir_err" in b:
        print("cannot extract the program from /repo:\n" + b["mir_err"])
        return 2
    import spec, contract, fuzz, props
    from mir import Mir, LostAnchor
    from dom import Unsupported
    P = props.PROPS[pid]
    mir = Mir(b["mir"])
    native = fuzz.Native(b["harness"]) if b["harness"] else None
    nfz = (300 if tier == "quick" else 5000)
    big = (3000 if tier == "quick" else 30000)
    budget = 780 if tier == "quick" else 3000
    R = dict(obs=[], infos=[], bad=[], bounded=[], notes=[], samples=[], tried=0)

    # ---- obligations
    jobs, labels = [], []
    for c in P["contracts"]:
        nm = fuzz.NAME.get(id(c), c.name)
        n = SHARDS.get(nm, 1)
        for i in range(n):
            def run(c=c, i=i, n=n):
                spec.SHARD = (i, n)
                try:
                    obs, info = c.verify(mir)
                    return dict(obs=[o.js() for o in obs], info=info)
                except (Unsupported, LostAnchor) as x:
                    return dict(unsupported="%s: %s" % (type(x).__name__, x))
                except Exception as x:
                    return dict(unsupported="%s: %s %s" % (type(x).__name__, x, traceback.format_exc()[-1500:]))
            jobs.append(run)
            labels.append((c, nm, i))
    for name, fn in P.get("tasks", ()):
        jobs.append(lambda fn=fn: fn(mir, native, tier, seed))
        labels.append((None, name, 0))
    # differential runs of the contracts against the native code (they also validate the executor)
    for c in P["contracts"]:
        if id(c) in fuzz.NAME and native:
            jobs.append(lambda c=c: dict(diff=fuzz.search(mir, native, c, nfz, seed)))
            labels.append((c, fuzz.NAME[id(c)], "diff"))
    # bounded companion of the instruction proofs: histories of the real program
    hist = pid in ["C%d" % i for i in range(11, 25)]
    if hist and b.get("world"):
        jobs.append(lambda: dict(hist=histories(pid, seed, 10 if tier == "quick" else 120, b["world"])))
        labels.append((None, "histories", "hist"))
    order = sorted(range(len(jobs)), key=lambda i: -({"swap_step": 9, "liq_for_amounts": 5}.get(labels[i][1], 1) if labels[i][0] else 40 if "swap" in labels[i][1] or "exact" in labels[i][1] else 20))
    out = dict(zip(order, par.pmap([jobs[i] for i in order], 14, budget)))

    fails = {}      # contract id -> list of failed / unknown obligations
    unsup = {}
    for i, (c, nm, k) in enumerate(labels):
        st, r = out[i]
        if k == "diff":
            if st == "ok":
                n, bad, smp = r["diff"]
                R["tried"] += n
                R["samples"] += [fuzz.NAME[id(c)] + " " + " ".join(map(str, v)) + " -> " + a for v, a in smp[:1]]
                for v, a, w in bad:
                    R["bad"].append(dict(kind="input", fn=c.name, op=nm, args=v, got=a, want=w, obligation="%s conforms to its contract" % c.name))
            continue
        if k == "hist":
            if st == "ok": seen_bad(R, *r["hist"])
            else: R["notes"].append("native histories: %s %s" % (st, str(r)[:200]))
            continue
        if st != "ok":
            unsup.setdefault(nm, (c, "%s: %s" % (st, str(r)[:1500])))
            continue
        if "unsupported" in r:
            unsup.setdefault(nm, (c, r["unsupported"]))
            continue
        r["obs"] = [o for o in r["obs"] if o["status"] != "skipped"]
        R["obs"] += r["obs"]
        if k == 0: R["infos"] += r.get("infos") or [r["info"]]
        if c is None:
            R["bad"] += r.get("bad", [])
            R["bounded"] += r.get("bounded", [])
            R["samples"] += r.get("samples", [])
            R["notes"] += r.get("notes", [])
            R["tried"] += r.get("tried", 0)
            continue
        for o in r["obs"]:
            if o["status"] != "proved":
                fails.setdefault(nm, (c, []))[1].append(o)

    # ---- failed obligations: replay the counterexample, then search
    jobs, labels = [], []
    for nm, (c, obs) in fails.items():
        if native and id(c) in fuzz.NAME and not any(x.get("op") == nm for x in R["bad"]):
            ex = [flat(list(o["model"].values())) for o in obs if o.get("model")]
            jobs.append(lambda c=c, ex=ex: fuzz.search(mir, native, c, big, seed + 1, ex))
            labels.append(nm)
    for nm, (c, why) in unsup.items():
        if native and c is not None and id(c) in fuzz.NAME and not any(x.get("op") == nm for x in R["bad"]):
            jobs.append(lambda c=c: fuzz.search(mir, native, c, big, seed + 1))
            labels.append(nm)
    # an instruction proof that failed or is out of reach: look for a failing history
    lost = [nm for nm, (c, why) in unsup.items() if c is None] + sorted({o["task"] for o in R["obs"] if o["status"] != "proved" and o.get("task")})
    failed = any(o["status"] == "failed" for o in R["obs"])
    if hist and lost and not any(x["kind"] == "input" for x in R["bad"]):
        if b.get("world"):
            for i in range(6):
                jobs.append(lambda i=i: ("hist",) + histories(pid, seed * 1000 + 17 * i + 3, 45 if tier == "quick" else 300, b["world"], failed))
                labels.append("histories")
        else:
            R["notes"].append("the monitor of native histories does not build on this tree")
    nh = 0
    for nm, (st, r) in zip(labels, par.pmap(jobs, 8, 200 if tier == "quick" else 600)):
        if nm == "histories":
            if st == "ok":
                seen_bad(R, r[1], r[2])
                nh += r[1]
            continue
        if st == "ok":
            n, bad, smp = r
            R["tried"] += n
            for v, a, w in bad:
                R["bad"].append(dict(kind="input", fn=fuzz.OPS[nm].name, op=nm, args=v, got=a, want=w,
                                     obligation=fails[nm][1][0]["name"] if nm in fails else "%s conforms to its contract" % nm))
            if nm in unsup:
                R["bounded"].append("%s: outside the verifier's reach on this tree (%s); %d inputs tried against its contract instead" % (nm, unsup[nm][1][:200], n))
    for nm, (c, why) in unsup.items():
        if c is None and nh: R["bounded"].append("%s: outside the verifier's reach on this tree (%s); %d instructions of random native histories compared with the properties instead" % (nm, why[:200], nh))
    for nm, (c, why) in unsup.items():
        R["notes"].append("not verified: %s: %s" % (nm, why[:600]))
    for nm, (c, obs) in fails.items():
        if any(x.get("op") == nm or x.get("fn") == getattr(c, "name", None) for x in R["bad"]):
            continue
        R["bad"].append(dict(kind="obligation", fn=c.name, op=nm, obligation=obs[0]["name"], status=obs[0]["status"], model=obs[0]["model"], detail=obs[0]["detail"],
                             others=[o["name"] for o in obs[1:10]]))
    for o in R["obs"]:
        if o["status"] != "proved" and o.get("task"):
            R["bad"].append(dict(kind="obligation", fn=o["fn"], op=o["task"], obligation=o["name"], status=o["status"], model=o.get("model"), detail=o.get("detail", "")))
    return report(pid, P, R, b, tier, seed, unsup)


def seen_bad(R, n, bad):
    R["tried"] += n
    R["histories"] = R.get("histories", 0) + n
    for what, cmd in bad[:3]:
        R["bad"].append(dict(kind="input", fn="instruction history", op="history", args=cmd, got=what, want="the behaviour the property demands", obligation="native history: " + what[:120]))


def flat(v):
    if isinstance(v, list):
        return [y for x in v for y in flat(x)]
    if isinstance(v, bool):
        return [int(v)]
    return [v] if isinstance(v, int) else []


def known(pid):
    p = os.path.join(V, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                out.append(l.split(" ", 2)[2].split(" :: ", 1))   # <obligation name pattern> :: <what fails>
    return out


def report(pid, P, R, b, tier, seed, unsup):
    import re
    obs = R["obs"]
    proved = [o for o in obs if o["status"] == "proved"]
    by = {}
    for o in proved: by[o["by"]] = by.get(o["by"], 0) + 1
    kf = known(pid)
    viol = []
    for x in R["bad"]:
        k = next((k for k in kf if x.get("obligation") and re.search(k[0], x["obligation"])), None)
        if k:
            line = "KNOWN-FINDING: property=%s %s" % (pid, k[-1])
            if line not in R.setdefault("known", []):
                R["known"].append(line)
        else:
            viol.append(x)
    for l in R.get("known", []): print(l)
    assumed = sorted({a for i in R["infos"] for a in i["assumed"]})
    fns = sorted({i["function"] for i in R["infos"]})
    inl = sorted({x for i in R["infos"] for x in i["inlined"]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {"obligations": len(obs), "discharged": len(proved), "discharged_by": by,
                       "solver_secs": round(sum(o["secs"] for o in obs), 1),
                       "slowest": sorted([[round(o["secs"], 1), o["name"]] for o in obs])[-3:],
                       "functions_under_contract": fns, "functions_inlined": inl, "symbolic_paths": sum(i["paths"] for i in R["infos"]),
                       "checker_cmd": "./check.sh %s" % pid, "bounded": R["bounded"], "not_verified": R["notes"],
                       "differential_inputs": R["tried"], "native_history_instructions": R.get("histories", 0), "samples": R["samples"][:12],
                       "trusted_base": ["rustc nightly's lowering of the crate to MIR (-Zmir-opt-level=1, overflow checks off as in the shipped build), read by /verif/mirdump",
                                        "/verif/vc: symbolic executor and its models of core/uint/anchor/solana calls", "z3 5.3, cvc5 1.1.2"]},
          "assumptions": assumed + P.get("assumes", []), "wall_s": round(time.time() - T0, 1), "violations": len(viol)}
    if R["bounded"] and not proved:
        ev["level"] = "exploration"
        ev["coverage"].update(evaluations=R["tried"], distinct_nontrivial=R["tried"], rule="boundary-biased random arguments inside the contract's requirements")
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged %s, %d functions, %d native runs, %.0fs" % (pid, len(obs), len(proved), by, len(fns), R["tried"], time.time() - T0))
    for n in R["notes"]: print("note: " + n[:300])
    for x in R["bounded"]: print("bounded: " + x[:300])
    if not viol:
        return 0
    viol.sort(key=lambda x: x["kind"] != "input")
    rp = os.path.join(V, "evidence", "replay-%s.json" % pid)
    json.dump({"property": pid, "violations": viol, "how": "input: pipe '<op> <args>' into .build/harness/debug/vharness and compare; history: run .build/harness/debug/<args> (VW_TRACE=1 shows every call); obligation: rerun ./check.sh " + pid}, open(rp, "w"), indent=1)
    x = viol[0]
    if x["kind"] == "input":
        print("  %s %s -> %s, must be %s" % (x["op"], x.get("args"), str(x["got"])[:200], str(x["want"])[:200]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    else:
        print("  failed obligation: %s [%s]" % (x["obligation"], x["status"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
    return 1


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
