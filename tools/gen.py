"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, quant, why, files, mech, claim=True, note="", reason="", state=(), observe=()):
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why,
                   anchors={"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state], "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": list(observe), "hook_needed": None}),
              claim, note, reason))


exec(open(os.path.join(V, "tools", "properties.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _, _, _ in P:
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "./setup.sh",
       "checks": [{"property": d["id"], "quick_cmd": "./check.sh " + d["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + d["id"], "evidence_file": "evidence/%s.json" % d["id"],
                   "technique": "contract-based deductive verification of the crate's MIR (weakest-precondition style symbolic execution with callee contracts, z3/cvc5)",
                   "level": "proof", "level_note": note} for d, c, note, _ in P if c],
       "not_applicable": [{"property": d["id"], "reason": r} for d, c, _, r in P if not c],
       "notes": "No hooks in /repo: contracts live in /verif/vc and are checked against the MIR extracted from /repo on every run."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "claimed")
