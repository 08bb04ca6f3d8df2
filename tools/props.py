#!/usr/bin/env python3
"""Source of properties.jsonl, MANIFEST.json and harness/bins.json (run after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK_COMMITS = ["f05705658ce66ec7da99a7d06469dae7869ddce7", "2799738bcece202f52c1e05dbefeb3347f40403a"]
P = []

def prop(id, bin, title, statement, over, text, why, files, mech, technique, note, hook=None):
    P.append(dict(id=id, bin=bin, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, hook=hook))

SCHED = "schedule-controlled property-based testing (generated programs and interleavings, explicit history oracle, shrinking) plus generated cases under Miri"
SEQ = "property-based testing: generated inputs and operation/wake sequences against a reference model, with shrinking"
NOTE_S = "Generated cases only: nothing is proved. Threads are interleaved at the hooked operations under sequential consistency; weak-memory effects and data races only as far as Miri samples them."
NOTE = "Generated cases only: nothing is proved beyond the cases run; sizes are small (see DESIGN.md). The oracle is an independent reference model written from the documentation."

exec(open(os.path.join(ROOT, "tools", "list.py")).read())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                             hook_needed=p["hook"]))) + "\n")
    checks = [dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick",
                   thorough_cmd=f"python3 check.py {p['id']} thorough", technique=p["technique"],
                   level="exploration", level_note=p["note"]) for p in P]
    m = dict(version=1, setup_cmd="python3 check.py --setup",
             hooks=dict(guard="cfg(futures_verif)", enable='RUSTFLAGS="--cfg futures_verif"', source_commits=HOOK_COMMITS),
             checks=checks, not_applicable=[])
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
    json.dump({p["id"]: p["bin"] for p in P}, open(os.path.join(ROOT, "harness", "bins.json"), "w"), indent=0)

main()
