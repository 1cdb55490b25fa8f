#!/usr/bin/env python3
"""The properties, in one place: writes properties.jsonl and MANIFEST.json.

    python3 props.py
"""
import json, os, importlib, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "checks")]
P = []


def p(id, title, statement, over, quant, why, files, mech, note=None, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  note=note, observe=observe or [], na=na))


L = "crates/bonsaidb-local/src/"
S = "crates/bonsaidb-server/src/"
CL = "crates/bonsaidb-client/src/"
CO = "crates/bonsaidb-core/src/"
FI = "crates/bonsaidb-files/src/"

exec(open(os.path.join(HERE, "props_data.py")).read())

NOTE = ("Sound up to the stated assumptions for the rule as written: every path of every analysed body of the current source is "
        "covered (no bound on schedules or inputs). It decides the structural rule, not the run-time values behind it; rustc's MIR "
        "and the bodies of third-party crates are trusted.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps({
                "id": x["id"], "title": x["title"], "statement": x["statement"],
                "quantifier": {"over": x["over"], "text": x["quant"]},
                "why_tests_cant": x["why"],
                "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                            "observe_at": x["observe"], "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for x in P:
        m = os.path.join(HERE, "checks", x["id"].lower() + ".py")
        if x["na"] or not os.path.exists(m):
            na.append({"property": x["id"], "reason": x["na"] or "the check is not built yet"})
            continue
        mod = importlib.import_module(x["id"].lower())
        c = "python3 engine/runner.py %s" % x["id"]
        checks.append({"property": x["id"], "quick_cmd": c, "thorough_cmd": c,
                       "technique": getattr(mod, "TECHNIQUE", "path-sensitive typestate and dataflow analysis over compiler MIR"),
                       "level": "other", "level_note": (x["note"] + " " if x["note"] else "") + NOTE})
    json.dump({"version": 1, "setup_cmd": "python3 engine/build.py", "checks": checks, "not_applicable": na,
               "notes": "properties.jsonl and this file are written by props.py from props_data.py."},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed;", len(na), "not applicable:", [n["property"] for n in na])


if __name__ == "__main__":
    main()
