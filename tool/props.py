#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "libclingcon/src/"
HDR = "libclingcon/clingcon/"

P = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state))


TRUST = (" Trusts clang's AST/CFG, the summaries of the C++ standard library and of clingo's API in sa/, and the absence of "
         "casts that hide writes; anchors are the public API, virtual interfaces and (record, field) names.")

exec(open(os.path.join(V, "tool", "props_data.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda x: x["id"]):
            assert len(p["title"]) <= 80, p["id"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["quant"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks = []
    na = []
    for p in sorted(P, key=lambda x: x["id"]):
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "technique": p["technique"], "level": "other", "level_note": p["note"] + TRUST})
    m = {"version": 1, "setup_cmd": "python3 -m sa.setup", "checks": checks, "not_applicable": na,
         "notes": "All checks are static analyses over facts extracted by tool/extract.cc (clang libTooling) from /repo's current sources; see DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
