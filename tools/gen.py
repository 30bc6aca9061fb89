#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (single source, kept in step)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, technique=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, observe=observe, technique=technique, note=note, na=na, state=state or []))
exec(open(os.path.join(HERE, "tools", "table.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "state": x["state"], "mechanism": [{"name": n, "where": w} for n, w in x["mechanism"]],
                        "observe_at": x["observe"], "hook_needed": None},
        }) + "\n")
checks, na = [], []
for x in P:
    if x["na"]:
        na.append({"property": x["id"], "reason": x["na"]})
        continue
    checks.append({"property": x["id"], "quick_cmd": "./check.sh %s" % x["id"],
                   "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % x["id"],
                   "technique": x["technique"], "level": "exploration", "level_note": x["note"],
                   "evidence_file": "evidence/%s.json" % x["id"]})
json.dump({"version": 1, "setup_cmd": "./check.sh build",
           "hooks": {"guard": "none", "enable": "no hooks are needed: every monitor sits at the public Rust, C or command line boundary; the commits in /repo are all unguarded fix: commits", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Every check rebuilds /verif/harness (path dependency on /repo) and then runs seeded cases in watched worker processes; see DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    assert all(os.path.exists(os.path.join("/repo", f)) for f in x["files"]), x["id"]
    for _, w in x["mechanism"]:
        assert os.path.exists(os.path.join("/repo", w.split(":")[0].split(" ")[0])), (x["id"], w)
print(len(checks), "claimed,", len(na), "not claimed")
