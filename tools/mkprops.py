#!/usr/bin/env python3
"""Single source of truth for properties.jsonl and MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, technique=None,
         level="model_checking", note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, level=level, note=note, na=na))

exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": p["mech"]}
            if p["observe"]: a["observe_at"] = p["observe"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier={"over": p["over"], "text": p["text"]}, why_tests_cant=p["why"], anchors=a)) + "\n")
    checks, na = [], []
    for p in P:
        if not p["na"] and not os.path.exists(os.path.join(ROOT, "tools", "c_%s.py" % p["id"])):
            na.append({"property": p["id"], "reason": "the check is under construction"}); continue
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]}); continue
        checks.append({"property": p["id"],
            "quick_cmd": "python3 tools/check.py %s" % p["id"],
            "thorough_cmd": "env VERIF_TIER=thorough python3 tools/check.py %s" % p["id"],
            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "TLA+/TLC specifications in spec/, harnesses in harness/, drivers in tools/. No hooks in /repo."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
main()
