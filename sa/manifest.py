"""Write properties.jsonl and MANIFEST.json from the property modules (python3 -m sa.manifest)."""
import json
import os
from . import core
from .props.not_applicable import NA


def main():
    core.load_props()
    rows, checks = [], []
    for pid in sorted(core.REG):
        m = dict(core.META[pid])
        note = m.pop("note")
        assert len(m["title"]) <= 80, (pid, len(m["title"]))
        assert m["statement"] and m["quantifier"]["text"] and m["why_tests_cant"] and m["anchors"]["files"] and m["anchors"]["mechanism"], pid
        rows.append(m)
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py %s --tier quick" % pid,
            "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
            "technique": core.REG[pid][1],
            "level": core.REG[pid][2],
            "level_note": note or core.NOTE,
        })
    na = []
    for m, reason in NA:
        assert len(m["title"]) <= 80, m["id"]
        rows.append(m)
        na.append({"property": m["id"], "reason": reason})
    rows.sort(key=lambda r: r["id"])
    with open(os.path.join(core.VERIF, "properties.jsonl"), "w") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")
    with open(os.path.join(core.VERIF, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 -m sa.load", "checks": checks, "not_applicable": na,
                   "notes": "All checks share one extractor (vx, clang AST) and one summariser; see DESIGN.md. No hooks in /repo."}, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
