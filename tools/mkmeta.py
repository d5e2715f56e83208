"""Write properties.jsonl and MANIFEST.json from the property files in tools/props/*.json-like python."""
import importlib.util
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NOT_APPLICABLE

WHY_LIB = ("The unit tests call each function with a handful of hand-picked arguments; the guarantee is over every argument of every accepted "
           "type, including empty, repeated, boundary, infinite, NaN and non-ASCII values, and over the ways a call can be written.")


def main():
    lines, checks, na = [], [], []
    ids = set()
    for p in PROPS:
        assert p["id"] not in ids, p["id"]
        ids.add(p["id"])
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "observe_at": p["observe_at"]}
        if p.get("state"):
            anchors["state"] = p["state"]
        lines.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                      "quantifier": {"over": p["over"], "text": p["forall"]},
                      "why_tests_cant": p.get("why") or WHY_LIB, "anchors": anchors})
        if p["id"] in NOT_APPLICABLE:
            na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
            continue
        checks.append({"property": p["id"], "quick_cmd": "./run {0} quick".format(p["id"]), "thorough_cmd": "./run {0} thorough".format(p["id"]),
                       "technique": "runtime monitoring: " + p["technique"], "level": "exploration", "level_note": p["note"]})
        assert os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")), p["id"]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for l in lines:
            f.write(json.dumps(l, ensure_ascii=True) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
                   "notes": "Pure Python target: every check imports titus from /repo's working tree under the repository's own interpreter "
                            "(/opt/venv/bin/python) without writing bytecode; no hooks are committed in /repo, the monitors attach at run time."}, f, indent=1)
        f.write("\n")


main()
