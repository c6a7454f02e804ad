"""Source of properties.jsonl and MANIFEST.json:  python3 tools/catalog.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None,
         na=None, technique=None, level="exploration", note=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                    "observe_at": list(observe), "hook_needed": hook}})
    assert len(title) <= 80, title
    if na:
        NA.append({"property": id, "reason": na})
        return
    CHECKS.append({
        "property": id,
        "quick_cmd": "bin/check %s --tier quick" % id,
        "thorough_cmd": "bin/check %s --tier thorough" % id,
        "evidence_file": "evidence/%s.json" % id,
        "technique": technique, "level": level, "level_note": note})


exec(open(os.path.join(HERE, "tools", "entries.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "bin/check --prepare",
        "checks": CHECKS, "not_applicable": NA,
        "notes": "No hooks in /repo: preemption and fault points come from sys.monitoring events of "
                 "/repo/src code, clock and randomness from an interposed libc, user-supplied "
                 "processors from harness code. The commits added to /repo are repairs only.",
    }, f, indent=1)
    f.write("\n")
