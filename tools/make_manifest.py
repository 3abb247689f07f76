"""Regenerates MANIFEST.json from properties.jsonl and the check modules."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "default": "runtime monitoring: reference-model oracle over observed calls",
}
exec(open(os.path.join(ROOT, "tools", "techniques.py")).read())
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "mon", "checks", p.lower() + ".py")):
        t, note = TECHNIQUES.get(p, (TECH["default"], DEFAULT_NOTE))
        checks.append(dict(
            property=p, quick_cmd=f"bash check.sh {p} quick",
            thorough_cmd=f"bash check.sh {p} thorough",
            evidence_file=f"evidence/{p}.json", technique=t,
            level="exploration", level_note=note))
    else:
        na.append(dict(property=p, reason="no check built yet"))
json.dump(dict(
    version=1,
    setup_cmd="bash setup.sh",
    hooks=dict(guard="PYTSPL_VERIF",
               enable="no hooks: the monitors observe the public interface "
                      "of the unmodified library (imported from /repo)",
               source_commits=[]),
    checks=checks, not_applicable=na),
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
