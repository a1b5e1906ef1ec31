"""Writes MANIFEST.json from the checks that exist.  Run: python tools/manifest.py"""
import json, os, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.path.insert(0, "/repo")
sys.dont_write_bytecode = True
import mc.__main__ as m

props = [json.loads(line) for line in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(here, "mc", "checks", pid.lower() + ".py")):
        continue
    cls = m.registry(pid)
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"./check.sh {pid} quick",
            "thorough_cmd": f"./check.sh {pid} thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": cls.technique,
            "level": cls.level,
            "level_note": cls.level_note,
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "./check.sh --selftest",
    "checks": checks,
    "not_applicable": [],
    "notes": "All checks are explicit, exhaustive, bounded explorations of the real code in /repo "
    "(pure Python, imported from the working tree). No hooks in /repo are needed. "
    "Known findings are in known_findings.json.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
missing = {p["id"] for p in props} - {c["property"] for c in checks}
print(len(checks), "checks; without check:", sorted(missing))
