"""Plants bugs: builds seeded/<id>/ from edits and validates each one in a scratch copy.

As a module:  seed(id, prop, [(file, old, new), ...], demo, needs, breaks)
Run:          python tools/seed.py catch [id ...]    which checks catch which planted bugs
              python tools/seed.py verify [id ...]   re-validate them against /repo HEAD
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
REPO = "/repo"
PY = "/opt/venv/bin/python"
BASE = "027a0ae"
STABLE = json.load(open("/opt/vp/BASELINE.json"))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", RUFF_NO_CACHE="true",
           OMP_NUM_THREADS="1", PATH="/opt/venv/bin:" + os.environ["PATH"])
DEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 timeout 250 /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)


def stable_ids():
    return set(STABLE.get("stable") or STABLE.get("tests") or STABLE.get("passed"))


def run_tests(repo):
    xml, out = os.path.join(repo, "..", "j.xml"), os.path.join(repo, "..", "o.json")
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "--timeout=300",
            "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={xml}", "jsonpickle", "tests"], repo)
    assert os.path.exists(xml), r.stdout[-2000:] + r.stderr[-2000:]
    sh(["/usr/bin/python3", "/opt/vp/results.py", out, "junit:" + xml], repo)
    return sorted(stable_ids() - set(json.load(open(out))["passed"]))


def scratch():
    d = tempfile.mkdtemp(prefix="seed")
    subprocess.run(["git", "clone", "-q", REPO, d + "/repo"], check=True)
    return d


def old_lines_only(repo, files):
    """Removed lines must be lines of the original repository."""
    bad = []
    for f in files:
        blame = sh(["git", "blame", "-s", "HEAD", "--", f], repo).stdout.splitlines()
        diff = sh(["git", "diff", "-U0", "--", f], repo).stdout
        for line in diff.splitlines():
            if line.startswith("@@"):
                old = line.split()[1][1:].split(",")
                start, n = int(old[0]), int(old[1]) if len(old) > 1 else 1
                for i in range(start, start + n):
                    if not blame[i - 1].startswith("^" + BASE[:7]):
                        bad.append(blame[i - 1])
    return bad


def validate(sid):
    d = scratch()
    repo = d + "/repo"
    src = os.path.join(SEEDED, sid)
    probs = []
    try:
        shutil.copytree(src, d + "/demo")
        r = sh(["bash", d + "/demo/demo.sh"], repo)
        if r.returncode != 0:
            probs.append("demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-600:])
        r = sh(["git", "apply", src + "/patch.diff"], repo)
        if r.returncode:
            return ["does not apply: " + r.stderr]
        files = sh(["git", "diff", "--name-only"], repo).stdout.split()
        bad = old_lines_only(repo, files)
        if bad:
            probs.append("changes lines that are not original: " + "\n".join(bad))
        r = sh(["bash", d + "/demo/demo.sh"], repo)
        if r.returncode == 0:
            probs.append("demo passes with the patch")
        missing = run_tests(repo)
        if missing:
            probs.append(f"stable tests fail: {missing[:5]}")
    finally:
        shutil.rmtree(d)
    return probs


def seed(sid, prop, edits, demo, needs, breaks, keep=True):
    src = os.path.join(SEEDED, sid)
    d = scratch()
    try:
        for f, old, new in edits:
            p = f"{d}/repo/jsonpickle/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], d + "/repo").stdout
    finally:
        shutil.rmtree(d)
    os.makedirs(src, exist_ok=True)
    open(src + "/patch.diff", "w").write(diff)
    open(src + "/demo.sh", "w").write(DEMO)
    os.chmod(src + "/demo.sh", 0o755)
    open(src + "/demo.py", "w").write(demo.lstrip("\n"))
    with open(src + "/meta.json", "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        f.write("\n")
    probs = validate(sid)
    print(sid, "ok" if not probs else "REJECTED\n   " + "\n   ".join(probs), flush=True)
    if probs:
        bad = "/tmp/seeds/rejected-" + sid
        shutil.rmtree(bad, ignore_errors=True)
        shutil.move(src, bad)
    return not probs


def catch(ids):
    for sid in ids or sorted(os.listdir(SEEDED)):
        src = os.path.join(SEEDED, sid)
        prop = json.load(open(src + "/meta.json"))["property"]
        if not os.path.exists(f"{VERIF}/mc/checks/{prop.lower()}.py"):
            continue
        assert not sh(["git", "status", "--porcelain", "-uno"], REPO).stdout
        r = sh(["git", "apply", src + "/patch.diff"], REPO)
        if r.returncode:
            print(sid, prop, "does not apply", r.stderr)
            continue
        try:
            r = sh(["./check.sh", prop], VERIF, timeout=1200)
        finally:
            sh(["git", "checkout", "--", "."], REPO)
        hit = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
        first = next((x for x in r.stdout.splitlines() if x.startswith("  case")), "")
        print(f"{sid:8} {prop} {'caught' if hit else 'MISSED rc=' + str(r.returncode)} {first.strip()[:150]}", flush=True)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "catch":
        catch(ids)
    else:
        for i in ids or sorted(os.listdir(SEEDED)):
            p = validate(i)
            print(i, "ok" if not p else p, flush=True)
