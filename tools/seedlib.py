"""helper used while planting bugs: builds seeded/<id>/ and confirms it in a scratch copy of /repo"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(id, prop, edits, demo, needs, breaks, check=True):
    """edits: [(file, old, new)]; demo: python source run with cwd = repo, must exit 0 / nonzero"""
    tmp = tempfile.mkdtemp(prefix="seed.")
    repo = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(f"{id}: pattern occurs {s.count(old)} times in {f}")
                return False
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        d = os.path.join(ROOT, "seeded", id)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(demo)
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\nPY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\n'
            'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec "$PY" "$(dirname "$0")/demo.py"\n')
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        clean = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", capture_output=True, text=True, timeout=300)
        bad = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True, text=True, timeout=300)
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1")
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--import-mode=importlib"],
                           cwd=os.path.join(repo, "tests"), env=env, capture_output=True, text=True)
        tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
        ok = clean.returncode == 0 and bad.returncode != 0 and " failed" not in tail and "passed" in tail
        caught = ""
        if check:
            c = subprocess.run([sys.executable, "-m", "mfcheck", prop], cwd=ROOT, env=dict(os.environ, MARKFLOW_REPO=repo),
                               capture_output=True, text=True)
            caught = {0: "MISSED", 1: "caught"}.get(c.returncode, f"exit {c.returncode}")
            if c.returncode == 1:
                caught += " " + c.stdout.strip().splitlines()[0][:160]
            elif c.returncode != 0:
                caught += c.stdout[-200:] + c.stderr[-300:]
        print(f"{id}: {'OK' if ok else 'REJECTED'} clean={clean.returncode} bad={bad.returncode} tests={tail[:60]} | {caught}")
        if not ok:
            print((clean.stdout + clean.stderr)[-300:], "/", (bad.stdout + bad.stderr)[-200:])
            shutil.rmtree(d)
        return ok
    finally:
        shutil.rmtree(tmp)
