"""plant(): writes seeded/<id> after confirming in a scratch copy of /repo that the change passes the tests, and that the demonstration tells it from the original."""
import json, os, pathlib, shutil, subprocess, sys, tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = "/repo"
BASE = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
DEMO = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env)


def plant(name, prop, file, edits, demo, needs, breaks):
    with tempfile.TemporaryDirectory(prefix="plant.") as tmp:
        copy = os.path.join(tmp, "repo")
        sh(f"git clone -q {REPO} {copy}")
        path = os.path.join(copy, "nion/utils", file)
        s = open(path).read()
        for old, new in edits:
            assert s.count(old) == 1, (name, s.count(old), old)
            s = s.replace(old, new)
        open(path, "w").write(s)
        diff = sh("git diff", copy).stdout
        assert diff, name
        # lines removed must be of the original repository
        removed = [l for l in sh("git diff -U0", copy).stdout.splitlines() if l.startswith("@@")]
        own = 0
        for h in removed:
            spec = h.split()[1][1:]
            a, _, n = spec.partition(",")
            n = int(n or 1)
            if n:
                blame = sh(f"git blame -l -s -L {a},+{n} {BASE}..HEAD -- nion/utils/{file}", copy).stdout.splitlines()
                own += sum(1 for b in blame if not b.startswith("^") and not b.startswith(BASE))
        if own:
            print(f"{name}: {own} changed lines are not of the original repository")
        env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1")
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider nion 2>&1 | tail -3", copy, env)
        ok = "57 passed" in t.stdout
        d = os.path.join(tmp, "demo")
        os.mkdir(d)
        open(d + "/demo.py", "w").write(demo.lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO)
        bad = sh(f"bash {d}/demo.sh", copy)
        check = sh(f"PYTHONPATH=$PWD /opt/venv/bin/python -c 'import nion.utils.Event as e; print(e.__file__)'", copy)
        assert copy in check.stdout, check
        good = sh(f"bash {d}/demo.sh", REPO)
        print(name, "tests", "pass" if ok else "FAIL " + t.stdout, "| demo original", good.returncode, "changed", bad.returncode)
        if not ok or good.returncode != 0 or bad.returncode == 0:
            print(good.stdout[-500:], good.stderr[-1500:], bad.stdout[-500:], bad.stderr[-500:])
            return False
        out = ROOT / "seeded" / name
        shutil.rmtree(out, ignore_errors=True)
        out.mkdir(parents=True)
        (out / "patch.diff").write_text(diff)
        (out / "demo.py").write_text(demo.lstrip("\n"))
        (out / "demo.sh").write_text(DEMO)
        (out / "demo.sh").chmod(0o755)
        (out / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
        return True
