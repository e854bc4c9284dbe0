"""Runs the checks on behaviour-preserving rewrites of the code (refactors/*.diff), each in a scratch copy; every alarm or missing answer is a
fault of the checks.

usage: refactor_run.py [NAME ...] (env: JOBS, SCALE, CHECKS)
"""
import multiprocessing.pool, os, pathlib, re, shutil, subprocess, sys
import mutate

VERIF = pathlib.Path(__file__).resolve().parent.parent
mutate.SCRATCH = pathlib.Path("/tmp/refactor")
ALL = [f"C{i:02d}" for i in range(1, 30)]


def one(name):
    d = mutate.prepare("rf-" + name)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_WORKERS="1", VERIF_SCALE=os.environ.get("SCALE", "0.3"), PYTHONPATH=str(d / "repo"))
    lines = []
    try:
        diff = VERIF / "refactors" / (name + ".diff")
        subprocess.run(["git", "-C", str(d / "repo"), "apply", str(diff)], check=True)
        rc, o = mutate.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "nion"], d / "repo", 100, env)
        if "57 passed" not in o:
            return name, ["tests fail: " + o[-500:]]
        for c in os.environ.get("CHECKS", " ".join(ALL)).split():
            rc, o = mutate.run(["bash", "check.sh", c], d / "verif", 900, env)
            if rc != 0:
                lines.append(f"{c} exit {rc}: " + "\n".join(o.splitlines()[:8]))
                for f in re.findall(r"replay=(\S+)", o):
                    if os.path.exists(f):
                        shutil.copy(f, f"/tmp/refactor_{name}_{c}.json")
    finally:
        shutil.rmtree(d)
    return name, lines


def main():
    names = sys.argv[1:] or sorted(p.stem for p in (VERIF / "refactors").glob("*.diff"))
    bad = 0
    with multiprocessing.pool.ThreadPool(int(os.environ.get("JOBS", "8"))) as pool:
        for name, lines in pool.imap_unordered(one, names):
            print(name, "quiet" if not lines else "ALARM")
            for l in lines:
                print("   ", l)
            sys.stdout.flush()
            bad += bool(lines)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
