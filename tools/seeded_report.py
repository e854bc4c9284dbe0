"""Runs the checks on each planted change (in scratch copies) and rewrites the table at the end of DESIGN.md.

usage: seeded_report.py [ID ...] (env: JOBS, SCALE); results are kept in tools/seeded_results.json, IDs not given keep theirs
"""
import json, multiprocessing.pool, os, pathlib, re, shutil, subprocess, sys
import mutate

VERIF = pathlib.Path(__file__).resolve().parent.parent
RESULTS = VERIF / "tools" / "seeded_results.json"
MARK = "<!-- generated by tools/seeded_report.py -->"


def one(name):
    d = mutate.prepare("rf-seeded-" + name)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_WORKERS="1", VERIF_SCALE=os.environ.get("SCALE", "1"), PYTHONPATH=str(d / "repo"))
    meta = json.loads((VERIF / "seeded" / name / "meta.json").read_text())
    r = dict(property=meta["property"], needs=meta["needs"], caught={})
    try:
        diff = VERIF / "seeded" / name / "patch.diff"
        if subprocess.run(["git", "-C", str(d / "repo"), "apply", str(diff)]).returncode:
            r["error"] = "does not apply"
            return name, r
        files = re.findall(r"^\+\+\+ b/nion/utils/(\w+)\.py", diff.read_text(), re.M)
        checks = [meta["property"]] + [c for f in files for c in mutate.CHECKS.get(f, "").split()]
        for c in dict.fromkeys(checks):
            rc, o = mutate.run(["bash", "check.sh", c], d / "verif", 900, env)
            if rc == 1 and f"VIOLATION property={c}" in o:
                m = re.search(r"^([a-z0-9-]+): ", o, re.M)
                r["caught"][c] = m.group(1) if m else "violation"
            elif rc != 0:
                r.setdefault("no_answer", {})[c] = rc
    finally:
        shutil.rmtree(d)
    return name, r


def main():
    results = json.loads(RESULTS.read_text()) if RESULTS.exists() else {}
    existing = sorted(p.name for p in (VERIF / "seeded").iterdir())
    results = {k: v for k, v in results.items() if k in existing}
    names = sys.argv[1:] or [n for n in existing]
    with multiprocessing.pool.ThreadPool(int(os.environ.get("JOBS", "8"))) as pool:
        for name, r in pool.imap_unordered(one, names):
            results[name] = r
            print(name, r["property"], "caught by", r["caught"] or "NONE", r.get("error", ""), r.get("no_answer", ""))
            sys.stdout.flush()
    RESULTS.write_text(json.dumps(results, indent=1, sort_keys=True) + "\n")
    lines = [MARK, "", "| change | property | needs | caught by (family of cases) |", "|---|---|---|---|"]
    for name in sorted(results):
        r = results[name]
        caught = ", ".join(f"{c} ({k})" for c, k in sorted(r["caught"].items(), key=lambda x: (x[0] != r["property"], x[0])))
        lines.append(f"| {name} | {r['property']} | {r['needs'].replace('|', '/')} | {caught or '**none**'} |")
    p = VERIF / "DESIGN.md"
    p.write_text(p.read_text().split(MARK)[0].rstrip() + "\n\n" + "\n".join(lines) + "\n")


if __name__ == "__main__":
    main()
