"""Lists the lines of nion/utils which no check executes. usage: linecov.py [SCALE]"""
import dis, importlib, os, pathlib, subprocess, sys, types, json

here = pathlib.Path(__file__).resolve().parent.parent
CODE = "/repo/nion/utils/"


def one(check, out, scale):
    os.environ.update(VERIF_SCALE=scale)
    sys.path[0:1] = ["/repo", str(here)]
    hit = {}
    mon = sys.monitoring
    mon.use_tool_id(3, "linecov")
    mon.set_events(3, mon.events.LINE)

    def line(code, n):
        if code.co_filename.startswith(CODE):
            hit.setdefault(code.co_filename, set()).add(n)
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    module = importlib.import_module("checks." + check)
    from mon import core
    import time
    if hasattr(module, "setup"):
        module.setup()
    core.run_worker(module, 1, "quick", 0, 8, time.monotonic() + 200, core.load_findings())
    json.dump({k: sorted(v) for k, v in hit.items()}, open(out, "w"))
    os._exit(0)


def lines(code):
    out = {l for _, _, l in code.co_lines() if l}
    out.discard(code.co_firstlineno)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            out |= lines(c)
    return out


if len(sys.argv) > 2:
    one(sys.argv[1], sys.argv[2], sys.argv[3])
scale = sys.argv[1] if len(sys.argv) > 1 else "0.3"
hit = {}
for c in sorted(p.stem for p in (here / "checks").glob("c*.py")):
    out = f"/tmp/linecov.{c}.json"
    r = subprocess.run(["/opt/venv/bin/python", __file__, c, out, scale], capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    if not os.path.exists(out):
        print(c, "failed", r.stderr[-500:])
        continue
    for k, v in json.load(open(out)).items():
        hit.setdefault(k, set()).update(v)
    os.remove(out)
for p in sorted(pathlib.Path(CODE).glob("*.py")):
    src = p.read_text()
    all_ = lines(compile(src, str(p), "exec"))
    missed = sorted(all_ - hit.get(str(p), set()))
    if missed:
        print(p.name, f"{len(all_) - len(missed)}/{len(all_)}")
        for n in missed:
            print("   ", n, src.splitlines()[n - 1])
