"""Runner shared by all checks: workload generation, monitoring, verdicts, replay files and evidence.

A check module (checks/cNN.py) defines

    PROPERTY = "CNN"
    RULE = "how cases are made and what makes one non-trivial"
    FAMILIES = [Family(name, gen, execute, quick, thorough), ...]

gen(rng) returns a JSON-able case (a dict; if it has an "ops" list it can be shrunk by dropping ops), and
execute(case, obs) runs it against the code in /repo, recording what the monitors observe with obs.ev()/obs.count()
and raising Violation as soon as an oracle is contradicted. Verdicts are three-valued: 0 held on everything observed,
1 violated (with replay file), 2 inconclusive or error of the check.
"""
import collections
import hashlib
import io
import json
import os
import pathlib
import pickle
import queue
import random
import signal
import sys
import tempfile
import time
import traceback
import typing

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
REPO_CODE = str(REPO / "nion") + os.sep


SCALE = float(os.environ.get("VERIF_SCALE", "1"))


class Violation(Exception):
    """An oracle has been contradicted. kind names the mechanism (stable across seeds)."""
    def __init__(self, kind: str, message: str = ""):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


class Inconclusive(Exception):
    pass


class Expected(Exception):
    """Base of the exceptions which callbacks of the harness raise on purpose."""


class _Unprintable:
    def __str__(self):
        raise ValueError("cannot be printed")


_failures = [type("Expected" + b.__name__, (Expected, b), {}) for b in (ValueError, KeyError, OSError, RuntimeError, AssertionError, AttributeError, TypeError, queue.Empty, TimeoutError, ZeroDivisionError,
                                                                     NotImplementedError, BufferError, ImportError, EOFError, MemoryError, StopAsyncIteration, Warning)]
_failures += [Expected, type("ExpectedUnprintable", (_Unprintable, Expected), {})]
_failures += [type("ExpectedStop", (Expected, StopIteration), {})]  # last; cannot be set on futures


def failure(n, *args, future=False):
    """an exception, of a kind picked by n"""
    return _failures[n * 7 % (len(_failures) - future)](*args)


class Hang(BaseException):
    """Raised in the main thread when a single execution used up its budget of CPU time."""


CASE_CPU_S = 40.0  # executions take milliseconds to a second or two; measured in CPU time so that load does not matter


def _on_cpu_limit(signum, frame):
    raise Hang()


class Blocked(BaseException):
    """Raised in the main thread when an execution neither ends nor uses CPU time."""


BLOCKED_TICKS, TICK_S = 9, 5.0  # 45 s with next to no CPU time: blocked for good, not starved


class _Watch:
    ticks = 0
    cpu = 0.0

    @classmethod
    def start(cls):
        cls.ticks, cls.cpu = 0, time.process_time()
        signal.signal(signal.SIGALRM, cls.tick)
        signal.setitimer(signal.ITIMER_REAL, TICK_S, TICK_S)

    @classmethod
    def stop(cls):
        signal.setitimer(signal.ITIMER_REAL, 0)

    @classmethod
    def tick(cls, signum, frame):
        cpu = time.process_time()
        cls.ticks = cls.ticks + 1 if cpu - cls.cpu < 0.02 else 0
        cls.cpu = cpu
        if cls.ticks >= BLOCKED_TICKS:
            cls.ticks = 0
            raise Blocked()


def expect(cond, kind, message="", *args):
    if not cond:
        raise Violation(kind, message.format(*args) if args else message)


class Family(typing.NamedTuple):
    name: str
    gen: typing.Callable
    execute: typing.Callable
    quick: int
    thorough: int
    min_events: int = 1  # fewer observed events than this: case is trivial
    exact: bool = False  # gen takes (rng, index) and enumerates


class Obs:
    """What the monitors have observed in one execution."""
    __slots__ = ("trace", "counters", "states", "nontrivial", "closers", "left_threads", "forced_time")

    def __init__(self):
        self.trace = []
        self.counters = collections.Counter()
        self.states = set()
        self.nontrivial = True
        self.closers = []
        self.left_threads = 0
        self.forced_time = 0

    def ev(self, *event):
        self.trace.append(event)

    def count(self, name, n=1):
        self.counters[name] += n

    def state(self, *s):
        self.states.add(hash(s))


class QuietStream(io.TextIOBase):
    """Replaces stderr while the code under test runs; counts the exceptions which events have contained."""
    def __init__(self):
        self.contained = 0
        self.tail = collections.deque(maxlen=400)

    def write(self, s):
        if s.startswith("Event Fire Traceback"):
            self.contained += 1
            self.tail.clear()
        self.tail.append(s)
        return len(s)


def _in_repo(tb) -> bool:
    return any(frame.filename.startswith(REPO_CODE) for frame in traceback.extract_tb(tb))


def run_case(family: Family, case) -> typing.Tuple[typing.Optional[Violation], Obs]:
    """Execute a case. Exceptions are violations, except for those that say that the machine is out of something."""
    obs = Obs()
    old_stderr = sys.stderr
    quiet = QuietStream()
    sys.stderr = quiet
    signal.signal(signal.SIGPROF, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S, 2.0)
    _Watch.start()
    try:
        family.execute(case, obs)
        if obs.counters["step_limit"] and isinstance(case, dict) and "max_steps" not in case:
            # too many steps: unfair schedule or no progress? try again with a fair schedule and many more steps
            obs2 = Obs()
            family.execute({**case, "mode": {"kind": "random", "p": 0.3, "q": 0.5, "trace": None}, "max_steps": 1000000}, obs2)
            if obs2.counters["step_limit"]:
                raise Violation("no-progress", "threads keep running but do not get to an end")
        return None, obs
    except Hang:
        v = Violation("nontermination", f"the execution did not end within {CASE_CPU_S} s of CPU time")
        v.diag = "".join(quiet.tail)[-4000:]
        return v, obs
    except Blocked as b:
        v = Violation("blocked", f"the execution waits forever at {''.join(traceback.format_tb(b.__traceback__)[-6:])}")
        v.diag = "".join(quiet.tail)[-4000:]
        return v, obs
    except Violation as v:
        v.diag = "".join(quiet.tail)[-4000:]
        return v, obs
    except Inconclusive:
        raise
    except Exception as e:
        if _in_repo(e.__traceback__):
            v = Violation("raised-" + type(e).__name__, "operation raised unexpectedly: " + "".join(traceback.format_exception(e))[-3000:])
        elif isinstance(e, (MemoryError, OSError)) or "start new thread" in str(e):
            raise
        else:
            # the monitor could not use what the code returned or left behind (None instead of a list, say); this does not happen on correct code.
            v = Violation("unusable-" + type(e).__name__, "monitor stopped by: " + "".join(traceback.format_exception(e))[-3000:])
        v.diag = "".join(quiet.tail)[-4000:]
        return v, obs
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        _Watch.stop()
        sys.stderr = old_stderr
        for closer in obs.closers:
            try:
                closer()
            except Exception:
                pass
        obs.counters["contained_listener_exceptions"] += quiet.contained


def shrink(family: Family, case, kind: str, deadline: float):
    """Drop operations while the same kind of violation remains."""
    def fails(c):
        try:
            v, _ = run_case(family, c)
        except Exception:
            return False
        return v is not None and v.kind == kind
    if not isinstance(case, dict):
        return case
    for field in [k for k, v in case.items() if isinstance(v, list) and k in ("ops", "init", "threads")]:
        ops = case[field]
        n = 2
        while len(ops) >= 2 and time.monotonic() < deadline:
            chunk = max(1, len(ops) // n)
            reduced = False
            for start in range(0, len(ops), chunk):
                if time.monotonic() >= deadline:
                    break
                trial = ops[:start] + ops[start + chunk:]
                if fails({**case, field: trial}):
                    ops = trial
                    case = {**case, field: ops}
                    n = max(n - 1, 2)
                    reduced = True
                    break
            if not reduced:
                if chunk == 1:
                    break
                n = min(n * 2, len(ops))
        if len(ops) == 1 and fails({**case, field: []}):
            case = {**case, field: []}
    return case


def case_rng(seed, prop, family, index):
    return random.Random(f"{seed}|{prop}|{family}|{index}")


class Result:
    def __init__(self):
        self.evaluations = 0
        self.signatures = set()
        self.states = set()
        self.counters = collections.Counter()
        self.per_family = {}
        self.samples = []
        self.violations = []  # (family name, case, kind, message)
        self.truncated = False
        self.known = {}

    def merge(self, other):
        self.evaluations += other.evaluations
        self.signatures |= other.signatures
        self.states |= other.states
        self.counters.update(other.counters)
        for k, v in other.per_family.items():
            self.per_family.setdefault(k, collections.Counter()).update(v)
        self.samples.extend(other.samples)
        self.violations.extend(other.violations)
        self.truncated = self.truncated or other.truncated
        self.known.update(other.known)


def _sig(family, obs):
    h = hashlib.blake2b(digest_size=8)
    h.update(family.encode())
    for e in obs.trace:
        h.update(repr(e).encode())
    return h.digest()


def _short(x, n=1500):
    s = json.dumps(x, default=repr)
    return x if len(s) <= n else s[:n] + "..."


def run_worker(module, seed, tier, worker, workers, deadline, findings) -> Result:
    r = Result()
    SLICES = 10  # the families take turns
    for family, part in [(family, part) for part in range(SLICES) for family in module.FAMILIES]:
        total = max(1, int((family.quick if tier == "quick" else family.thorough) * SCALE))
        pf = r.per_family.setdefault(family.name, collections.Counter())
        indexes = range(worker, total, workers)
        for index in indexes[part * len(indexes) // SLICES:(part + 1) * len(indexes) // SLICES]:
            if time.monotonic() > deadline:
                r.truncated = True
                break
            rng = case_rng(seed, module.PROPERTY, family.name, index)
            case = family.gen(rng, index) if family.exact else family.gen(rng)
            v, obs = run_case(family, case)
            r.evaluations += 1
            pf["cases"] += 1
            pf["events"] += len(obs.trace)
            r.counters.update(obs.counters)
            if len(r.states) < 2000000:
                r.states |= obs.states
            if obs.nontrivial and len(obs.trace) >= family.min_events:
                s = _sig(family.name, obs)
                if s not in r.signatures:
                    r.signatures.add(s)
                    pf["distinct"] += 1
            if pf["cases"] == 1 and worker == 0:
                r.samples.append({"family": family.name, "case": _short(case), "observed": [repr(e) for e in obs.trace[:12]]})
            if v is not None:
                key = (module.PROPERTY, v.kind)
                if key in findings:
                    r.known[v.kind] = findings[key]
                    continue
                if v.kind not in ("nontermination", "blocked"):
                    case = shrink(family, case, v.kind, min(time.monotonic() + 20, deadline + 20))
                v2, obs2 = run_case(family, case) if v.kind not in ("nontermination", "blocked") else (v, obs)
                if v2 is None:  # depends on something outside the case: report the original
                    v2 = v
                r.violations.append((family.name, case, v2.kind, v2.message, getattr(v2, "diag", ""), [repr(e) for e in obs2.trace[-30:]]))
                return r
    return r


def load_findings():
    """known_findings.txt lines: 'finding: property=<id> key=<kind> <what fails>' and 'fixed: ...' (which suppress nothing)."""
    findings = {}
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("finding:"):
                _, prop, key, what = line.split(None, 3)
                findings[(prop.split("=", 1)[1], key.split("=", 1)[1])] = what
    return findings


def check_repo_source():
    import nion.utils.Event
    if not nion.utils.Event.__file__.startswith(REPO_CODE):
        print(f"ERROR nion.utils comes from {nion.utils.Event.__file__}")
        sys.exit(2)


def main(module, argv):
    prop = module.PROPERTY
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()
    check_repo_source()
    if hasattr(module, "setup"):
        module.setup()
    if "--replay" in argv:
        return replay(module, argv[argv.index("--replay") + 1])
    wall = float(os.environ.get("VERIF_WALL", "400" if tier == "quick" else "780"))
    deadline = t0 + wall
    findings = load_findings()
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    result = Result()
    error = None
    with tempfile.TemporaryDirectory(prefix="verif_") as tmp:
        pids = {}
        sys.stdout.flush()
        sys.stderr.flush()
        for worker in range(workers):
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    try:
                        r = run_worker(module, seed, tier, worker, workers, deadline, findings)
                    except BaseException:
                        r = traceback.format_exc()
                    with open(os.path.join(tmp, f"t{worker}"), "wb") as f:
                        pickle.dump(r, f)
                    os.rename(os.path.join(tmp, f"t{worker}"), os.path.join(tmp, f"w{worker}"))
                    code = 0
                finally:
                    os._exit(code)
            pids[pid] = worker
        hard = deadline + 60
        while pids:
            pid, _ = os.waitpid(-1, os.WNOHANG)
            if pid in pids:
                worker = pids.pop(pid)
                path = os.path.join(tmp, f"w{worker}")
                if os.path.exists(path):
                    with open(path, "rb") as f:
                        r = pickle.load(f)
                    if isinstance(r, Result):
                        result.merge(r)
                        if r.violations:  # no need to wait for the others
                            for p in pids:
                                os.kill(p, signal.SIGKILL)
                    else:
                        error = r
                elif not result.violations:
                    error = f"worker {worker} died"
            elif time.monotonic() > hard:
                for p in pids:
                    os.kill(p, signal.SIGKILL)
                error = error or "watchdog: a workload did not finish (inconclusive)"
                hard += 1e9
            else:
                time.sleep(0.01)
    status = 0
    if result.violations:
        status = 1
    elif error:
        status = 2
        print("ERROR " + str(error))
    else:
        for family in module.FAMILIES:
            pf = result.per_family.get(family.name, {})
            if not pf.get("distinct"):
                print(f"INCONCLUSIVE family {family.name}: no non-trivial execution observed")
                status = 2
        for name in getattr(module, "MUST_OBSERVE", ()):
            if not result.counters.get(name):
                print(f"INCONCLUSIVE {name} never observed")
                status = 2
    for kind, what in sorted(result.known.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    if result.violations:
        family_name, case, kind, message, diag, tail = result.violations[0]
        rdir = VERIF / "evidence" / "replay"
        rdir.mkdir(parents=True, exist_ok=True)
        path = rdir / f"{prop}.json"
        path.write_text(json.dumps({"property": prop, "family": family_name, "case": case, "kind": kind, "message": message, "observed_tail": tail, "diagnostics": diag, "seed": seed, "tier": tier}, indent=1, default=repr))
        print(f"{family_name}: {kind}: {message[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    wall_s = time.monotonic() - t0
    coverage = {
        "evaluations": result.evaluations,
        "distinct_nontrivial": len(result.signatures),
        "rule": module.RULE,
        "samples": result.samples[:8],
        "events_observed": sum(pf.get("events", 0) for pf in result.per_family.values()),
        "distinct_states": len(result.states),
        "families": {k: dict(v) for k, v in result.per_family.items()},
        "counters": dict(sorted(result.counters.items())),
        "stopped_by_time": result.truncated,
        "known_findings_seen": sorted(result.known),
    }
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
                "assumptions": list(getattr(module, "ASSUMPTIONS", [])), "wall_s": round(wall_s, 3), "violations": len(result.violations)}
    edir = VERIF / "evidence"
    edir.mkdir(exist_ok=True)
    tmpf = edir / f".{prop}.tmp"
    tmpf.write_text(json.dumps(evidence, indent=1, default=repr))
    os.replace(tmpf, edir / f"{prop}.json")
    print(f"{prop} {tier} seed={seed}: {result.evaluations} executions, {len(result.signatures)} distinct non-trivial, "
          f"{coverage['events_observed']} events, {len(result.states)} states, {wall_s:.1f}s, exit {status}")
    return status


def replay(module, path):
    d = json.loads(pathlib.Path(path).read_text())
    family = next(f for f in module.FAMILIES if f.name == d["family"])
    v, obs = run_case(family, d["case"])
    for e in obs.trace:
        print("  ", e)
    if v is None:
        print("replay: held")
        return 0
    print(f"replay: {v}")
    print(f"VIOLATION property={module.PROPERTY} replay={path}")
    return 1
