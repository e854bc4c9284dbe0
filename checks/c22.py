"""C22: thread pool."""
from mon import sched

sched.install()

import itertools
import threading
import time

from mon.core import Family, expect, failure
from nion.utils import ThreadPool

PROPERTY = "C22"
RULE = ("threads queue functions (which take time, raise, or queue more functions) on a pool run by its own threads, or by one thread calling run_all and run_one, while another thread closes it, under a deterministic scheduler with virtual time "
        "(switching at locks and at opcodes or lines of the code) and on free running threads; also single threaded histories; single tasks executed and canceled by several threads; the log of queueing, runs and close is checked; non-trivial: at least one function ran")
ASSUMPTIONS = ["run_all and run_one are called from one thread at a time and not together with pool threads", "the pool is closed once, not from within one of its functions"]
MUST_OBSERVE = ("runs", "raised", "not_run_because_closed", "closed_while_running", "queued_after_close", "queued_from_function", "scheduled_runs", "native_runs", "ordered_pairs", "run_one", "run_all", "task_runs", "task_canceled", "task_called_from_function", "started_twice")


def gen(rng, native=False):
    threads = []
    for _ in range(rng.randint(1, 3)):
        ops = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.75:
                ops.append(["queue", rng.choice([0, 0, 0.1, 1.0]), rng.random() < 0.15, 1 if rng.random() < 0.2 else 0])
            else:
                ops.append(["sleep", rng.choice([0, 0.1, 1.0])])
        threads.append(ops)
    pool = rng.choice([0, 1, 2, 3]) if rng.random() < 0.95 else rng.choice([4, 6, 9, 16, 20])
    if pool > 3:  # many functions
        threads[0] = [op for op in threads[0] if op[0] == "queue"] * 8 or threads[0]
    runs = []
    if pool == 0:
        for _ in range(rng.randint(1, 6)):
            runs.append(rng.choice(["run_all", "run_one", "sleep"]))
    return {"threads": threads, "pool": pool, "runs": runs, "start_late": rng.random() < 0.3, "first": rng.choice([0, 0, rng.randrange(4)]), "close": rng.choice(["quiet", "race", "race", "none"]), "close_after": rng.choice([0, 0, 0.05, 0.1, 1.0]),
            "seed": rng.getrandbits(40), "mode": None if native else sched.gen_mode(rng)}


def gen_native(rng):
    c = gen(rng, True)
    c["threads"] = [t * 3 for t in c["threads"]]
    return c


class World:
    def __init__(self, case, obs):
        self.case, self.obs = case, obs
        self.log = []
        self.native = case.get("mode", 0) is None
        self.pool = ThreadPool.ThreadPool()
        self.numbers = itertools.count()
        self.next = 0

    def nap(self, t):
        time.sleep(0 if self.native else t)

    def queue(self, duration, raises, more):
        k = next(self.numbers)
        self.next = k + 1

        def fn():
            self.log.append(("run_begin", k))
            if duration:
                self.nap(duration)
            for _ in range(more):
                self.obs.count("queued_from_function")
                self.queue(0, False, 0)
            self.log.append(("run_end", k))
            if raises:
                self.obs.count("raised")
                raise failure(k + self.obs.counters["raised"] + len(self.log), "function raises")
        self.log.append(("queue_begin", k))
        self.pool.queue_fn(fn, "description" if k % 2 else None)
        self.log.append(("queue_end", k))


def execute(case, obs):
    w = World(case, obs)
    log = w.log
    go, done = threading.Event(), threading.Event()
    finished = []

    def worker(i, ops):
        def body():
            go.wait()
            for op in ops:
                if op[0] == "queue":
                    w.queue(*op[1:])
                else:
                    w.nap(op[1])
            finished.append(i)
            if len(finished) == len(case["threads"]):
                done.set()
        return body

    ran = threading.Event()

    def runner():
        go.wait()
        for r in case["runs"]:
            if r == "sleep":
                w.nap(0.1)
            else:
                obs.count(r)
                getattr(w.pool, r)()
        if case["close"] in ("quiet", "none"):
            done.wait()
            obs.count("run_all")
            w.pool.run_all()
        ran.set()

    def main():
        def start():
            if case["pool"] == 16:
                w.pool.start()  # has a default
            else:
                first = case.get("first", 0) % case["pool"]
                if first:  # threads may be added by a further start
                    w.pool.start(first)
                    obs.count("started_twice")
                w.pool.start(case["pool"] - first)
        if case["pool"] and not case["start_late"]:
            start()
        go.set()
        if case["start_late"] and case["pool"]:
            w.nap(0.1)
            start()
        quiet = case["close"] in ("quiet", "none")
        if quiet:
            if case["threads"]:
                done.wait()
            if not case["pool"]:
                ran.wait()
            if w.native:
                end = time.monotonic() + 20
                while len([1 for e in list(log) if e[0] == "run_end"]) < len([1 for e in list(log) if e[0] == "queue_end"]) and time.monotonic() < end:
                    time.sleep(0.001)
            else:
                time.sleep(1000)
        else:
            w.nap(case["close_after"])
        log.append(("close_begin", None))
        w.pool.close()
        log.append(("close_end", None))
        if not quiet and case["threads"]:
            done.wait()
        log.append(("late", None))
        obs.count("queued_after_close")
        w.queue(0, False, 0)
        if not case["pool"]:
            ran.wait()
            w.pool.run_all()
            w.pool.run_one()
        w.nap(100)

    fns = [main] + [worker(i, ops) for i, ops in enumerate(case["threads"])] + ([runner] if not case["pool"] else [])
    if not case["threads"]:
        done.set()
    if not sched.run(case, fns, obs, [w, go, done, ran]):
        return
    expect(w.native or not obs.left_threads, "threads-left", "{} threads of the pool have not ended though it was closed", obs.left_threads)
    check(log, obs, case["close"] in ("quiet", "none"), ordered=case["pool"] == 0, native=w.native)


def check(log, obs, all_must_run, ordered, native=False):
    pos = {e: p for p, e in reversed(list(enumerate(log)))}
    close_begin = pos.get(("close_begin", None), len(log))
    close_end = pos.get(("close_end", None), len(log))
    counts = {}
    running = set()
    order = []
    for p, (what, k) in enumerate(log):
        obs.ev(what, k)
        if what == "run_begin":
            counts[k] = counts.get(k, 0) + 1
            expect(counts[k] == 1, "run-twice", "function {} ran {} times", k, counts[k])
            expect(p < close_end, "started-after-close", "function {} started after close returned", k)
            expect(pos[("queue_begin", k)] < p, "run-before-queued", "function {}", k)
            running.add(k)
            order.append(k)
            obs.count("runs")
        elif what == "run_end":
            running.discard(k)
            if close_begin < p < close_end:
                obs.count("closed_while_running")
        elif what == "close_end":
            expect(not running, "running-after-close", "functions {} were running when close returned", running)
    for (what, k), p in pos.items():
        if what == "queue_end":
            if p < close_begin and k not in counts:
                if all_must_run:
                    expect(False, "not-run", "function {} was not run", k)
                obs.count("not_run_because_closed")
            if pos[("queue_begin", k)] > close_end:
                expect(k not in counts, "run-though-closed", "function {} queued after close ran", k)
    if ordered:
        for i, a in enumerate(order):
            for b in order[i + 1:]:
                # b ran after a, so b must not have been queued before a
                expect(not pos[("queue_end", b)] < pos[("queue_begin", a)] if ("queue_end", b) in pos else True, "run-order", "{} ran before {} which was queued first", a, b)
                obs.count("ordered_pairs")
    obs.nontrivial = bool(counts)


# single threaded histories

def gen_single(rng):
    return {"ops": [rng.choice([["queue", rng.random() < 0.15, 1 if rng.random() < 0.2 else 0], ["queue", False, 0], ["run_one"], ["run_one"], ["run_all"], ["run_all"]]) for _ in range(rng.randint(2, 20))]
            + ([["close"]] + [["queue", False, 0], ["run_one"], ["run_all"]] if rng.random() < 0.5 else [["run_all"]])}


def execute_single(case, obs):
    w = World({"mode": 0}, obs)
    pending = []
    must = []
    closed = False
    for op in case["ops"]:
        before = len(w.log)
        if op[0] == "queue":
            k = w.next
            w.queue(0, *op[1:])
            if not closed:
                pending.append((k, op[2]))
            want = []
        elif op[0] == "close":
            w.log.append(("close_begin", None))
            w.pool.close()
            w.log.append(("close_end", None))
            pending = []
            closed = True
            want = []
        else:
            want = []
            n = 0
            while pending and (op[0] == "run_all" or n < 1):
                k, more = pending.pop(0)
                want.append(k)
                # functions queued meanwhile come last
                nxt = w_next(w, want, pending, more)
                pending.extend(nxt)
                n += 1
            getattr(w.pool, op[0])()
        got = [k for what, k in w.log[before:] if what == "run_begin"]
        expect(got == want, "run-sequence", "{} ran {} instead of {}", op[0], got, want)
    check(w.log, obs, False, True)


def w_next(w, want, pending, more):
    """numbers which functions queued by a running function will get"""
    base = getattr(w, "predicted", 0)
    start = max(w.next, base)
    w.predicted = start + more
    return [(start + i, 0) for i in range(more)]


# tasks by themselves

def gen_task(rng):
    return {"threads": [[rng.choice(["execute", "execute", "cancel", "sleep"]) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))], "duration": rng.choice([0, 0.1, 1.0]), "raises": rng.random() < 0.3, "inside": rng.choice([None, None, "cancel", "execute"]),
            "seed": rng.getrandbits(40), "mode": sched.gen_mode(rng)}


def execute_task(case, obs):
    log = []

    def fn():
        log.append(("run_begin", None))
        time.sleep(case["duration"])
        if case.get("inside") and len(log) < 100:
            obs.count("task_called_from_function")
            getattr(task, case["inside"])()
        log.append(("run_end", None))
        if case["raises"]:
            raise failure(int(case["duration"] * 100) + len(str(case)), "function raises")

    def finished(task):
        log.append(("finished", task))

    task = ThreadPool.ThreadPoolTask(fn, finished, None)

    def body(i, ops):
        def run():
            for j, op in enumerate(ops):
                if op == "sleep":
                    time.sleep(0.1)
                else:
                    log.append((op + "_begin", (i, j)))
                    getattr(task, op)()
                    log.append((op + "_end", (i, j)))
        return run

    if not sched.run(case, [body(i, ops) for i, ops in enumerate(case["threads"])], obs, [task]):
        return
    kinds = [w for w, k in log]
    for w in kinds:
        obs.ev(w)
    runs = kinds.count("run_begin")
    calls = kinds.count("execute_end") + kinds.count("cancel_end")
    expect(runs <= 1, "task-run-twice", "the function of the task ran {} times", runs)
    expect(kinds.count("finished") == (1 if calls else 0), "task-finished", "finished was called {} times", kinds.count("finished"))
    first = lambda w: kinds.index(w) if w in kinds else len(kinds)
    expect(all(k is task for w, k in log if w == "finished"), "task-finished", "finished got something else than the task")
    if calls:
        obs.count("task_runs", runs)
        if runs:
            expect(first("run_end") < first("finished"), "task-finished-early", "finished was called before the function ended")
            for p, (w, k) in enumerate(log):
                if w.endswith("_end") and k is not None and first("run_begin") < p:
                    expect(first("run_end") < p, "task-not-waited", "{} returned while the function was running", w[:-4])
            expect(first("cancel_end") > first("run_begin"), "task-run-after-cancel", "the function ran after cancel returned")
        else:
            expect("cancel_begin" in kinds, "task-not-run", "the function was not run though not canceled")
            obs.count("task_canceled")
    obs.nontrivial = calls > 0


FAMILIES = [Family("scheduled", gen, execute, 13000, 200000), Family("single", gen_single, execute_single, 5400, 100000), Family("native", gen_native, execute, 160, 3000),
            Family("task", gen_task, execute_task, 4000, 60000)]
