"""C24: task queue, task set, closing of the event loop."""
from mon import sched

sched.install()

import asyncio
import itertools
import time

from mon import vloop
from mon.core import Expected, Family, expect, failure
from nion.utils import Process

PROPERTY = "C24"
RULE = ("(threads) threads add, clear and perform tasks on one task queue or task set under a deterministic scheduler (switching at locks and at opcodes or lines of the code) and on free running threads, tasks adding tasks themselves; the log is checked for lost, repeated, revived and misordered tasks; "
        "(single) single threaded histories compared with a model; (loop) event loops with tasks which sleep, fail, get cancelled, wait for each other and run functions in executors are closed; non-trivial: at least one task performed")
ASSUMPTIONS = ["tasks of task sets do not raise", "a task does not call perform_tasks", "tasks of the event loop finish, and wait for tasks they start"]
MUST_OBSERVE = ("performed", "added_by_task", "cleared", "superseded", "performed_by_several_threads", "scheduled_runs", "native_runs", "raised", "loop_sleeping", "loop_executor", "loop_failing", "loop_cancelled", "loop_unawaited_executor", "definite_clears", "definite_performs", "joinable", "waited_for")


# threads on a queue

def gen_ops(rng, kind, n):
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.6:
            ops.append(["add", rng.randrange(3), rng.choice([0, 0, 0, 1, 2])])
        elif r < 0.8:
            ops.append(["perform"])
        elif r < 0.9:
            ops.append(["clear", rng.randrange(3)])
        else:
            ops.append(["sleep"])
    return ops


def gen(rng, native=False):
    kind = rng.choice(["queue", "set"])
    n = 5 if not native else 30
    threads = [gen_ops(rng, kind, rng.randint(1, n)) for _ in range(rng.randint(2, 3))]
    if rng.random() < 0.04:  # many tasks
        for ops in threads:
            ops[:0] = [["add", i, 0] for i in range(rng.randint(10, 40))]
    performers = rng.choice(["one", "any", "any"])
    for i, ops in enumerate(threads):
        if performers == "one" and i:
            ops[:] = [op for op in ops if op[0] != "perform"]
    return {"kind": kind, "threads": threads, "performers": performers, "own_keys": rng.random() < 0.4, "no_clear": rng.random() < 0.4, "join": kind == "queue" and rng.random() < 0.3,
            "seed": rng.getrandbits(40), "mode": None if native else sched.gen_mode(rng)}


def gen_native(rng):
    return gen(rng, True)


def execute(case, obs):
    log = []  # (what, id, thread, key)
    numbers = itertools.count()
    is_queue = case["kind"] == "queue"
    target = Process.TaskQueue() if is_queue else Process.TaskSet()

    def add(thread, key, more):
        k = next(numbers)

        def task():
            log.append(("run_begin", k, None, key))
            for j in range(more):
                obs.count("added_by_task")
                add(("task", k), ("extra", k, j) if case["own_keys"] else key + j, 0)
            log.append(("run_end", k, None, key))
        log.append(("add_begin", k, thread, key))
        if is_queue:
            target.put(task)
        else:
            target.add_task(key, task)
        log.append(("add_end", k, thread, key))

    def perform(thread):
        p = next(numbers)
        log.append(("perform_begin", p, thread, None))
        target.perform_tasks()
        log.append(("perform_end", p, thread, None))

    def clear(thread, key):
        c = next(numbers)
        log.append(("clear_begin", c, thread, key))
        if is_queue:
            target.clear_tasks()
        else:
            target.clear_task(key)
        log.append(("clear_end", c, thread, key))

    def worker(i, ops):
        def body():
            for op in ops:
                key = (i, op[1]) if len(op) > 1 and case["own_keys"] else op[1] if len(op) > 1 else None
                if op[0] == "add":
                    add(i, key, op[2])
                elif op[0] == "perform":
                    perform(i)
                elif op[0] == "clear":
                    if not case["no_clear"]:
                        clear(i, key)
                else:
                    time.sleep(0)
        return body
    workers = [worker(i, ops) for i, ops in enumerate(case["threads"])]
    if case.get("join"):
        # a thread waits for the queue, and another performs tasks for as long as it does
        joined = []

        def joiner():
            time.sleep(0)
            log.append(("join_begin", None, None, None))
            target.join()
            log.append(("join_end", None, None, None))
            joined.append(True)

        def performer():
            while not joined:
                perform("joined")
                time.sleep(0.001)
        workers += [joiner, performer]
    if not sched.run(case, workers, obs, [target]):
        return
    for _ in range(3):  # tasks may have added tasks
        perform("end")
    check(case, log, obs, is_queue)


def check(case, log, obs, is_queue):
    pos = {}
    for p, e in enumerate(log):
        obs.ev(e[0], e[1])
        pos.setdefault((e[0], e[1]), p)
    runs = {}
    for p, e in enumerate(log):
        if e[0] == "run_begin":
            expect(e[1] not in runs, "performed-twice", "task {} was performed twice", e[1])
            runs[e[1]] = p
            obs.count("performed")
    adds = {e[1]: e for e in log if e[0] == "add_begin"}
    performs = [(pos[("perform_begin", e[1])], pos[("perform_end", e[1])], e[2]) for e in log if e[0] == "perform_begin"]
    clears = [(pos[("clear_begin", e[1])], pos[("clear_end", e[1])], e[3]) for e in log if e[0] == "clear_begin"]
    if clears:
        obs.count("cleared", len(clears))
    if len({t for _, _, t in performs}) > 2:
        obs.count("performed_by_several_threads")
    obs.nontrivial = bool(runs)
    one_performer = len({t for _, _, t in performs if t != "end"}) <= 1
    for k, e in adds.items():
        begin, end = pos[("add_begin", k)], pos[("add_end", k)]
        if k in runs:
            expect(begin < runs[k], "performed-early", "task {} was performed before it was added", k)
            expect(any(b < runs[k] < f for b, f, _ in performs), "performed-elsewhere", "task {} was performed outside of perform_tasks", k)
        # what may have discarded it
        if is_queue:
            removers = [c for c in clears if c[1] > begin]
        else:
            removers = [c for c in clears if c[2] == e[3] and c[1] > begin] + [(pos[("add_begin", j)], pos[("add_end", j)]) for j, o in adds.items() if j != k and o[3] == e[3] and pos[("add_end", j)] > begin]
            if len(removers) > 0 and k not in runs:
                obs.count("superseded")
        if not removers:
            expect(k in runs, "lost", "task {} was never performed", k)
        else:
            # a call of perform_tasks between its addition and all that could have discarded it
            first = min(r[0] for r in removers)
            for b, f, _ in performs:
                if end < b and f < first:
                    obs.count("definite_performs")
                    expect(k in runs, "lost", "task {} was never performed", k)
        # performed by the first call of perform_tasks after its addition, at the latest
        if one_performer and k in runs:
            for b, f, t in performs:
                if end < b:
                    expect(runs[k] < f, "performed-late", "task {} was not performed by the call of perform_tasks after its addition", k)
                    break
        # definitely discarded: everything which discards it took place before any call of perform_tasks which could have taken it
        for r in removers:
            if end < r[0] and not any(b < r[1] and f > begin for b, f, _ in performs):
                obs.count("definite_clears")
                expect(k not in runs, "revived", "task {} was performed after it was discarded", k)
    if ("join_end", None) in pos:
        begin, end = pos[("join_begin", None)], pos[("join_end", None)]
        for k in runs:
            if pos[("add_end", k)] < begin:
                obs.count("waited_for")
                expect(pos[("run_end", k)] < end, "waited-too-little", "waiting for the queue returned while task {} queued before was not yet performed", k)
    if is_queue and one_performer:
        order = sorted(runs, key=lambda k: runs[k])
        for a, b in itertools.combinations(order, 2):
            expect(not pos[("add_end", b)] < pos[("add_begin", a)], "order", "task {} was performed before task {} which was queued first", a, b)


# single threaded histories

def gen_single(rng):
    ops = []
    for _ in range(rng.randint(2, 16)):
        r = rng.random()
        if r < 0.55:
            ops.append(["add", rng.randrange(4), rng.choice([None, None, None, "add", "add", "readd", "clear", "raise"])])
        elif r < 0.85:
            ops.append(["perform"])
        else:
            ops.append(["clear", rng.randrange(4)])
    return {"kind": rng.choice(["queue", "set"]), "ops": ops + [["perform"], ["perform"]]}


def task_key(k):
    """keys of different types which look alike"""
    return (k // 3, str(k // 3), (k // 3,))[k % 3]


def execute_single(case, obs):
    is_queue = case["kind"] == "queue"
    target = Process.TaskQueue() if is_queue else Process.TaskSet()
    numbers = itertools.count()
    pending = []  # (key, number, what)
    ran = []

    def add(key, what):
        k = next(numbers)

        def task():
            ran.append(k)
            if len(ran) > 500:
                raise RuntimeError("performs tasks without end")
            if what == "add":
                obs.count("added_by_task")
                add(key + 1, None)
            elif what == "readd":
                obs.count("added_by_task")
                add(key, "readd")
            elif what == "clear" and not is_queue:
                target.clear_task(task_key(key))
                pending[:] = [p for p in pending if p[0] != key]
            elif what == "raise" and is_queue:
                obs.count("raised")
                raise failure(k + len(ran), "expected")
        if is_queue:
            target.put(task)
        else:
            if any(p[0] == key for p in pending):
                obs.count("superseded")
            target.add_task(task_key(key), task)
            pending[:] = [p for p in pending if p[0] != key]
        pending.append((key, k, what))

    for op in case["ops"]:
        obs.ev(op[0], len(pending))
        del ran[:]
        if op[0] == "add":
            add(op[1], op[2])
        elif op[0] == "clear":
            obs.count("cleared")
            if is_queue:
                target.clear_tasks()
                pending[:] = []
            else:
                target.clear_task(task_key(op[1]))
                pending[:] = [p for p in pending if p[0] != op[1]]
        else:
            batch = list(pending)
            pending[:] = []
            failed = False
            try:
                target.perform_tasks()
            except Expected:
                failed = True
            if is_queue:
                want = []
                for i, (key, k, what) in enumerate(batch):
                    want.append(k)
                    if what == "raise":
                        if failed:  # the others stay queued
                            pending[:0] = batch[i + 1:]
                            break
                expect(ran == want, "performed-queue", "performed {} instead of {}", ran, want)
            else:
                expect(sorted(ran) == sorted(k for _, k, _ in batch), "performed-set", "performed {} instead of {}", ran, batch)
            obs.count("performed", len(ran))
            continue
        expect(not ran, "performed-uncalled", "{} performed {}", op, ran)
    if is_queue:
        # as a queue, it knows that all of its tasks are done: waiting for it returns
        expect(target.unfinished_tasks == len(pending), "queue-unfinished", "{} tasks are unfinished instead of {}", target.unfinished_tasks, len(pending))
        obs.count("joinable")
    if is_queue:
        expect(target.qsize() == len(pending), "queue-size", "{} tasks are queued instead of {}", target.qsize(), len(pending))


# event loops

def gen_loop(rng):
    tasks = []
    for _ in range(rng.randint(0, 6)):
        kind = rng.choice(["sleep", "sleep", "executor", "fail", "cancelled", "nested", "wait_for_previous", "immediate", "executor_fail", "cancel_raises"])
        tasks.append([kind, rng.choice([0, 1, 3, 50])])
    return {"tasks": tasks, "loose": rng.randint(0, 2) if rng.random() < 0.3 else 0, "soon": rng.randint(0, 2), "pre": rng.randint(0, 3)}


def execute_loop(case, obs):
    loop = vloop.VirtualLoop()
    loop.set_exception_handler(lambda *args: None)
    begun, ended = set(), set()
    tasks = []
    soon = []

    def work(i):
        begun.add(("x", i))
        time.sleep(0.002)
        ended.add(("x", i))

    def work_fail(i):
        work(i)
        raise failure(i + len(case["tasks"]), "expected", future=True)

    async def body(i, kind, n):
        begun.add(i)
        try:
            if kind == "sleep":
                obs.count("loop_sleeping")
                await asyncio.sleep(n)
                await asyncio.sleep(n)
            elif kind == "executor":
                obs.count("loop_executor")
                await loop.run_in_executor(None, work, i)
                await asyncio.sleep(0)
            elif kind == "executor_fail":
                obs.count("loop_failing")
                await loop.run_in_executor(None, work_fail, i)
            elif kind == "fail":
                obs.count("loop_failing")
                await asyncio.sleep(n)
                raise failure(i + len(case["tasks"]), "expected", future=True)
            elif kind in ("cancelled", "cancel_raises"):
                obs.count("loop_cancelled")
                try:
                    await asyncio.sleep(1000000)
                except asyncio.CancelledError:
                    await asyncio.sleep(n)
                    if kind == "cancel_raises":
                        raise failure(i + len(case["tasks"]), "expected", future=True)
                    raise
            elif kind == "nested":
                async def inner():
                    await asyncio.sleep(n)
                    ended.add(("inner", i))
                await asyncio.gather(loop.create_task(inner()), loop.create_task(inner()))
                assert ("inner", i) in ended
            elif kind == "wait_for_previous":
                await asyncio.sleep(n)
                if i:
                    await asyncio.wait([tasks[i - 1]])
        finally:
            ended.add(i)
    closed = False
    try:
        asyncio.set_event_loop(loop)
        for i, (kind, n) in enumerate(case["tasks"]):
            tasks.append(loop.create_task(body(i, kind, n)))
        for _ in range(case["pre"]):
            loop.run_until_complete(asyncio.sleep(0))
        for i, (kind, n) in enumerate(case["tasks"]):
            if kind in ("cancelled", "cancel_raises"):
                if case["pre"] == 0:
                    loop.run_until_complete(asyncio.sleep(0))
                tasks[i].cancel()
        loose = []
        for j in range(case["loose"]):
            obs.count("loop_unawaited_executor")
            loop.run_in_executor(None, work, ("loose", j))
        for j in range(case["soon"]):
            loop.call_soon(soon.append, j)
        Process.close_event_loop(loop)
        closed = True
        expect(loop.is_closed(), "loop-open", "event loop is not closed")
        for i, t in enumerate(tasks):
            obs.ev(case["tasks"][i][0], t.done())
            expect(t.done() and i in ended, "loop-task-unfinished", "{} task did not finish before the event loop was closed", case["tasks"][i][0])
            kind = case["tasks"][i][0]
            if kind not in ("cancelled", "cancel_raises"):
                expect(not t.cancelled(), "loop-task-cancelled", "{} task was cancelled", kind)
        for b in begun:
            expect(b in ended, "loop-function-unfinished", "function {} in executor did not finish before the event loop was closed", b)
        for j in range(case["loose"]):
            expect(("x", ("loose", j)) in ended, "loop-function-unfinished", "function in executor did not finish before the event loop was closed")
        expect(soon == list(range(case["soon"])), "loop-callbacks", "callbacks {} were called instead of {}", soon, case["soon"])
        obs.nontrivial = bool(tasks)
        obs.count("performed")
        for t in tasks:
            if not t.cancelled():
                t.exception()
    finally:
        if not loop.is_closed():
            vloop.finish(loop)
        asyncio.set_event_loop(None)


FAMILIES = [Family("threads", gen, execute, 40000, 200000), Family("single", gen_single, execute_single, 53000, 212000), Family("loop", gen_loop, execute_loop, 10000, 40000), Family("native", gen_native, execute, 150, 3000)]
