"""C23: thread dispatcher."""
from mon import sched

sched.install()

import time

from mon.core import Family, expect, failure
from nion.utils import ThreadPool

PROPERTY = "C23"
RULE = ("several threads trigger a dispatcher (waiting or not, also from within the function and before start) while the function takes time or raises, and another thread closes it at some point, under a deterministic scheduler with virtual time "
        "(random and priority based, switching at locks and at opcodes or lines of the code) and on free running threads; the log of triggers, invocations and close is checked; non-trivial: at least one invocation")
ASSUMPTIONS = ["the dispatcher is closed once, not from within its function", "time.time is the clock the dispatcher uses; it is virtual under the scheduler"]
MUST_OBSERVE = ("invocations", "waits_returned", "raised", "closed_during_invocation", "interval_checks", "scheduled_runs", "native_runs", "triggers_before_close_served", "promptness_checks")


def gen(rng, native=False):
    threads = []
    many = rng.random() < 0.06
    for _ in range(rng.randint(1, 3) if not many else rng.randint(4, 8)):
        ops = []
        for _ in range(rng.randint(1, 4) if not many else 1):
            r = rng.random()
            ops.append(["trigger"] if r < 0.45 else ["wait"] if r < 0.7 else ["sleep", rng.choice([0, 0.1, 0.5, 0.6, 1.0, 2.0])])
        threads.append(ops)
    return {"threads": threads, "interval": rng.choice([0, 0.001, 0.5, 0.5, 1.0, rng.choice([0.5, 2.0, 45.0, 1000.0])]), "fn": [[rng.choice([0, 0, 0.1, 0.5, rng.choice([1.0, 1.0, 8.0, 70.0])]), rng.random() < 0.15, rng.random() < 0.15] for _ in range(6)],
            "many": many, "close": rng.choice(["quiet", "quiet", "race", "race", "join"]), "close_after": rng.choice([0, 0, 0.1, 0.5, 0.7, 1.5]), "before_start": rng.random() < 0.2,
            "seed": rng.getrandbits(40), "mode": None if native else sched.gen_mode(rng)}


def gen_native(rng):
    c = gen(rng, True)
    c["interval"] = rng.choice([0, 0.0005])
    c["fn"] = [[0, r, t] for d, r, t in c["fn"]]
    c["threads"] = [[op if op[0] != "sleep" else ["sleep", 0] for op in t] for t in c["threads"]]
    c["close_after"] = 0
    return c


def execute(case, obs):
    log = []
    state = {"n": 0, "in_fn": 0}
    native = case["mode"] is None

    def fn():
        k = state["n"]
        state["n"] += 1
        log.append(("inv_begin", k, time.time()))
        duration, raises, retrigger = case["fn"][k % len(case["fn"])]
        if duration and not native:
            time.sleep(duration)
        if retrigger and k < 4:
            log.append(("trig_begin", ("fn", k)))
            dispatcher.trigger()
            log.append(("trig_end", ("fn", k), time.time()))
        log.append(("inv_end", k, time.time()))
        if raises:
            obs.count("raised")
            raise failure(k + len(log), "function raises")

    holder = {}
    finished = []

    def worker(i, ops):
        def body():
            holder["go"].wait()
            for j, op in enumerate(ops):
                if op[0] == "sleep":
                    time.sleep(op[1] if not native else 0)
                elif op[0] == "trigger":
                    log.append(("trig_begin", (i, j)))
                    dispatcher.trigger()
                    log.append(("trig_end", (i, j), time.time()))
                else:
                    log.append(("wait_begin", (i, j)))
                    dispatcher.trigger(wait=True)
                    log.append(("wait_end", (i, j), time.time()))
            finished.append(i)
            if len(finished) == len(case["threads"]):
                holder["done"].set()
        return body

    def main():
        if case["before_start"]:
            log.append(("trig_begin", "early"))
            dispatcher.trigger()
            log.append(("trig_end", "early", time.time()))
        log.append(("start", None, time.time()))
        dispatcher.start()
        holder["go"].set()
        if case["close"] in ("quiet", "join") and case["threads"]:
            holder["done"].wait()
        if case["close"] == "quiet":
            time.sleep(100 + 50 * case["interval"] + 8 * sum(f[0] for f in case["fn"]) if not native else 0.02)
        elif case["close_after"] or case["close"] == "race":
            time.sleep(case["close_after"])
        log.append(("close_begin",))
        dispatcher.close()
        log.append(("close_end",))
        time.sleep(10 + max(f[0] for f in case["fn"]) if not native else 0.001)

    import threading
    holder["go"] = threading.Event()
    holder["done"] = threading.Event()
    dispatcher = ThreadPool.ThreadDispatcher(fn, case["interval"])
    keep = [dispatcher, holder]
    if not sched.run(case, [main] + [worker(i, ops) for i, ops in enumerate(case["threads"])], obs, keep):
        return
    expect(native or not obs.left_threads, "thread-left", "the dispatcher's thread has not ended though it was closed")
    check(case, log, obs, native)


def check(case, log, obs, native):
    pos = {}
    for p, e in enumerate(log):
        pos.setdefault(e[:2] if e[0] not in ("close_begin", "close_end") else e[0], p)
        obs.ev(e[0], e[1] if len(e) > 1 else None)
    close_begin, close_end = pos["close_begin"], pos["close_end"]
    begins = [p for p, e in enumerate(log) if e[0] == "inv_begin"]
    ends = [p for p, e in enumerate(log) if e[0] == "inv_end"]
    obs.count("invocations", len(begins))
    obs.nontrivial = bool(begins)
    # no overlap, interval
    open_ = None
    last_end = None
    triggers = 0
    for p, e in enumerate(log):
        if e[0] in ("trig_begin", "wait_begin"):
            triggers += 1
        elif e[0] == "inv_begin":
            expect(open_ is None, "overlap", "invocation {} starts while {} is running", e[1], open_)
            open_ = e[1]
            expect(e[1] + 1 <= triggers, "more-invocations-than-triggers", "invocation {} after {} triggers", e[1] + 1, triggers)
            if last_end is not None and not native:
                expect(e[2] - last_end >= case["interval"] - 1e-9, "interval", "invocation starts {} after the previous one with minimum interval {}", e[2] - last_end, case["interval"])
                obs.count("interval_checks")
            expect(p < close_end, "invoked-after-close", "an invocation started after close returned")
        elif e[0] == "inv_end":
            open_ = None
            last_end = e[2]
            expect(p < close_end, "running-after-close", "an invocation was running when close returned")
            if p > close_begin:
                obs.count("closed_during_invocation")
    # triggers and waits
    for p, e in enumerate(log):
        if e[0] == "trig_begin":
            end = pos[("trig_end", e[1])]
            served = any(b > p for b in begins)
            if not served:
                # only if it was closed before the invocation could start; after a long quiet time that is no excuse
                expect(not (case["close"] == "quiet" and not native and end < close_begin), "lost-trigger", "trigger {} was not followed by an invocation", e[1])
            elif end < close_begin:
                obs.count("triggers_before_close_served")
            if served and not native and not obs.forced_time:
                b = next(b for b in begins if b > p)
                before = [log[y][2] for y in ends if y < b]
                due = max([log[end][2], log[pos[("start", None)]][2]] + [t + case["interval"] for t in before[-1:]])
                expect(log[b][2] <= due + 1e-3, "late-invocation", "invocation starts at {} though it was due at {}", log[b][2], due)
                obs.count("promptness_checks")
        elif e[0] == "wait_begin":
            end = pos[("wait_end", e[1])]
            obs.count("waits_returned")
            expect(end > close_begin or any(p < b and y < end for b, y in zip(begins, ends)), "wait-returned-early", "waiting trigger {} returned before an invocation which started after it ended", e[1])


FAMILIES = [Family("scheduled", gen, execute, 22000, 250000), Family("native", gen_native, execute, 160, 3000)]
