"""C25: promise."""
from mon import sched

sched.install()

import time

from mon.core import Expected, Family, expect, failure
from nion.utils import Promise

PROPERTY = "C25"
RULE = ("several threads access value, opt_value and has_value of a promise whose function takes time, raises for the first calls, looks at the promise itself, or returns None, under a deterministic scheduler "
        "(switching at locks and at opcodes or lines of the code) and on free running threads; the log of calls and accesses is checked; non-trivial: the function was called")
ASSUMPTIONS = ["the function does not access value of its own promise", "opt_value and has_value of a result which is None are not specified beyond opt_value being None"]
MUST_OBSERVE = ("calls", "raised", "values", "opt_values_after", "opt_values_before", "none_results", "falsy_results", "scheduled_runs", "native_runs", "never_accessed")

RESULTS = ["object", "object", "none", 0, "", False]


class Result:
    pass


def gen(rng, native=False):
    threads = []
    for _ in range(rng.randint(1, 4)):
        threads.append([rng.choice(["value", "value", "opt", "has", "sleep"]) for _ in range(rng.randint(1, 5))])
    if rng.random() < 0.05:
        threads = [[op if op != "value" else "opt" for op in t] for t in threads]
    return {"threads": threads, "raises": rng.choice([0, 0, 0, 1, 2]), "duration": rng.choice([0, 0, 0.5]), "peek": rng.random() < 0.3, "result": rng.randrange(len(RESULTS)),
            "seed": rng.getrandbits(40), "mode": None if native else sched.gen_mode(rng)}


def gen_native(rng):
    c = gen(rng, True)
    c["threads"] = c["threads"] * 2
    return c


def execute(case, obs):
    log = []
    native = case["mode"] is None
    r = RESULTS[case["result"]]
    result = Result() if r == "object" else None if r == "none" else r
    calls = []

    def fn():
        k = len(calls)
        calls.append(k)
        log.append(("call_begin", k))
        if case["duration"]:
            time.sleep(0 if native else case["duration"])
        if case["peek"]:
            log.append(("peek", promise.opt_value, promise.has_value))
        if k < case["raises"]:
            log.append(("call_raise", k))
            raise failure(k + len(log), k)
        log.append(("call_end", k))
        return result

    promise = Promise.Promise(fn)

    def worker(i, ops):
        def body():
            for j, op in enumerate(ops):
                if op == "value":
                    log.append(("value_begin", i, j))
                    try:
                        v = promise.value
                    except Expected as e:
                        log.append(("value_raise", i, j, e.args[0]))
                    else:
                        log.append(("value_end", i, j, v))
                elif op == "opt":
                    log.append(("opt_begin", i, j))
                    log.append(("opt_end", i, j, promise.opt_value))
                elif op == "has":
                    log.append(("has_begin", i, j))
                    log.append(("has_end", i, j, promise.has_value))
                else:
                    time.sleep(0 if native else 0.3)
        return body

    if not sched.run(case, [worker(i, ops) for i, ops in enumerate(case["threads"])], obs, [promise]):
        return
    pos = {e[:3]: p for p, e in enumerate(log) if e[0].endswith("_begin") and len(e) >= 3}
    accessed = any(e[0] == "value_begin" for e in log)
    # calls: one at a time, none after success, none before an access
    running = False
    ended = None
    first_access = next((p for p, e in enumerate(log) if e[0] == "value_begin"), len(log))
    raised = []
    known = None  # position from which the value is known to somebody
    for p, e in enumerate(log):
        obs.ev(*e[:3])
        if e[0] == "call_begin":
            expect(not running, "evaluated-concurrently", "the function was called while it was running")
            expect(ended is None, "evaluated-again", "the function was called again after it had returned")
            expect(p > first_access, "evaluated-early", "the function was called before value was accessed")
            running = True
            obs.count("calls")
        elif e[0] == "call_raise":
            running = False
            raised.append(e[1])
            obs.count("raised")
        elif e[0] == "call_end":
            running, ended = False, p
        elif e[0] == "value_end":
            expect(ended is not None and ended < p, "value-before-evaluation", "value returned {!r} before the function had returned", e[3])
            expect(e[3] is result, "wrong-value", "value is {!r} instead of {!r}", e[3], result)
            known = p if known is None else known
            obs.count("values")
        elif e[0] == "value_raise":
            expect(e[3] in raised, "wrong-exception", "value raised {}", e[3])
            raised.remove(e[3])
        elif e[0] == "opt_end":
            begin = pos[("opt_begin",) + e[1:3]]
            if known is not None and known < begin:
                expect(e[3] is result, "opt-value", "opt_value is {!r} after value was obtained", e[3])
                obs.count("opt_values_after")
            elif ended is None:
                expect(e[3] is None, "opt-value-early", "opt_value is {!r} before the function returned", e[3])
                obs.count("opt_values_before")
            else:
                expect(e[3] is None or e[3] is result, "opt-value", "opt_value is {!r}", e[3])
        elif e[0] == "has_end":
            begin = pos[("has_begin",) + e[1:3]]
            if known is not None and known < begin and result is not None:
                expect(e[3] is True, "has-value", "has_value is {!r} after value was obtained", e[3])
            elif ended is None:
                expect(not e[3], "has-value-early", "has_value is {!r} before the function returned", e[3])
        elif e[0] == "peek":
            expect(e[1] is None and not e[2], "peek", "opt_value and has_value are {!r} while the function is running", e[1:])
    expect(not raised, "exception-lost", "an exception of the function did not reach an accessor")
    if not accessed:
        expect(not calls, "evaluated-early", "the function was called though value was not accessed")
        obs.count("never_accessed")
    if result is None:
        obs.count("none_results")
    elif not result:
        obs.count("falsy_results")
    obs.nontrivial = bool(calls)


FAMILIES = [Family("scheduled", gen, execute, 80000, 320000), Family("native", gen_native, execute, 200, 4000)]
