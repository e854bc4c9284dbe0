"""C19: debounce and sample streams."""
from mon import sched

sched.install()

import asyncio
import queue
import threading

from mon import vloop
from mon.core import Family, expect
from nion.utils import Stream

PROPERTY = "C19"
RULE = ("input changes at random times relative to the period, from outside, from listeners of the stream while it is sending and (sample streams) from another thread at every line of the sampling code, on an event loop with virtual time; creation and closing at random times; "
        "sent values and times are compared with the model; non-trivial: at least one value sent")
ASSUMPTIONS = ["changes are made on the event loop's thread, except for sample streams", "the event loop runs"]
MUST_OBSERVE = ("debounce_sends", "sample_sends", "changes_from_listener", "closed_pending", "coalesced", "changes_from_thread", "idle_periods", "silent_samples")

P = 1.0
EPS = 1.0 / (1 << 14)
TOL = 1.0 / (1 << 20)


def same(a, b):
    return type(a) is type(b) and a == b


def gen(rng):
    n = rng.randint(1, 14)
    ops = []
    t = 0
    for i in range(n):
        t += rng.choice([0, 1, 2, 3, 8, 15, 16, 17, 31, 33, 48])  # sixteenths of the period
        ops.append([t, rng.choice(["set", "set", "set", "set", "same"]), rng.choice([rng.randrange(1000), rng.randrange(1000), rng.randrange(3), None, "", False, [1, 2], "x"])])
    return {"kind": rng.choice(["debounce", "sample"]), "ops": ops, "reentrant": [rng.randrange(4) for _ in range(rng.choice([0, 0, 1, 2]))], "close": rng.choice([None, rng.randrange(max(t, 1) + 20)]), "initial": rng.choice([None, 0, "start"]), "chain": rng.random() < 0.2, "period": rng.choice([1.0, 1.0, 0.25, 8.0])}


def execute(case, obs):
    global P
    P = case.get("period", 1.0)
    loop = vloop.VirtualLoop()
    asyncio.set_event_loop(loop)
    try:
        run(case, obs, loop)
    finally:
        vloop.finish(loop)
        asyncio.set_event_loop(None)


def run(case, obs, loop):
    t0 = loop.time()
    source = Stream.ValueStream(case["initial"])
    source.add_ref()
    inp = source
    if case["chain"]:
        inp = Stream.MapStream(source, lambda v: v)
    changes = []  # (time, value): what the input was set to

    def note(v):
        changes.append((loop.time() - t0, v))
    cls = Stream.DebounceStream if case["kind"] == "debounce" else Stream.SampleStream
    sends = []
    # debounce counts its creation as the first change
    stream = cls(inp, P, loop)
    watch = source.value_stream.listen(note)
    problems = []

    def sent(v):
        k = len(sends)
        sends.append((loop.time() - t0, v, source.value))
        if stream.value is not v and stream.value != v:
            problems.append(("value-differs", f"value is {stream.value!r} while {v!r} is sent"))
        if k in case["reentrant"]:
            obs.count("changes_from_listener")
            source.value = ("from listener", k)
    listener = stream.value_stream.listen(sent)
    closed_at = None

    async def drive():
        nonlocal closed_at
        actions = [(t * P / 16 + (i + 1) * EPS, what, v) for i, (t, what, v) in enumerate(case["ops"])]
        if case["close"] is not None:
            actions.append((case["close"] * P / 16 + EPS / 2, "close", None))
        actions.sort(key=lambda a: a[0])
        for when, what, v in actions:
            delay = t0 + when - loop.time()
            if delay > 0:
                await asyncio.sleep(delay)
            if what == "set":
                source.value = v
            elif what == "same":
                source.value = source.value
            elif closed_at is None:
                closed_at = loop.time() - t0
                stream.close()
        await asyncio.sleep(5.5 * P)
    loop.run_until_complete(drive())
    if closed_at is None:
        stream.close()
        closed_at = loop.time() - t0
        n = len(sends)
        source.value = "after close"
        loop.run_until_complete(asyncio.sleep(3 * P))
    expect(not problems, *(problems[0] if problems else ("", "")))
    for s in sends:
        obs.ev(round(s[0] * 16), len(changes))
        expect(s[0] <= closed_at, "sent-after-close", "sent {!r} after close", s[1])
    changes = [c for c in changes if c[0] <= closed_at]
    obs.nontrivial = bool(sends)
    if case["kind"] == "debounce":
        check_debounce(case, obs, changes, sends, closed_at)
    else:
        check_sample(case, obs, changes, sends, closed_at)


def check_debounce(case, obs, changes, sends, closed_at):
    obs.count("debounce_sends", len(sends))
    events = [(0.0, case["initial"])] + changes
    # replay: first unsent change starts the period
    i = 0
    latest = None
    k = 0
    while i < len(events):
        start = events[i][0]
        due = start + P
        # changes before the value is due are coalesced; those made by listeners while it is sent start the next period
        j = i
        while j < len(events) and events[j][0] < due - TOL:
            latest = events[j][1]
            j += 1
        if j > i + 1:
            obs.count("coalesced")
        if due > closed_at - TOL:
            if due < closed_at + TOL:
                return  # at the same time as close: either
            obs.count("closed_pending")
            break
        expect(k < len(sends), "value-lost", "the change at {} was not sent (sent: {}, changes: {})", start, sends, events)
        t, v, _ = sends[k]
        expect(abs(t - due) < TOL, "debounce-time", "sent at {} instead of {} (changes: {})", t, due, events)
        expect(same(v, latest), "debounce-value", "sent {!r} instead of the latest value {!r}", v, latest)
        k += 1
        if j < len(events) and events[j][0] - due > P:
            obs.count("idle_periods")
        i = j
    expect(k == len(sends), "debounce-extra", "sent {} more than due (changes: {})", sends[k:], events)


def check_sample(case, obs, changes, sends, closed_at):
    obs.count("sample_sends", len(sends))
    last_t = None
    last_change_seen = -1.0
    for k, (t, v, latest) in enumerate(sends):
        if last_t is not None:
            expect(t - last_t >= P - TOL, "sample-interval", "sent at {} and again at {}", last_t, t)
        expect(same(v, latest), "sample-value", "sent {!r} while the latest value is {!r}", v, latest)
        if k > 0:
            # changes made by a listener while sending count as after that send
            fresh = [c for c in changes if last_t - TOL <= c[0] <= t]
            expect(bool(fresh), "sample-unchanged", "sent {!r} at {} though the input did not change since {}", v, t, last_t)
        last_t = t
    # nothing lost: every change is sent within a period
    for t, v in [(0.0, case["initial"])] + changes:
        if t + P + TOL < closed_at:
            ok = any(t - TOL <= s[0] <= t + P + TOL and (s[0] > t or s[1] == v) for s in sends) if t else any(s[0] <= P + TOL for s in sends)
            expect(ok, "sample-lost", "the change at {} to {!r} was not sent within a period (sent: {})", t, v, sends)
    if closed_at > 3 * P and len(sends) < int(closed_at / P):
        obs.count("silent_samples")


# sample streams: changes made by another thread at each line of the sampling code

def gen_thread(rng):
    return {"at": rng.randrange(1, 60), "also": rng.randrange(1, 60), "seed": rng.getrandbits(30)}


def execute_thread(case, obs):
    global P
    import sys
    P = 1.0
    loop = vloop.VirtualLoop()
    asyncio.set_event_loop(loop)
    source = Stream.ValueStream(0)
    source.add_ref()
    stream = Stream.SampleStream(source, P, loop)
    sends = []
    listener = stream.value_stream.listen(lambda v: sends.append((loop.time(), v)))
    state = {"n": 0}
    threads = []

    requests = queue.Queue()

    def setter():  # one thread makes all changes: their order is not in doubt
        while True:
            item = requests.get()
            if item is None:
                return
            v, done = item
            source.value = v
            done.set()

    thread = threading.Thread(target=setter, daemon=True)
    thread.start()

    def local(frame, event, arg):
        if event == "line":
            state["n"] += 1
            if state["n"] in (case["at"], case["also"]):
                done = threading.Event()
                requests.put((state["n"], done))
                done.wait(0.02)  # may be waiting for a lock which we hold
                threads.append((state["n"], done))
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(sched.REPO_CODE) else None
    try:
        sys.settrace(trace)
        try:
            loop.run_until_complete(asyncio.sleep(5.5 * P))
        finally:
            sys.settrace(None)
        requests.put(None)
        thread.join()
        for n, done in threads:
            obs.count("changes_from_thread")
            obs.ev("set", n)
        loop.run_until_complete(asyncio.sleep(2.5 * P))
        for s in sends:
            obs.ev("sent", s[1])
        expect(sends and sends[-1][1] == source.value, "sample-lost-from-thread", "the last value {!r} set by another thread was not sent (sent: {})", source.value, sends)
        for a, b in zip(sends, sends[1:]):
            expect(b[0] - a[0] >= P - TOL, "sample-interval", "sent at {} and again at {}", a[0], b[0])
        obs.nontrivial = bool(threads)
    finally:
        stream.close()
        vloop.finish(loop)
        asyncio.set_event_loop(None)


FAMILIES = [Family("virtual-time", gen, execute, 64000, 256000), Family("thread", gen_thread, execute_thread, 4800, 19200)]
