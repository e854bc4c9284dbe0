"""C21: property model, stream value model, function stream value model."""
import asyncio
import concurrent.futures
import math
import operator
import threading

from mon.core import Family, Inconclusive, expect, failure
from nion.utils import Model, Stream

PROPERTY = "C21"
RULE = ("(property) random sequences of values, with default and custom comparisons which do not accept None, equal but distinct objects and values never equal, with several listeners of which some raise; (stream) models of random streams, compared with the stream after every change; "
        "(functions) functions which succeed, fail and repeat, sent at random times, finishing on threads in every order, decided by a controlled executor, on a real event loop; non-trivial: at least one notification / at least two functions finished")
ASSUMPTIONS = ["values are not set by listeners of the same model", "functions are sent from the event loop's thread", "the event loop runs until the evaluations have finished"]
MUST_OBSERVE = ("notified", "equal_sets", "none_to_value", "value_to_none", "none_to_none", "raising_listener", "stream_changes", "out_of_order", "failed", "evaluated", "latest_failed", "after_close", "value_changed_while_pending")


class Box:
    """compares by value; as many objects do, chokes on comparisons by key with None"""

    def __init__(self, key):
        self.key = key

    def __eq__(self, other):
        return isinstance(other, Box) and other.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return f"Box({self.key})"


CMPS = {
    "default": None,
    "key": lambda a, b: a.key % 3 == b.key % 3,
    "identity": lambda a, b: a is b,
    "never": lambda a, b: False,
}


def make(v):
    if v is None:
        return None
    if v == "nan":
        return math.nan
    if v == "list":
        return [1]
    if isinstance(v, int):
        return Box(v)
    return v


def gen(rng):
    cmp = rng.choice(list(CMPS))
    values = [None, 0, 1, 3, 4] if cmp == "key" else [None, 0, 1, "nan", "list", False, "", "a"]
    return {"cmp": cmp, "initial": rng.choice(values), "seq": [[rng.choice(values), rng.random() < 0.15] for _ in range(rng.randint(1, 10))], "listeners": rng.randint(0, 3), "raise": rng.random() < 0.3, "on": rng.random() < 0.8,
            "streams": rng.choice(["none", "value", "map", "combine", "deep"])}


def equal(cmp, a, b):
    if a is None or b is None:
        return a is b
    return bool((cmp or operator.eq)(a, b))


def execute(case, obs):
    cmp = CMPS[case["cmp"]]
    initial = make(case["initial"])
    model = Model.PropertyModel(initial, cmp) if cmp else Model.PropertyModel(initial)
    expect(model.value is initial, "initial", "initial value is {!r} instead of {!r}", model.value, initial)
    log = []

    def listener(i):
        def changed(name):
            log.append((i, name, model.value))
            if case["raise"] and i == case["listeners"] - 1:
                obs.count("raising_listener")
                raise failure(len(log), "expected")
        return changed
    listeners = [model.property_changed_event.listen(listener(i)) for i in range(case["listeners"])]
    if case["on"]:
        model.on_value_changed = lambda v: log.append(("on", v, model.value))
    current = initial
    for v, same in case["seq"]:
        v = current if same else make(v)
        changes = not equal(cmp, v, current)
        obs.count("none_to_none" if v is None and current is None else "none_to_value" if current is None else "value_to_none" if v is None else "sets")
        del log[:]
        model.value = v
        obs.ev(repr(v), changes)
        if changes:
            current = v
            obs.count("notified")
        else:
            obs.count("equal_sets")
        expect(model.value is current, "value", "value is {!r} after setting {!r}, expected {!r}", model.value, v, current)
        n = 1 if changes else 0
        for i in range(len(listeners)):
            mine = [e for e in log if e[0] == i]
            expect(len(mine) == n, "notified-count", "property_changed fired {} times instead of {} when changing to {!r}", len(mine), n, v)
            for e in mine:
                expect(e[1] == "value" and e[2] is v, "notified-what", "property_changed fired with {!r} while value is {!r} (set to {!r})", e[1], e[2], v)
        mine = [e for e in log if e[0] == "on"]
        expect(len(mine) == (n if case["on"] else 0), "on-value-changed-count", "on_value_changed called {} times when setting {!r}", len(mine), v)
        for e in mine:
            expect(e[1] is v and e[2] is v, "on-value-changed-what", "on_value_changed called with {!r} while value is {!r} (set to {!r})", e[1], e[2], v)
    obs.nontrivial = obs.counters.get("notified", 0) > 0
    model.close()
    if case["streams"] != "none":
        run_stream(case, obs, cmp)


def run_stream(case, obs, cmp):
    source = Stream.ValueStream(make(case["initial"]))
    kind = case["streams"] if case["cmp"] != "key" or case["streams"] == "value" else "map"
    source.add_ref()
    if kind == "value":
        stream = source
    elif kind == "map":
        stream = Stream.MapStream(source, lambda v: v)
    elif kind == "combine":
        other = Stream.ValueStream(0)
        stream = Stream.CombineLatestStream([source, other], lambda a, b: a)
    else:
        stream = Stream.MapStream(Stream.MapStream(source, lambda v: v), lambda v: v)
    stream.add_ref()
    try:
        model = Model.StreamValueModel(stream, value=make(case["seq"][0][0]), cmp=cmp)
        log = []
        model.on_value_changed = lambda v: log.append((v, model.value))
        fired = []
        listener = model.property_changed_event.listen(lambda name: fired.append((name, model.value)))
        last = model.value
        expect(equal(cmp, last, stream.value) or last is stream.value, "stream-initial", "model shows {!r} instead of {!r}", last, stream.value)
        for v, same in case["seq"]:
            del log[:], fired[:]
            source.value = source.value if same else make(v)
            obs.count("stream_changes")
            shown = model.value
            expect(shown is stream.value or equal(cmp, shown, stream.value), "stream-value", "model shows {!r} instead of {!r}", shown, stream.value)
            if shown is last:
                if equal(cmp, shown, last):
                    expect(not fired, "stream-notified", "notified {} though the value {!r} is as before", fired, shown)
            else:
                expect(len(fired) >= 1 and fired[-1][0] == "value" and fired[-1][1] is shown, "stream-not-notified", "change to {!r} notified as {}", shown, fired)
                expect(len(log) >= 1 and log[-1][0] is shown, "stream-on-value-changed", "change to {!r} notified as {}", shown, log)
            last = shown
        model.close()
        del log[:], fired[:]
        source.value = Box(77)
        expect(model.value is last and not fired and not log, "stream-after-close", "closed model follows its stream")
        obs.count("after_close")
    finally:
        stream.remove_ref()
        source.remove_ref()


# functions

class Executor(concurrent.futures.ThreadPoolExecutor):
    """runs each submission on a thread of its own and delivers its result when told to"""

    def __init__(self):
        super().__init__(1)
        self.by_thread = {}

    def submit(self, fn, *args, **kwargs):
        future = concurrent.futures.Future()
        outcome = []

        def run():
            try:
                outcome.append((True, fn(*args, **kwargs)))
            except BaseException as e:
                outcome.append((False, e))
        thread = threading.Thread(target=run, daemon=True)
        self.by_thread[thread] = (future, outcome)
        thread.start()
        return future

    def deliver(self, thread):
        future, outcome = self.by_thread.pop(thread)
        thread.join()
        if future.cancelled():
            return
        if outcome[0][0]:
            future.set_result(outcome[0][1])
        else:
            future.set_exception(outcome[0][1])


class Func:
    def __init__(self, k, result):
        self.k, self.result = k, result
        self.calls = 0
        self.obj = None
        self.gate = threading.Event()
        self.entered = threading.Event()
        self.left = threading.Event()
        self.threads = []

    def __call__(self):
        self.calls += 1
        self.threads.append(threading.current_thread())
        self.entered.set()
        if not self.gate.wait(20):
            raise RuntimeError("harness did not open the gate")
        try:
            if self.result == "fail":
                raise failure(self.k, "expected", future=True)
            self.obj = make(self.result)
            return self.obj
        finally:
            self.left.set()


def gen_funcs(rng):
    cmp = rng.choice(["default", "default", "key", "identity"])
    values = [None, 0, 1, 2, 3] if cmp == "key" else [None, 0, 1, 2, 3, 4, 5]
    ops = []
    for _ in range(rng.randint(2, 12)):
        r = rng.random()
        if r < 0.45:
            ops.append(["send", rng.choice(values + ["fail"])])
        elif r < 0.85:
            ops.append(["finish", rng.choice([0, -1, rng.randrange(8)])])
        else:
            ops.append(["tick", rng.randint(1, 3)])
    return {"cmp": cmp, "first": rng.choice(values + ["fail"]), "initial": rng.choice(values), "ops": ops, "order": rng.getrandbits(20), "batch": rng.random() < 0.3, "close": rng.random() < 0.3}


def execute_funcs(case, obs):
    cmp = CMPS[case["cmp"]]
    loop = asyncio.new_event_loop()
    loop.set_exception_handler(lambda *args: None)
    asyncio.set_event_loop(loop)
    executor = Executor()
    loop.set_default_executor(executor)
    main = threading.current_thread()
    funcs = []
    pending = []
    try:
        def send(result):
            f = Func(len(funcs), result)
            funcs.append(f)
            pending.append(f)
            return f
        source = Stream.ValueStream(send(case["first"]))
        source.add_ref()
        initial = make(case["initial"])
        model = Model.FuncStreamValueModel(source, loop, value=initial, cmp=cmp)
        seen = []
        listener = model.property_changed_event.listen(lambda name: seen.append((name, model.value)))
        on = []
        model.on_value_changed = lambda v: on.append(v)
        start = model.value
        expect(start is initial, "func-initial", "model shows {!r} instead of {!r} before any function was evaluated", start, initial)
        finished = []  # in order of finishing
        newest = [-1]  # index of the latest function whose result was seen
        closed = False

        def tick(n=1):
            for _ in range(n):
                loop.run_until_complete(asyncio.sleep(0))

        def finish(f, settle=True):
            for _ in range(200):
                if f.entered.is_set():
                    break
                tick()
                f.entered.wait(0.01)
            expect(f.entered.is_set(), "not-evaluated", "function {} was not evaluated", f.k)
            f.gate.set()
            if not f.left.wait(20):
                raise Inconclusive("function did not return")
            pending.remove(f)
            thread = f.threads[0]
            if thread in executor.by_thread:
                executor.deliver(thread)
            else:
                thread.join(0.02)
            if any(p.k < f.k for p in pending):
                obs.count("out_of_order")
            finished.append(f)
            if settle:
                tick(4)
                check()

        def check():
            good = [f for f in finished if f.result != "fail"]
            v = model.value
            allowed = [start] + [make(f.result) for f in good]
            expect(any(equal(cmp, v, a) or same(v, a) for a in allowed), "unknown-value", "model shows {!r} which no function produced", v)
            for f in good:
                if f.obj is not None and f.obj is v:
                    expect(f.k >= newest[0], "went-back", "model shows the result of function {} after that of function {}", f.k, newest[0])
                    newest[0] = f.k
            if good and pending:
                obs.count("value_changed_while_pending")

        def same(a, b):
            return a == b

        for op in case["ops"]:
            obs.ev(op[0], len(pending), [f.k for f in finished][-3:])
            if op[0] == "send":
                source.value = send(op[1])
            elif op[0] == "finish":
                if pending:
                    k = op[1]
                    finish(pending[k if k < 0 else k % len(pending)], not case["batch"])
            else:
                tick(op[1])
        order = case["order"]
        while pending:
            finish(pending[order % len(pending)], not case["batch"])
            order = order // 3
        tick(8)
        for f in funcs:
            expect(f.calls == 1, "evaluated-count", "function {} was evaluated {} times", f.k, f.calls)
            expect(all(t is not main for t in f.threads), "evaluated-thread", "function {} was evaluated on the event loop's thread", f.k)
            obs.count("evaluated")
            if f.result == "fail":
                obs.count("failed")
        good = [f for f in funcs if f.result != "fail"]
        if funcs[-1].result == "fail":
            obs.count("latest_failed")
        obs.nontrivial = len(funcs) > 1
        if good:
            want = make(good[-1].result)
            v = model.value
            ok = same(v, want) if case["cmp"] != "key" else equal(cmp, v, want)
            expect(ok, "latest-value", "model shows {!r} instead of {!r}, the result of the latest function to succeed (finished in order {})", v, want, [f.k for f in finished])
            if not equal(None, start, v):
                expect(seen and all(n == "value" for n, _ in seen), "not-notified", "change from {!r} to {!r} was notified as {}", start, v, seen)
                expect(seen[-1][1] is v, "notified-late", "value was {!r} when last notified, is {!r}", seen[-1][1], v)
                if case["cmp"] != "key":
                    expect(on and on[-1] is v, "not-called", "change to {!r} called on_value_changed with {}", v, on)
        else:
            expect(model.value is start, "value-of-failed", "model shows {!r} though all functions failed", model.value)
        for a, b in zip([start] + on, on):
            expect(not equal(cmp, b, a), "called-unchanged", "on_value_changed was called for {!r} after {!r}, which compares equal", b, a)
        if case["close"]:
            n = len(funcs)
            last = model.value
            model.close()
            del seen[:], on[:]
            source.value = send(9)
            tick(4)
            expect(funcs[-1].calls == 0, "evaluated-after-close", "function sent after close was evaluated")
            expect(model.value is last and not seen and not on, "changed-after-close", "closed model changed")
            obs.count("after_close")
        else:
            model.close()
        source.remove_ref()
    finally:
        for f in funcs:
            f.gate.set()
        for t in asyncio.all_tasks(loop):
            t.cancel()
        for _ in range(3):
            loop.run_until_complete(asyncio.sleep(0))
        for t in list(executor.by_thread):
            t.join(1)
        loop.close()
        executor.shutdown(wait=False)
        asyncio.set_event_loop(None)


FAMILIES = [Family("models", gen, execute, 80000, 320000), Family("functions", gen_funcs, execute_funcs, 20000, 80000)]
