"""C20: reference counting."""
from mon import sched

sched.install()

import asyncio
import itertools
import time

from mon.core import Family, expect
from nion.utils import Model, Observable, ReferenceCounting, Stream

PROPERTY = "C20"
RULE = ("(threads) several threads add and remove references to one object, directly and with the ref context manager through exceptions, under a deterministic scheduler (switching at locks and at opcodes or lines of the code) and on free running threads; "
        "(streams) random graphs of all kinds of derived streams and stream models are built and released in random order, comparing reference counts, released streams and active listeners with the graph; non-trivial: the object was released / at least one stream released")
ASSUMPTIONS = ["a thread adds references only while it or somebody else holds one, or before any was removed"]
MUST_OBSERVE = ("released", "adds", "removes", "context_exceptions", "too_many", "scheduled_runs", "native_runs", "stream_closes", "cascades", "model_closes", "shared_kept", "concat_switches", "removed_again", "inside", "unchecked")


class Counted(ReferenceCounting.ReferenceCounted):
    def __init__(self, log):
        super().__init__()
        self.log = log

    def about_to_delete(self):
        self.log.append(("delete", self.ref_count))


class Expected(Exception):
    pass


# threads

def gen(rng, native=False):
    threads = []
    for _ in range(rng.randint(2, 4)):
        ops = []
        for _ in range(rng.randint(0, 4 if not native else 40)):
            ops.append(rng.choice(["add", "add", "remove", "ref", "raise", "count"]))
        threads.append(ops)
    return {"threads": threads, "extra": rng.choice([0, 0, 1, 2]), "seed": rng.getrandbits(40), "mode": None if native else sched.gen_mode(rng)}


def gen_native(rng):
    return gen(rng, True)


def execute(case, obs):
    log = []
    o = Counted(log)
    # each thread starts with a reference of its own
    for _ in range(len(case["threads"]) + case["extra"]):
        expect(o.add_ref() is o, "add-ref-result", "add_ref does not return the object")
    held_total = []

    def worker(i, ops):
        def body():
            held = 1

            def add():
                nonlocal held
                log.append(("add_begin",))
                o.add_ref()
                held += 1
                log.append(("add_end",))

            def remove():
                nonlocal held
                log.append(("remove_begin",))
                o.remove_ref()
                held -= 1
                log.append(("remove_end",))
            for op in ops:
                if op == "add":
                    add()
                elif op == "remove":
                    if held > 1:
                        remove()
                elif op == "ref":
                    log.append(("add_begin",))
                    with o.ref():
                        log.append(("add_end",))
                        time.sleep(0)
                        log.append(("remove_begin",))
                    log.append(("remove_end",))
                elif op == "raise":
                    log.append(("add_begin",))
                    try:
                        with o.ref():
                            log.append(("add_end",))
                            log.append(("remove_begin",))
                            raise Expected()
                    except Expected:
                        log.append(("remove_end",))
                        obs.count("context_exceptions")
                elif op == "count":
                    n = o.ref_count
                    if n < held:
                        log.append(("bad_count", n, held))
            while held:
                remove()
            held_total.append(held)
        return body
    if not sched.run(case, [worker(i, ops) for i, ops in enumerate(case["threads"])], obs, [o]):
        return
    adds = len(case["threads"]) + case["extra"]
    removes_ended = removes_begun = 0
    adds_begun = adds_ended = adds
    deletes = 0
    for e in log:
        obs.ev(*e[:1])
        if e[0] == "add_begin":
            adds_begun += 1
        elif e[0] == "add_end":
            adds_ended += 1
            obs.count("adds")
        elif e[0] == "remove_begin":
            removes_begun += 1
        elif e[0] == "remove_end":
            removes_ended += 1
            obs.count("removes")
        elif e[0] == "bad_count":
            expect(False, "count-too-low", "ref_count is {} where one thread alone holds {}", e[1], e[2])
        elif e[0] == "delete":
            deletes += 1
            expect(deletes == 1, "deleted-twice", "about_to_delete was called twice")
            expect(removes_begun >= adds_ended, "deleted-early", "about_to_delete was called with {} references left", adds_ended - removes_begun)
            expect(e[1] == 0, "deleted-count", "ref_count is {} in about_to_delete", e[1])
            obs.count("released")
    expect(o.ref_count == case["extra"], "count", "ref_count is {} instead of {}", o.ref_count, case["extra"])
    for k in range(case["extra"]):
        expect(not any(e[0] == "delete" for e in log), "deleted-early", "about_to_delete was called with references left")
        o.remove_ref()
        expect(o.ref_count == case["extra"] - k - 1, "count", "ref_count is {}", o.ref_count)
    expect(sum(1 for e in log if e[0] == "delete") == 1, "not-deleted", "about_to_delete was called {} times", sum(1 for e in log if e[0] == "delete"))
    try:
        o.remove_ref()
    except Exception:
        obs.count("too_many")
    else:
        expect(False, "too-many", "removing a reference too many did not raise")
    expect(o.ref_count == 0, "count-after-too-many", "ref_count is {}", o.ref_count)
    expect(sum(1 for e in log if e[0] == "delete") == 1, "deleted-twice", "about_to_delete was called again")


# one thread: references removed without check, objects used again after they were released, references taken while being released

def gen_again(rng):
    return {"ops": [rng.choice(["add", "add", "remove", "remove", "unchecked", "ref", "raise"]) for _ in range(rng.randint(3, 20))], "inside": rng.choice(["", "", "ref", "add"])}


def execute_again(case, obs):
    class Again(ReferenceCounting.ReferenceCounted):
        released = 0

        def about_to_delete(self):
            self.released += 1
            if case["inside"] and self.released < 3:
                if case["inside"] == "ref":
                    with self.ref():
                        pass
                else:
                    self.add_ref()
                obs.count("inside")
    o = Again()
    n = released = 0

    def removed():
        nonlocal n, released
        n -= 1
        if n == 0:
            if released:
                obs.count("removed_again")
            else:
                released = 1
                if case["inside"] == "add":
                    n += 1
    for op in case["ops"]:
        if op == "add":
            expect(o.add_ref() is o, "add-ref-result", "add_ref does not return the object")
            n += 1
        elif op in ("ref", "raise"):
            n += 1
            try:
                with o.ref():
                    expect(o.ref_count == n, "count-inside", "ref_count is {} instead of {} inside of ref", o.ref_count, n)
                    if op == "raise":
                        raise Expected()
            except Expected:
                op = "raised"
            expect(op != "raise", "swallowed", "an exception did not pass through ref")
            removed()
        elif n == 0:
            try:
                o.remove_ref()
            except Exception:
                pass
            else:
                expect(False, "too-many", "removing a reference too many did not raise")
        elif op == "remove":
            o.remove_ref()
            removed()
        else:
            o.remove_ref(check=False)
            n -= 1
            obs.count("unchecked")
        expect(o.ref_count == n, "count", "after {}: ref_count is {} instead of {}", op, o.ref_count, n)
        expect(o.released == released, "released", "after {}: about_to_delete was called {} times instead of {}", op, o.released, released)
        obs.ev(op, n, released)


# streams

KINDS = ["value", "map", "map", "combine", "prop", "propstream", "concat", "debounce", "sample", "svm", "fsvm"]


def gen_streams(rng):
    ops = [["make", "value", []] for _ in range(2)]
    for _ in range(rng.randint(2, 18)):
        r = rng.random()
        if r < 0.55:
            ops.append(["make", rng.choice(KINDS), [rng.randrange(50) for _ in range(3)], rng.random() < 0.5])
        elif r < 0.62:
            ops.append(["switch", rng.randrange(50), rng.randrange(4)])
        elif r < 0.70:
            ops.append(["set", rng.randrange(50), rng.randrange(4)])
        else:
            ops.append(["release", rng.randrange(50)])
    return {"ops": ops, "order": rng.getrandbits(30)}


class Obj(Observable.Observable):
    def __init__(self):
        super().__init__()
        self.p = 0


class Node:
    def __init__(self, kind, stream, inputs, ext):
        self.kind, self.stream, self.inputs, self.ext = kind, stream, inputs, ext
        self.closed = False
        self.deletes = 0
        self.keep = 0  # references which the harness keeps while a concat stream may switch to this
        self.current = None


class Graph:
    def __init__(self, obs, loop):
        self.obs, self.loop = obs, loop
        self.nodes = []
        self.obj = Obj()
        self.prop_listeners = 0

    def live(self, streams_only=True):
        return [n for n in self.nodes if not n.closed and (not streams_only or n.kind not in ("svm", "fsvm"))]

    def watch(self, n):
        if n.kind in ("svm", "fsvm"):
            self.nodes.append(n)
            return
        original = n.stream.about_to_delete

        def about_to_delete():
            n.deletes += 1
            original()
        n.stream.about_to_delete = about_to_delete
        self.nodes.append(n)

    def make(self, kind, picks, ext=True):
        live = [n for n in self.live() if n.kind not in ("objects", "index", "funcs")]
        ins = [live[p % len(live)] for p in picks] if live else []
        if kind == "value":
            n = Node(kind, Stream.ValueStream(0), [], 0)
        elif not ins:
            return
        elif kind == "map":
            n = Node(kind, Stream.MapStream(ins[0].stream, lambda v: (v,)), ins[:1], 0)
        elif kind == "combine":
            ins = ins[:1 + picks[0] % 3]
            n = Node(kind, Stream.CombineLatestStream([i.stream for i in ins]), ins, 0)
        elif kind == "prop":
            n = Node(kind, Stream.PropertyChangedEventStream(self.obj, "p"), [], 0)
        elif kind == "propstream":
            src = Node("objects", Stream.ValueStream(self.obj), [], 0)
            self.watch(src)
            n = Node("prop", Stream.PropertyChangedEventStream(src.stream, "p"), [src], 0)
        elif kind == "concat":
            src = Node("index", Stream.ValueStream(1), [], 0)
            self.watch(src)
            for i in ins:  # keep the candidates alive
                i.stream.add_ref()
                i.ext += 1
                i.keep += 1
            n = Node(kind, Stream.ConcatStream(src.stream, lambda v: ins[v - 1].stream), [src, ins[0]], 0)
            n.candidates = ins
            n.src = src
        elif kind == "debounce":
            n = Node(kind, Stream.DebounceStream(ins[0].stream, 1.0, self.loop), ins[:1], 0)
        elif kind == "sample":
            n = Node(kind, Stream.SampleStream(ins[0].stream, 1.0, self.loop), ins[:1], 0)
        elif kind == "svm":
            n = Node(kind, Model.StreamValueModel(ins[0].stream), ins[:1], 0)
        elif kind == "fsvm":
            src = Node("funcs", Stream.ValueStream(lambda: 1), [], 0)
            self.watch(src)
            n = Node(kind, Model.FuncStreamValueModel(src.stream, self.loop), [src], 0)
        self.watch(n)
        if ext and kind not in ("svm", "fsvm"):
            n.stream.add_ref()
            n.ext += 1

    def dependents(self, n):
        return sum(sum(1 for i in m.inputs if i is n) for m in self.nodes if not m.closed)

    def active(self, event):
        return sum(1 for l in event.listeners if l is not None and not l.is_closed)

    def model_close(self, n):
        """what closing a node does to the model"""
        n.closed = True
        for i in getattr(n, "candidates", ()):
            i.keep -= 1
        for i in n.inputs:
            if not i.closed and self.dependents(i) == 0 and i.ext == 0:
                self.obs.count("cascades")
                self.model_close(i)
            elif not i.closed:
                self.obs.count("shared_kept")

    def releasable(self, n):
        return n.ext > n.keep or (n.ext == 0 and self.dependents(n) == 0)

    def release(self, n):
        if n.kind in ("svm", "fsvm"):
            n.stream.close()
            self.model_close(n)
            self.obs.count("model_closes")
            return
        if n.ext:
            n.stream.remove_ref()
            n.ext -= 1
            if n.ext == 0 and self.dependents(n) == 0:
                self.model_close(n)
                self.obs.count("stream_closes")
        elif self.dependents(n) == 0:
            n.stream.close()
            n.direct = True
            self.model_close(n)
            self.obs.count("stream_closes")

    def switch(self, n, k):
        self.obs.count("concat_switches")
        old = n.inputs[1] if len(n.inputs) > 1 else None
        v = [None, 1, 2, 3][k]
        if v is not None and n.candidates[v - 1].closed:
            return
        n.src.stream.value = v
        n.inputs = [n.src] + ([n.candidates[v - 1]] if v is not None else [])
        # the candidates are held by the harness, so switching never releases the last reference

    def check(self, what):
        for n in self.nodes:
            if n.kind in ("svm", "fsvm"):
                continue
            want = n.ext + self.dependents(n)
            expect(n.stream.ref_count == want, "stream-ref-count", "after {}: {} stream has {} references instead of {}", what, n.kind, n.stream.ref_count, want)
            if n.closed and not getattr(n, "direct", False):
                expect(n.deletes == 1, "stream-released", "after {}: {} stream was released {} times", what, n.kind, n.deletes)
            else:
                expect(n.deletes == 0, "stream-released-early", "after {}: {} stream was released", what, n.kind)
            listeners = self.active(n.stream.value_stream)
            expect(listeners == self.dependents(n), "stream-listeners", "after {}: {} stream has {} active listeners instead of {}", what, n.kind, listeners, self.dependents(n))
        props = sum(1 for n in self.nodes if n.kind == "prop" and not n.closed)
        expect(self.active(self.obj.property_changed_event) == props, "object-listeners", "after {}: object has {} active listeners instead of {}", what, self.active(self.obj.property_changed_event), props)


def execute_streams(case, obs):
    loop = asyncio.new_event_loop()
    try:
        g = Graph(obs, loop)
        for op in case["ops"]:
            if op[0] == "make":
                g.make(*op[1:])
            elif op[0] == "switch":
                c = [n for n in g.live() if n.kind == "concat"]
                if c:
                    g.switch(c[op[1] % len(c)], op[2])
            elif op[0] == "set":
                c = [n for n in g.live() if n.kind == "value"]
                if c:
                    c[op[1] % len(c)].stream.value = op[2]
            else:
                c = [n for n in g.live(False) if n.kind not in ("objects", "index", "funcs") and g.releasable(n)]
                if c:
                    g.release(c[op[1] % len(c)])
            obs.ev(op[0], [(n.kind, n.closed) for n in g.nodes])
            g.check(op)
        # release everything which is still held, in some order
        order = case["order"]
        while True:
            c = [n for n in g.live(False) if n.kind not in ("objects", "index", "funcs") and g.releasable(n)]
            if not c:
                break
            g.release(c[order % len(c)])
            order = order // 3 + 1
            g.check("tear down")
        expect(not g.live(), "not-released", "{} are left", [n.kind for n in g.live()])
        obs.state(tuple((n.kind, len(n.inputs)) for n in g.nodes))
        obs.nontrivial = any(n.closed for n in g.nodes)
    finally:
        for t in asyncio.all_tasks(loop):
            t.cancel()
        loop.run_until_complete(asyncio.sleep(0))
        loop.run_until_complete(asyncio.sleep(0))
        loop.close()


FAMILIES = [Family("again", gen_again, execute_again, 14000, 56000), Family("threads", gen, execute, 29000, 200000), Family("streams", gen_streams, execute_streams, 18000, 120000), Family("native", gen_native, execute, 150, 3000)]
