"""C18: derived streams."""
import json

from nion.utils import Observable, Stream

from mon.core import Family, expect

PROPERTY = "C18"
RULE = ("random graphs of value, constant, map, combine-latest, property and concat streams (diamonds, shared inputs, streams of objects, streams made on the fly), grown and torn down while sources change in random order, also streams closed while their source is sending; "
        "after every change each stream's value is recomputed from the sources, and what it sent is checked; non-trivial: at least one derived stream sent a value")
ASSUMPTIONS = ["sources are not changed from within a listener of the same graph", "inputs of concat streams are true values or None", "streams of objects always have an object", "values support equality"]
MUST_OBSERVE = ("sends", "map_changes", "combine_changes", "prop_changes", "concat_changes", "equal_sets", "closed", "closed_while_sending", "changes_after_close", "glitches", "silent_streams", "repeating")

FNS = [lambda v: v, lambda v: (v,), lambda v: len(repr(v)) % 2, lambda v: 7, lambda v: None if v in (0, None, "") else v, lambda v: repr(v)[:4], lambda v: 1 if v is None else None if v in (1, 2) else v]
CFNS = [None, lambda *a: a[::-1], lambda *a: sum(len(repr(x)) for x in a) % 3, lambda *a: a[0] if a else None]
VALUES = [None, 0, 1, 2, 3, "", "a", "abc", 1000, 2.5, [1, [2]], "long" * 9]
N_VALUES = len(VALUES)


def value_of(i):
    """Equal values are not the same object."""
    return json.loads(json.dumps(VALUES[i]))


class Obj(Observable.Observable):
    def __init__(self):
        super().__init__()
        self.p = None
        self.q = 0

    def put(self, name, v):
        setattr(self, name, v)
        self.notify_property_changed(name)

    def __eq__(self, other):
        return self is other

    __hash__ = object.__hash__


def gen_node(rng):
    k = rng.choice(["value", "const", "map", "map", "combine", "combine", "prop", "propstream", "concat", "selector"])
    if k in ("value", "const"):
        return [k, rng.randrange(N_VALUES)]
    if k == "map":
        return [k, rng.randrange(50), rng.randrange(len(FNS))]
    if k == "combine":
        return [k, [rng.randrange(50) for _ in range(rng.choice([0, 1, 2, 2, 2, 2, 3, 3, 3, 4, 5, 8, 12]))], rng.randrange(len(CFNS))]
    if k == "prop":
        return [k, rng.randrange(3), rng.choice("pq"), rng.randrange(3)]
    if k == "propstream":
        return [k, rng.randrange(3), rng.choice("pq"), rng.randrange(50) if rng.random() < 0.4 else None]
    if k == "concat":
        return [k, [rng.randrange(50) for _ in range(3)], [rng.random() < 0.5 for _ in range(3)], rng.randrange(50) if rng.random() < 0.3 else None]
    return ["map", rng.randrange(50), 2]


def gen(rng):
    ops = [["add", ["value", rng.randrange(N_VALUES)]] for _ in range(2)]
    for _ in range(rng.randint(4, 40)):
        r = rng.random()
        if r < 0.34:
            ops.append(["add", gen_node(rng)])
        elif r < 0.72:
            ops.append(["set", rng.randrange(50), rng.randrange(N_VALUES)])
        elif r < 0.80:
            ops.append(["obj", rng.randrange(3), rng.choice("pq"), rng.randrange(N_VALUES)])
        elif r < 0.85:
            ops.append(["switch", rng.randrange(50), rng.randrange(3)])
        elif r < 0.92:
            ops.append(["close", rng.randrange(50), rng.random() < 0.5])
        else:
            ops.append(["set_close", rng.randrange(50), rng.randrange(N_VALUES), rng.randrange(50)])
    return {"ops": ops}


class Node:
    def __init__(self, kind, stream, inputs, fn):
        self.kind, self.stream, self.inputs, self.fn = kind, stream, inputs, fn
        self.sends = []
        self.bad = None
        self.closed = False
        self.closing = False
        self.dynamic = None  # for concat: function giving the nodes it depends on now
        self.hook = None
        self.all_sends = 0

    def on_send(self, v):
        if self.closing:
            return
        self.all_sends += 1
        self.sends.append(v)
        if not self.closed and not same(self.stream.value, v):
            self.bad = (v, self.stream.value)


def same(a, b):
    return type(a) == type(b) and a == b


class Graph:
    def __init__(self, obs):
        self.obs = obs
        self.objs = [Obj() for _ in range(3)]
        self.nodes = []

    def live(self, kinds=None):
        return [n for n in self.nodes if not n.closed and (kinds is None or n.kind in kinds)]



    def add(self, spec):
        kind = spec[0]
        live = self.live()
        plain = [n for n in live if n.kind not in ("objects", "index", "repeat")]
        touch = set()
        if kind in ("value", "const"):
            v = value_of(spec[1])
            s = Stream.ValueStream(v) if kind == "value" else Stream.ConstantStream(v)
            n = Node(kind, s, [], None)
            n.current = v
            n.fn = lambda: n.current
            if kind == "value":
                n.hook_listener = s.value_stream.listen(lambda v: n.hook() if n.hook else None)
        elif kind == "map":
            if not plain:
                return
            i = plain[spec[1] % len(plain)]
            f = FNS[spec[2]]
            n = Node("map", Stream.MapStream(i.stream, f), [i], lambda: f(i.fn()))
        elif kind == "combine":
            ins = [plain[k % len(plain)] for k in spec[1]] if plain else []
            f = CFNS[spec[2]]
            if spec[2] == 0:
                n = Node("combine", Stream.CombineLatestStream([i.stream for i in ins]), ins, lambda: tuple(i.fn() for i in ins))
            else:
                n = Node("combine", Stream.CombineLatestStream([i.stream for i in ins], f), ins, lambda: f(*[i.fn() for i in ins]))
        elif kind == "prop":
            o = self.objs[spec[1]]
            name = spec[2]
            if spec[3] == 1:  # with this comparison, each notification is a change
                n = Node("propall", Stream.PropertyChangedEventStream(o, name, cmp=lambda a, b: False), [], lambda: getattr(o, name))
            else:
                n = Node("prop", Stream.PropertyChangedEventStream(o, name), [], lambda: getattr(o, name))
            n.obj = o, name
        elif kind == "propstream":
            src = Node("objects", Stream.ValueStream(self.objs[spec[1]]), [], None)
            src.current = self.objs[spec[1]]
            src.fn = lambda: src.current
            src.hook_listener = src.stream.value_stream.listen(lambda v: None)
            self.register(src)
            name = spec[2]
            via = self.repeating(src, plain, spec[3])
            n = Node("prop", Stream.PropertyChangedEventStream(via.stream, name), [via], lambda: getattr(src.current, name))
            n.objsrc = src, name
        elif kind == "concat":
            if not plain:
                return
            targets = [plain[k % len(plain)] for k in spec[1]]
            fresh = spec[2]
            src = Node("index", Stream.ValueStream(1), [], None)
            src.current = 1
            src.fn = lambda: src.current
            self.register(src)

            def concat(item):
                t = targets[item - 1].stream
                return Stream.MapStream(t, FNS[1]) if fresh[item - 1] else t

            def value():
                if src.current is None:
                    return None
                v = targets[src.current - 1].fn()
                return (v,) if fresh[src.current - 1] else v
            via = self.repeating(src, plain, spec[3])
            n = Node("concat", Stream.ConcatStream(via.stream, concat), [via] + targets, value)
        else:
            raise AssertionError(spec)
        self.register(n)

    def repeating(self, src, plain, k):
        """A stream of the values of src which also sends the value it has whenever another stream sends."""
        if k is None or not plain:
            return src
        other = plain[k % len(plain)]
        n = Node("repeat", Stream.CombineLatestStream([src.stream, other.stream], lambda x, y: x), [src, other], lambda: src.fn())
        self.register(n)
        self.obs.count("repeating")
        return n

    def register(self, n):
        n.stream.add_ref()
        n.listener = n.stream.value_stream.listen(n.on_send)
        n.last = n.stream.value
        self.nodes.append(n)
        expect(same(n.stream.value, n.fn()), "initial-value", "{} stream starts with {!r} instead of {!r}", n.kind, n.stream.value, n.fn())

    def affected(self, source):
        """nodes reachable from a source node or (object, property)"""
        out = set()
        for n in self.nodes:  # in order of construction: inputs come first
            if n is source or any(id(i) in out for i in n.inputs):
                out.add(id(n))
            elif isinstance(source, tuple):
                if getattr(n, "obj", None) == source:
                    out.add(id(n))
                elif hasattr(n, "objsrc") and n.objsrc[0].current is source[0] and n.objsrc[1] == source[1]:
                    out.add(id(n))
        return out

    def check(self, source, what):
        obs = self.obs
        affected = self.affected(source) if source is not None else set()
        for n in self.nodes:
            sends, n.sends = n.sends, []
            if n.closed:
                expect(not sends, "sends-after-close", "closed {} stream sent {!r}", n.kind, sends)
                continue
            want = n.fn()
            got = n.stream.value
            expect(same(got, want), "value", "after {}: {} stream has {!r} instead of {!r}", what, n.kind, got, want)
            expect(n.bad is None, "sent-value", "after {}: {} stream sent/has {!r}", what, n.kind, n.bad)
            if not same(n.last, want):
                expect(len(sends) > 0, "not-sent", "after {}: {} stream changed from {!r} to {!r} without sending", what, n.kind, n.last, want)
                obs.count(n.kind + "_changes")
            if sends:
                obs.count("sends", len(sends))
                expect(same(sends[-1], want), "last-sent", "after {}: {} stream sent {!r} but has {!r}", what, n.kind, sends, want)
                if len(sends) > 1:
                    obs.count("glitches")
                if n.kind in ("value", "map", "prop", "objects", "index"):
                    prev = n.last
                    for v in sends:
                        expect(not (v == prev), "sent-equal", "after {}: {} stream sent {!r} after {!r}", what, n.kind, v, prev)
                        prev = v
                if id(n) not in affected:
                    expect(False, "sent-unaffected", "after {}: {} stream sent {!r} though nothing it depends on changed", what, n.kind, sends)
            else:
                obs.count("silent_streams")
            if n.kind == "propall" and isinstance(source, tuple) and n.obj == source:
                expect(len(sends) == self.notified, "compared", "after {}: property stream whose comparison tells all values apart sent {!r} for {} notifications", what, sends, self.notified)
                obs.count("own_comparison")
            if n.kind in ("value", "objects", "index"):
                expect(len(sends) <= 1, "sent-twice", "after {}: {} stream sent {!r}", what, n.kind, sends)
            n.last = want

    def closable(self, k):
        used = {id(i) for n in self.live() for i in n.inputs}
        c = [n for n in self.live(("map", "combine", "prop", "propall", "concat", "repeat")) if id(n) not in used]
        return c[k % len(c)] if c else None

    def close_node(self, n, release):
        n.closing = True
        if release:
            n.stream.remove_ref()
        else:
            n.stream.close()
        n.closing = False
        n.closed = True

    def step(self, op):
        obs = self.obs
        kind = op[0]
        source = None
        if kind == "add":
            self.add(op[1])
        elif kind in ("set", "set_close"):
            # sources stay changeable also when what depends on them has been closed
            c = self.live(("value", "index"))
            if not c:
                return
            n = source = c[op[1] % len(c)]
            v = value_of(op[2])
            if n.kind == "index":
                v = [None, 1, 2, 3][op[2] % 4]
            if kind == "set_close" and n.kind == "value":
                victim = self.closable(op[3])

                def hook():
                    n.hook = None
                    if victim is not None and not victim.closed:
                        self.close_node(victim, op[3] % 2 == 0)
                        obs.count("closed_while_sending")
                n.hook = hook
            if n.current == v:
                obs.count("equal_sets")
            else:
                n.current = v
            n.stream.value = v
            n.hook = None
            if any(m.closed for m in self.nodes):
                obs.count("changes_after_close")
        elif kind == "obj":
            o = self.objs[op[1]]
            source = (o, op[2])
            o.put(op[2], value_of(op[3]))
            self.notified = 1
            if op[3] % 3 == 0:
                self.notified = 2
                o.notify_property_changed(op[2])
        elif kind == "switch":
            c = self.live(("objects",))
            if not c:
                return
            n = source = c[op[1] % len(c)]
            n.current = self.objs[op[2]]
            n.stream.value = self.objs[op[2]]
        elif kind == "close":
            n = self.closable(op[1])
            if n is None:
                return
            self.close_node(n, op[2])
            obs.count("closed")
        obs.ev(kind, [(n.kind, len(n.sends)) for n in self.nodes if n.sends])
        self.check(source, op)


def execute(case, obs):
    g = Graph(obs)
    for op in case["ops"]:
        g.step(op)
        obs.state(tuple((n.kind, n.closed, repr(n.last)) for n in g.nodes))
    # tear down in reverse order
    for n in reversed(g.nodes):
        if not n.closed and n.kind not in ("value", "const", "objects", "index"):
            g.close_node(n, len(g.nodes) % 2 == 0)
    g.check(None, "tear down")
    for n in g.nodes:
        if n.kind == "value":
            n.current = n.stream.value = "last"
    for n in g.nodes:
        if n.closed:
            expect(not n.sends, "sends-after-close", "closed {} stream sent {!r}", n.kind, n.sends)
    obs.nontrivial = any(n.all_sends for n in g.nodes if n.kind not in ("value", "objects", "index"))


FAMILIES = [Family("graphs", gen, execute, 90000, 500000)]
