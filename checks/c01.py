"""C01: event delivery. Online checker over the calls which an event makes to its listeners."""
import gc
import weakref

from mon.core import Family, Violation, expect, failure
from nion.utils import Event, Observable

PROPERTY = "C01"
RULE = ("random histories of listen (plain, owned, as context manager, same function twice), close, drop, owner death and fire / fire_any / "
        "fire_all on two events, where listeners themselves run such operations (nested to depth 3) and may raise; non-trivial: at least two listener calls were observed")
ASSUMPTIONS = ["results and later listeners of a fire in which a listener raised are not specified",
               "a listener whose token is dropped while the fire is in progress may still be called once by that fire"]
MUST_OBSERVE = ("with_left_by_exception", "calls", "fires", "closed_skipped", "raised", "nested_fires", "owner_deaths")

RETS = [True, False, None, 0, 1, "", "x", [], [0]]


def gen_ops(rng, depth, n):
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.30:
            script = []
            if depth < 2 and rng.random() < 0.45:
                script = gen_ops(rng, depth + 1, rng.randint(1, 3))
            ops.append(["listen", rng.randint(0, 1), rng.choice(["plain", "plain", "plain", "owner", "shared"]), rng.randrange(len(RETS)) if rng.random() < 0.5 else (1 if rng.random() < 0.3 else 0),
                        rng.randint(0, 2), script, 1 if rng.random() < 0.08 else 0, rng.randint(0, 3)])
        elif r < 0.42:
            ops.append(["close", rng.randint(0, 11)])
        elif r < 0.50:
            ops.append(["drop", rng.randint(0, 11)])
        elif r < 0.55:
            ops.append(["kill", rng.randint(0, 2)])
        elif r < 0.60:
            ops.append(["with", rng.randint(0, 1)])
        else:
            ops.append(["fire", rng.randint(0, 1), rng.choice(["fire", "fire", "fire_any", "fire_all"]), rng.randint(0, 2), rng.randint(0, 1)])
    return ops


def gen(rng):
    return {"ops": gen_ops(rng, 0, rng.randint(6, 26))}


class Owner:
    def __init__(self, falsy):
        self.falsy = falsy

    def __bool__(self):
        return not self.falsy


class Falsy:
    """A function object which is false in a condition."""
    def __init__(self, fn):
        self.fn = fn

    def __bool__(self):
        return False

    def __call__(self, *args, **kwargs):
        return self.fn(*args, **kwargs)


class LeaveWith(Exception):
    pass


class L:
    """Model of one listener."""
    def __init__(self, lid, event, ret, script, raises, max_scripted):
        self.lid, self.event, self.ret, self.script, self.raises = lid, event, ret, script, raises
        self.left = max_scripted
        self.token = None
        self.closed = False
        self.dropped = False
        self.owner = None
        self.ready = False
        self.pinned = []  # fires in progress when it was dropped, which may keep it alive until they end

    @property
    def live(self):
        return self.ready and not self.closed and not self.dropped


class Frame:
    def __init__(self, event, mode, expected, args, kwargs):
        self.event, self.mode, self.expected, self.args, self.kwargs = event, mode, expected, args, kwargs
        self.pos = 0
        self.over = False  # must not call any more
        self.raised = False
        self.result = mode == "fire_all"


class Harness:
    def __init__(self, obs):
        self.obs = obs
        self.events = [Event.Event(), Event.Event(trace=True)]
        self.listeners = []
        self.owners = {}
        self.stack = []
        self.depth = 0
        self.problem = None
        self.shared = {}

    def fail(self, kind, msg):
        # called from listener callbacks, where exceptions get contained: remember
        if self.problem is None:
            self.problem = (kind, msg)

    def called(self, l, args, kwargs):
        self.obs.count("calls")
        self.obs.ev("call", l.lid, len(self.stack))
        frame = self.stack[-1] if self.stack else None
        if frame is None or frame.event != l.event:
            self.fail("call-without-fire", f"listener {l.lid} called while its event is not firing")
        else:
            if args != frame.args or kwargs != frame.kwargs or any(a is not b for a, b in zip(args, frame.args)):
                self.fail("wrong-arguments", f"listener {l.lid} got {args} {kwargs}, fired {frame.args} {frame.kwargs}")
            if frame.over:
                self.fail("called-after-stop", f"listener {l.lid} called after {frame.mode} was decided")
            exp = frame.expected
            if l not in exp:
                self.fail("called-not-live", f"listener {l.lid} was not live when the fire started")
            else:
                pos = exp.index(l)
                if pos < frame.pos:
                    self.fail("called-twice-or-out-of-order", f"listener {l.lid} called again or out of order")
                else:
                    for other in exp[frame.pos:pos]:
                        if not other.closed and not other.dropped and not frame.raised:
                            self.fail("listener-skipped", f"listener {other.lid} skipped by {frame.mode}")
                    frame.pos = pos + 1
            if l.closed:
                self.fail("called-after-close", f"listener {l.lid} called after close")
        if l.script and l.left > 0 and self.depth < 3:
            l.left -= 1
            self.depth += 1
            self.run(l.script)
            self.depth -= 1
        if frame is not None and frame.event == l.event:
            if l.raises:
                frame.raised = True
                self.obs.count("raised")
            elif frame.mode == "fire_any" and l.ret:
                frame.over, frame.result = True, True
            elif frame.mode == "fire_all" and not l.ret:
                frame.over, frame.result = True, False
        if l.raises:
            raise failure(l.lid * 3 + self.obs.counters["calls"], "listener raises")
        return l.ret

    def run(self, ops):
        for op in ops:
            if self.problem:
                return
            self.obs.count("op_" + op[0])
            getattr(self, "op_" + op[0])(*op[1:])

    def op_listen(self, e, kind, ret, owner, script, raises, max_scripted):
        l = L(len(self.listeners), e, RETS[ret], script, raises, max_scripted)
        self.listeners.append(l)
        fn = (lambda l: lambda *a, **k: self.called(l, a, k))(l)
        if max_scripted == 3:
            fn = Falsy(fn)
        if kind == "owner":
            if owner not in self.owners:
                self.owners[owner] = Owner(owner == 0)
            l.owner = owner
            l.token = self.events[e].listen(fn, owner=self.owners[owner])
        else:
            l.token = self.events[e].listen(fn)
        l.ready = True
        self.obs.ev("listen", l.lid, kind)

    def op_close(self, i):
        if self.listeners:
            l = self.listeners[i % len(self.listeners)]
            if l.token is not None:
                l.closed = True
                l.token.close()
                self.obs.ev("close", l.lid)

    def op_drop(self, i):
        if self.listeners:
            l = self.listeners[i % len(self.listeners)]
            if l.token is not None and l.owner is None:
                l.dropped = True
                l.pinned = [f for f in self.stack if l in f.expected]
                l.token = None
                if not self.stack:
                    gc.collect()
                self.obs.ev("drop", l.lid)

    def op_kill(self, o):
        if o in self.owners:
            for l in self.listeners:
                if l.owner == o:
                    l.closed = True
            ref = weakref.ref(self.owners.pop(o))
            for l in self.listeners:
                if l.owner == o:
                    l.owner = -1
            self.obs.count("owner_deaths")
            self.obs.ev("kill", o)

    def op_with(self, e):
        l = L(len(self.listeners), e, None, [], 0, 0)
        self.listeners.append(l)
        by_exception = l.lid % 2 == 1
        try:
            with self.events[e].listen(lambda *a, **k: self.called(l, a, k)) as token:
                l.token = token
                l.ready = True
                self.op_fire(e, "fire", 1, 0)
                if not isinstance(token, Event.EventListener):
                    self.fail("with-token", f"the with statement gives {token!r} instead of the listener")
                if by_exception:
                    raise LeaveWith()
            if by_exception:
                self.fail("with-swallowed", "an exception raised in a with statement did not leave it")
        except LeaveWith:
            self.obs.count("with_left_by_exception")
        l.closed = True
        self.obs.ev("with", l.lid, by_exception)

    def op_fire(self, e, mode, nargs, nkw):
        args = tuple(object() for _ in range(nargs))
        kwargs = {"k%d" % i: object() for i in range(nkw)}
        expected = [l for l in self.listeners if l.event == e and (l.live or (l.dropped and not l.closed and any(f in self.stack for f in l.pinned)))]
        frame = Frame(e, mode, expected, args, kwargs)
        self.stack.append(frame)
        if len(self.stack) > 1:
            self.obs.count("nested_fires")
        self.obs.count("fires")
        try:
            result = getattr(self.events[e], mode)(*args, **kwargs)
        except Exception as ex:
            self.fail("exception-reached-caller", f"{mode} raised {ex!r}")
            result = None
        self.stack.pop()
        self.obs.ev(mode, len(expected), frame.pos, frame.raised)
        if not frame.over and not frame.raised:
            for l in frame.expected[frame.pos:]:
                if l.closed or l.dropped:
                    self.obs.count("closed_skipped")
                else:
                    self.fail("listener-skipped", f"listener {l.lid} not called by {mode}")
        if mode != "fire" and not frame.raised:
            if result is not frame.result:
                self.fail("wrong-result", f"{mode} returned {result!r}, expected {frame.result!r}")


def execute(case, obs):
    h = Harness(obs)
    h.run(case["ops"])
    # an extra plain fire shows that nothing got unsubscribed and nothing dead came back
    if not h.problem:
        for e in (0, 1):
            h.run([["fire", e, "fire", 1, 1]])
    if h.problem:
        raise Violation(*h.problem)
    for l in h.listeners:
        if l.token is not None:
            expect(bool(l.token.is_closed) == l.closed, "is-closed", "is_closed of listener {} is {}", l.lid, l.token.is_closed)
    obs.nontrivial = obs.counters["calls"] >= 2
    obs.state(tuple((l.event, l.closed, l.dropped, bool(l.ret)) for l in h.listeners))


NOTIFY = {
    "property_changed_event": ("notify_property_changed", 1), "item_set_event": ("notify_set_item", 2), "item_cleared_event": ("notify_clear_item", 1),
    "item_inserted_event": ("notify_insert_item", 3), "item_removed_event": ("notify_remove_item", 3), "item_added_event": ("notify_add_item", 2),
    "item_discarded_event": ("notify_discard_item", 2), "item_content_changed_event": ("notify_item_content_changed", 3),
}


def gen_notify(rng):
    return {"ops": [[rng.choice(sorted(NOTIFY)), rng.randint(0, 1)] for _ in range(rng.randint(3, 20))]}


def execute_notify(case, obs):
    os_ = [Observable.Observable(), Observable.Observable()]
    got = []
    tokens = [getattr(o, name).listen((lambda i, name: lambda *a, **k: got.append((i, name, a, k)))(i, name)) for i, o in enumerate(os_) for name in NOTIFY]
    for name, i in case["ops"]:
        method, n = NOTIFY[name]
        args = tuple(object() for _ in range(n))
        del got[:]
        getattr(os_[i], method)(*args)
        obs.ev(name, i, len(got))
        obs.count("notifications")
        expect(got == [(i, name, args, {})], "notify-wrong-event", "{} fired {}", method, [g[:2] for g in got])


def setup():
    gc.collect()
    gc.freeze()


FAMILIES = [
    Family("histories", gen, execute, 100000, 400000, min_events=4),
    Family("observable", gen_notify, execute_notify, 10000, 40000),
]
