"""C02: events under concurrency."""
from mon import sched

sched.install()

import gc
import threading
import time

from mon.core import Family, expect
from nion.utils import Event

PROPERTY = "C02"
RULE = ("two to four threads listen to (also with owners), close, drop (also by garbage collection of cycles) and fire one event, under a deterministic scheduler (switching at locks and at opcodes or lines of the code, with garbage collections injected there) "
        "and on free running threads; each fire's calls are checked against the log; non-trivial: at least one listener call while another thread was inside an operation")
ASSUMPTIONS = ["listeners do not raise", "a dropped listener lives on while a fire which began before holds it"]
MUST_OBSERVE = ("calls", "must_calls", "must_not", "overlapping", "drops", "cycle_drops", "owner_drops", "scheduled_runs", "native_runs", "collections_injected", "nested_ops")


def gen(rng, native=False):
    threads = []
    for t in range(rng.randint(2, 4)):
        ops = []
        for _ in range(rng.randint(2, 7)):
            r = rng.random()
            if r < 0.30:
                ops.append(["listen", rng.choice(["plain", "plain", "owner", "cycle"]), rng.choice([None] * 6 + ["listen", "close", "drop"])])
            elif r < 0.42:
                ops.append(["close", rng.randrange(12)])
            elif r < 0.54:
                ops.append(["drop", rng.randrange(12)])
            else:
                ops.append(["fire", rng.choice(["fire", "fire", "fire_any", "fire_all"])])
        threads.append(ops)
    return {"init": [rng.choice(["plain", "plain", "owner", "cycle"]) for _ in range(rng.randint(0, 4))], "threads": threads, "collect": 0.0 if native else rng.choice([0, 0, 0.01, 0.05]),
            "seed": rng.getrandbits(40), "mode": None if native else sched.gen_mode(rng)}


def gen_native(rng):
    c = gen(rng, True)
    c["threads"] = [t * 8 for t in c["threads"]]
    return c


class Holder:
    pass


class World:
    def __init__(self, case, obs):
        self.obs = obs
        self.event = Event.Event()
        self.log = []
        self.tokens = {}  # id -> token, owner or holder in a cycle
        self.kinds = {}
        self.closed = set()
        self.claims = {}
        self.counter = iter(range(10 ** 9))

    def listen(self, kind, nested=None):
        k = next(self.counter)
        state = {"n": nested}

        def called(f):
            self.log.append(("call", f, k))
            n, state["n"] = state["n"] if not self.final else None, None
            if n == "listen":
                self.obs.count("nested_ops")
                self.listen("plain")
            elif n == "close":
                self.obs.count("nested_ops")
                self.close(0)
            elif n == "drop":
                self.obs.count("nested_ops")
                self.drop(0)
            return self.result.get(f)
        self.kinds[k] = kind
        self.log.append(("listen_begin", k))
        if kind == "owner":
            owner = Holder()
            self.event.listen(called, owner=owner)
            token = owner
        elif kind == "cycle":
            token = Holder()
            token.me = token
            token.listener = self.event.listen(called)
        else:
            token = self.event.listen(called)
        self.log.append(("listen_end", k))
        self.tokens[k] = token

    result = {}
    final = False

    def claim(self, k):
        """each listener is closed or dropped by one thread only"""
        me = object()
        return self.claims.setdefault(k, me) is me

    def close(self, n):
        ks = [k for k in list(self.tokens) if self.kinds[k] != "owner" and k not in self.closed]
        if not ks:
            return
        k = ks[n % len(ks)]
        if not self.claim(k):
            return
        token = self.tokens[k]
        self.closed.add(k)
        self.log.append(("gone_begin", k, "close"))
        (token.listener if self.kinds[k] == "cycle" else token).close()
        self.log.append(("gone_end", k, "close"))

    def drop(self, n):
        ks = [k for k in list(self.tokens) if k not in self.closed]
        if not ks:
            return
        k = ks[n % len(ks)]
        if not self.claim(k):
            return
        token = self.tokens.pop(k)
        kind = self.kinds[k]
        self.log.append(("gone_begin", k, "drop"))
        del token
        if kind == "cycle":
            # the cycle goes away when garbage is collected some time later
            self.obs.count("cycle_drops")
            self.log.append(("cycle", k))
        else:
            self.obs.count("owner_drops" if kind == "owner" else "drops")
            self.log.append(("gone_end", k, "drop"))

    def fire(self, how):
        f = next(self.counter)
        self.result[f] = {"fire": None, "fire_any": False, "fire_all": True}[how]
        self.log.append(("fire_begin", f, how))
        r = getattr(self.event, how)(f)
        self.log.append(("fire_end", f, r))


def setup():
    gc.collect()
    gc.freeze()  # collections injected later look at recent objects only


def execute(case, obs):
    w = World(case, obs)
    w.result = {}
    for kind in case["init"]:
        w.listen(kind)

    def worker(ops):
        def body():
            for op in ops:
                if op[0] == "listen":
                    w.listen(op[1], op[2])
                elif op[0] == "close":
                    w.close(op[1])
                elif op[0] == "drop":
                    w.drop(op[1])
                else:
                    w.fire(op[1])
        return body
    collect = case["collect"]
    enabled = gc.isenabled()
    gc.disable()
    try:
        if collect:
            case = {**case, "mode": {**case["mode"], "trace": "opcode", "inject": collect}}
        ok = sched.run(case, [worker(ops) for ops in case["threads"]], obs, [w])
    finally:
        if enabled:
            gc.enable()
    if not ok:
        return
    check(w, obs)


def covered(spans, a, b):
    """whether some fire was in progress at every time from a to b"""
    t = a
    while t < b:
        ends = [y for x, y in spans if x < t < y]
        if not ends:
            return False
        t = max(ends)
    return True


def check(w, obs):
    log = w.log
    pos = {}
    info = {}
    for p, e in enumerate(log):
        obs.ev(*e[:3])
        pos.setdefault(e[:2], p)
        if e[0] in ("gone_begin", "gone_end"):
            info[e[1]] = e[2]
    fires = [e[1] for e in log if e[0] == "fire_begin"]
    calls = {f: [] for f in fires}
    overlapping = False
    for p, e in enumerate(log):
        if e[0] == "call":
            expect(e[1] in calls, "call-outside", "listener called outside of a fire")
            calls[e[1]].append((p, e[2]))
    listeners = sorted(w.kinds)
    n_inside = 0
    spans = [(pos[("fire_begin", f)], pos[("fire_end", f)]) for f in fires]
    for f in fires:
        fb, fe = pos[("fire_begin", f)], pos[("fire_end", f)]
        called = [k for p, k in calls[f]]
        for p, k in calls[f]:
            expect(fb < p < fe, "call-outside", "listener {} called for fire {} outside of it", k, f)
        expect(len(called) == len(set(called)), "called-twice", "fire {} called {}", f, called)
        obs.count("calls", len(called))
        if any(fb < p < fe and e[0] != "call" for p, e in enumerate(log)):
            overlapping = overlapping or bool(called)
            obs.count("overlapping")
        for k in listeners:
            gb = pos.get(("gone_begin", k), len(log))
            ge = pos.get(("gone_end", k), len(log) + 1)
            if pos[("listen_end", k)] < fb and gb > fe:
                expect(k in called, "not-called", "fire {} did not call listener {} which was added before and not closed or dropped", f, k)
                obs.count("must_calls")
            elif ge < fb:
                # a fire which began before the drop may keep the listener alive
                # (which another one, beginning before that one ends, may see and keep alive further, and so on)
                pinned = info.get(k) == "drop" and covered(spans, ge, fb)
                if not pinned:
                    expect(k not in called, "called-after-gone", "fire {} called listener {} after {}", f, k, info.get(k))
                    obs.count("must_not")
        for i, a in enumerate(called):
            for b in called[i + 1:]:
                expect(not pos[("listen_end", b)] < pos[("listen_begin", a)] if ("listen_end", b) in pos else True, "call-order", "fire {} called {} before {} which was added first", f, a, b)
        how, r = log[fb][2], log[fe][2]
        expect(r == {"fire": None, "fire_any": False, "fire_all": True}[how], "fire-result", "{} returned {}", how, r)
    # afterwards
    gc.collect()
    alive = {k for k in w.tokens if k not in w.closed}
    held = set(w.tokens)
    active = [l for l in w.event.listeners if l is not None and not l.is_closed]
    expect(len(active) == len(alive), "listeners-after", "{} active listeners reported where {} are alive", len(active), len(alive))
    expect(len(alive) <= w.event.listener_count <= len(held), "listener-count", "listener_count is {} where {} are alive, {} including closed ones", w.event.listener_count, len(alive), len(held))
    w.final = True
    w.fire("fire")
    f = [e[1] for e in w.log if e[0] == "fire_begin"][-1]
    called = [e[2] for e in w.log if e[0] == "call" and e[1] == f]
    expect(set(called) == alive and len(called) == len(alive), "calls-after", "a last fire called {} instead of {}", sorted(called), sorted(alive))
    obs.nontrivial = overlapping


FAMILIES = [Family("scheduled", gen, execute, 22000, 200000), Family("native", gen_native, execute, 160, 3000)]
