"""C14: registration, subscriptions and modified counts."""
import datetime
import gc
import json
import uuid

from nion.utils import Persistence

from mon import persist
from mon.core import Family, expect

PROPERTY = "C14"
RULE = ("random histories of changes on three trees in two contexts (two trees share a context), with moves of subtrees between trees and contexts, detaching and attaching of roots, and subscriptions made at any time, also from callbacks; objects which go away without being detached; "
        "registered objects, registration events, subscriber calls, context, parent and modified counts of all objects are compared with the model after every operation; non-trivial: at least one registration observed after the start")
ASSUMPTIONS = ["a subscription ends when its object is unregistered (the context discards it then)", "objects are registered under a uuid which does not change while registered"]
MUST_OBSERVE = ("registered", "unregistered", "subscriber_registered", "subscriber_unregistered", "immediate", "moved_between_contexts", "nested_subscriptions", "counts_unchanged", "dropped", "read_while_attached", "times_changed", "set_again")


def now():
    return datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)


OLD = datetime.datetime(2001, 2, 3)
SECOND = datetime.timedelta(seconds=1)  # clocks may be adjusted


class NullStorage:
    """Storage which only does what a storage must: establish the context of items."""
    def __init__(self):
        self.properties = dict()

    def set_property(self, obj, name, value): pass

    def clear_property(self, obj, name): pass

    def insert_item(self, parent, name, before_index, item):
        item.persistent_object_context = parent.persistent_object_context

    def remove_item(self, parent, name, index, item):
        item.persistent_object_context = None

    def set_item(self, parent, name, item):
        if item is not None:
            item.persistent_object_context = parent.persistent_object_context


class Sub:
    def __init__(self, mon, c, obj, has_reg, has_unreg, nested):
        self.mon, self.c, self.obj, self.nested = mon, c, obj, nested
        self.has = (has_reg, has_unreg)
        self.log = []

    def reg(self, o):
        self.log.append(("reg", o is self.obj))
        if self.mon.contexts[self.c].get_registered_object(self.obj.uuid) is not self.obj:
            self.mon.problem("registered-not-found", "object not found by uuid in its registered callback")
        self.mon.obs.count("subscriber_registered")
        if self.nested:
            self.nested = False
            self.mon.obs.count("nested_subscriptions")
            self.mon.subscribe(self.c, self.obj, True, True, False, in_callback=True)

    def unreg(self, o):
        self.log.append(("unreg", o is self.obj))
        self.mon.obs.count("subscriber_unregistered")


def gen(rng):
    ops = []
    for op in persist.gen_ops(rng, rng.randint(2, 30)):
        ops.append(op)
        r = rng.random()
        if r < 0.10:
            ops.append(["toggle", rng.randrange(3)])
        elif r < 0.35:
            ops.append(["sub", rng.randrange(30), rng.randrange(2), rng.random() < 0.85, rng.random() < 0.85, rng.random() < 0.2])
        elif r < 0.40:
            ops.append(["extend", rng.randrange(20), rng.choice(["kids", "others"]), rng.randint(0, 3)])
        elif r < 0.45:
            ops.append(["custom", rng.randrange(20)])
        elif r < 0.50:
            ops.append(["stamp", rng.randrange(20)])
    return {"before": persist.gen_ops(rng, rng.randint(0, 6)), "ops": ops}


class Monitor:
    def __init__(self, case, obs):
        self.obs = obs
        self.problems = []
        self.contexts = [Persistence.PersistentObjectContext(), Persistence.PersistentObjectContext()]
        self.root_context = [0, 0, 1]
        self.events = [[], []]
        self.listeners = [c.registration_event.listen(self._make(i)) for i, c in enumerate(self.contexts)]
        self.roots = [persist.Node(), persist.Node(), persist.Node()]
        self.ed = persist.Editor(self.roots, 16)
        for op in case["before"]:
            self.ed.do(op)
        self.known = {}  # id -> object (kept alive)
        self.subs = []
        self.attached = [False] * 3
        self.last_context = {}
        self.storages = [NullStorage() for _ in self.roots]
        for i, r in enumerate(self.roots):
            self.contexts[self.root_context[i]]._set_persistent_storage_for_object(r, self.storages[i])
        for i in range(3):
            self.step(["toggle", i])

    def problem(self, kind, message):
        self.problems.append((kind, message))

    def _make(self, c):
        def fired(registered, unregistered):
            self.events[c].append(("reg", registered) if registered is not None else ("unreg", unregistered))
        return fired

    def remember(self):
        for o in self.ed.all(True):
            self.known[id(o)] = o

    def expected_registered(self):
        out = [dict(), dict()]
        for i, r in enumerate(self.roots):
            if self.attached[i]:
                for o in persist.objects(r):
                    out[self.root_context[i]][id(o)] = o
        return out

    def parents(self):
        """id -> (parent, item name, relationship name) from the content of the trees"""
        out = {}
        for r in self.roots + self.ed.parked:
            out[id(r)] = None
            for o in persist.objects(r):
                for n in o.item_names:
                    x = o.get_item(n)
                    if x is not None:
                        out[id(x)] = (o, n, None)
                for n in o.relationship_names:
                    for x in getattr(o, n):
                        out[id(x)] = (o, None, n)
        return out

    def subscribe(self, c, obj, has_reg, has_unreg, nested, in_callback=False):
        s = Sub(self, c, obj, has_reg, has_unreg, nested)
        s.pos = len(self.events[c])
        s.expect = []
        already = self.contexts[c].get_registered_object(obj.uuid) is not None
        if already:
            if has_reg:
                s.expect.append(("reg", True))
            self.obs.count("immediate")
        s.live = True
        s.fresh = True
        self.subs.append(s)
        self.contexts[c].subscribe(obj.uuid, s.reg if has_reg else None, s.unreg if has_unreg else None)
        if already and s.log != s.expect:
            self.problem("immediate", f"subscribing to a registered object called {s.log} instead of {s.expect}")

    def step(self, op):
        obs = self.obs
        self.remember()
        if op[0] in ("set", "item", "clear", "insert", "remove", "stamp") and op[1] % 4 == 0:
            for o in self.ed.all(True):
                o._set_modified(OLD)
        before = self.expected_registered()
        counts = {i: o.modified_count for i, o in self.known.items()}
        states = {i: o.modified_state for i, o in self.known.items()}
        times = {i: o.modified for i, o in self.known.items()}
        written = None
        parents = self.parents()
        marks = [len(e) for e in self.events]
        for s in self.subs:
            s.fresh = False
        changed = None
        kind = op[0]
        if kind == "toggle":
            i = op[1]
            self.attached[i] = not self.attached[i]
            self.roots[i].persistent_object_context = self.contexts[self.root_context[i]] if self.attached[i] else None
        elif kind == "sub":
            objs = self.ed.all(True)
            self.subscribe(op[2], objs[op[1] % len(objs)], *op[3:])
        elif kind == "extend":
            obj = self.ed.pick(op[1])
            if op[2] not in obj.relationship_names or len(self.ed.all()) > 14:
                return
            items = [persist.Leaf() for _ in range(op[3])]
            obj.extend_items(op[2], items)
            changed = obj if items else None
            got = getattr(obj, op[2])
            expect(len(got) >= len(items) and all(a is b for a, b in zip(got[len(got) - len(items):], items)), "extended", "{} of {} items have been appended", sum(x in got for x in items), len(items))
        elif kind == "custom":
            obj = self.ed.pick(op[1])
            obj._update_persistent_property("custom", 1)
            changed = obj
        elif kind == "stamp":
            obj = changed = self.ed.pick(op[1])
            obj._set_modified(OLD)
            self.check_times(changed, parents, times, OLD, OLD, kind)
        else:
            act = self.ed.prepare(op)
            if act is None:
                return
            new = act[3] if kind == "item" else act[4] if kind == "insert" else None
            if new is not None:
                for o in persist.objects(new):
                    if id(o) not in self.known:
                        self.known[id(o)] = o
                        counts[id(o)], states[id(o)] = o.modified_count, o.modified_state
            changed = act[1]
            written = json.dumps(changed.write_to_dict(), sort_keys=True) if act[0] == "set" else None
            t0 = now()
            self.ed.perform(act)
            t1 = now()
            if written is not None and changed.modified_count == counts[id(changed)] and json.dumps(changed.write_to_dict(), sort_keys=True) == written:
                changed = None  # setting the value it has already is no change, and need not count
            self.check_times(changed, parents, times, t0 - SECOND, t1 + SECOND, kind)
        obs.ev(kind, *[len(e) - m for e, m in zip(self.events, marks)])
        self.check(before, counts, states, parents, marks, changed, kind)

    def set_again(self):
        """Items set to what they are already stay where they are (whatever is told about it)."""
        for o in self.ed.all(True):
            for name in o.item_names:
                item = o.get_item(name)
                if item is None:
                    continue
                self.obs.count("set_again")
                context = o.persistent_object_context
                o.set_item(name, item)
                expect(o.get_item(name) is item, "set-again", "item {} differs after setting it to itself", name)
                pp = item.persistent_object_parent
                expect(pp is not None and pp.parent is o and pp.item_name == name, "set-again-parent", "wrong parent after setting item {} to itself", name)
                for x in persist.objects(item):
                    expect(x.persistent_object_context is context, "set-again-context", "wrong context after setting item {} to itself", name)
                    expect(context is None or context.get_registered_object(x.uuid) is x, "set-again-registered", "not registered after setting item {} to itself", name)

    def check_times(self, changed, parents, times, t0, t1, kind):
        """the object and its ancestors have been modified now, others not"""
        touched = []
        o = changed
        while o is not None:
            touched.append(o)
            p = parents.get(id(o))
            o = p[0] if p else None
        for o in touched:
            expect(t0 <= o.modified <= t1, "modified-time", "after {}: modified is {} instead of the time of the change", kind, o.modified)
        self.obs.count("times_changed")
        for i, t in times.items():
            if all(i != id(o) for o in touched):
                expect(self.known[i].modified == t, "modified-time-other", "after {}: modified of an unrelated object changed", kind)

    def check(self, before, counts, states, parents, marks, changed, kind):
        obs = self.obs
        expect(not self.problems, *(self.problems[0] if self.problems else ("", "")))
        after = self.expected_registered()
        now = {id(o): o for o in self.ed.all(True)}
        # registered objects and their events
        for c in range(2):
            for i, o in {**self.known, **now}.items():
                got = self.contexts[c].get_registered_object(o.uuid)
                want = o if i in after[c] else None
                expect(got is want, "registered-objects", "after {}: context {} {} the object", kind, c, "does not know" if want is not None else "still knows")
            evs = self.events[c][marks[c]:]
            want = sorted([("reg", i) for i in after[c] if i not in before[c]] + [("unreg", i) for i in before[c] if i not in after[c]])
            expect(sorted((e, id(o)) for e, o in evs) == want, "registration-events", "after {}: context {} fired {} where {} were expected", kind, c, [e for e, o in evs], [e for e, i in want])
            for e, i in want:
                obs.count("registered" if e == "reg" else "unregistered")
                if e == "reg":
                    if self.last_context.get(i, c) != c:
                        obs.count("moved_between_contexts")
                    self.last_context[i] = c
        # context and parent
        new_parents = self.parents()
        for i, o in now.items():
            want = next((self.contexts[c] for c in range(2) if i in after[c]), None)
            expect(o.persistent_object_context is want, "context", "after {}: an object has the wrong context", kind)
            expect(o.contexts[-1] is want, "context-changed", "after {}: an object has not been told that its context has changed", kind)
            p = new_parents[i]
            pp = o.persistent_object_parent
            if want is not None:
                expect(o.known_when_told, "told-early", "after {}: the context did not know an object when it was told about its context", kind)
                expect(o.parent_when_told is (p[0] if p else None), "told-parent", "after {}: an object did not have its parent when it was told about its context", kind)
            if p is None:
                expect(pp is None, "parent", "after {}: an object outside of any other still has a parent", kind)
            else:
                expect(pp is not None and pp.parent is p[0] and pp.item_name == p[1] and pp.relationship_name == p[2], "parent", "after {}: an object has the wrong parent", kind)
        # subscribers
        for s in self.subs:
            i = id(s.obj)
            if s.live and not s.fresh:
                if i in before[s.c] and i not in after[s.c]:
                    if s.has[1]:
                        s.expect.append(("unreg", True))
                    s.live = False
                elif i in after[s.c] and i not in before[s.c]:
                    if s.has[0]:
                        s.expect.append(("reg", True))
            expect(s.log == s.expect, "subscriber", "after {}: a subscriber was called {} instead of {}", kind, s.log, s.expect)
        # modified
        touched = set()
        o = changed
        while o is not None:
            touched.add(id(o))
            p = parents.get(id(o))
            o = p[0] if p else None
        for i, o in self.known.items():
            if i in counts:
                dc, ds = o.modified_count - counts[i], o.modified_state - states[i]
                if i in touched:
                    expect(dc > 0 and ds > 0, "modified-count", "after {}: modified count of the object or an ancestor did not increase", kind)
                else:
                    expect(dc == 0 and ds == 0, "modified-count-other", "after {}: modified count of an unrelated object changed", kind)
                    obs.count("counts_unchanged")


def execute(case, obs):
    m = Monitor(case, obs)
    start = sum(map(len, m.events))
    for op in case["ops"]:
        m.step(op)
    m.set_again()
    obs.nontrivial = sum(map(len, m.events)) > start


# objects which go away without being detached

def gen_dropped(rng):
    return {"ops": [[rng.choice(["attach", "attach", "detach", "drop", "sub", "sub"]), rng.randrange(3)] for _ in range(rng.randint(3, 14))]}


def execute_dropped(case, obs):
    context = Persistence.PersistentObjectContext()
    uuids = [uuid.uuid4() for _ in range(6)]
    roots = [None] * 3
    events = []
    token = context.registration_event.listen(lambda r, u: events.append(("reg", r.uuid) if r is not None else ("unreg", u.uuid)))
    subs = []  # [number of uuid, log, expected, live]
    for op, i in case["ops"]:
        del events[:]
        want = []
        if op == "attach":
            if roots[i] is not None:
                continue
            roots[i] = r = persist.Leaf() if i else persist.Node()
            r.uuid = uuids[i]
            if i == 0:
                kid = persist.Leaf()
                kid.uuid = uuids[3]
                r.append_item("kids", kid)
                del kid
            for s in subs:
                if s[3] and (s[0] == i or (i == 0 and s[0] == 3)):
                    s[2].append(("reg", uuids[s[0]]))
            r.persistent_object_context = context
            want = [("reg", uuids[i])] + ([("reg", uuids[3])] if i == 0 else [])
            del r
        elif op == "detach":
            if roots[i] is None:
                continue
            for s in subs:
                if s[3] and (s[0] == i or (i == 0 and s[0] == 3)):
                    s[2].append(("unreg", uuids[s[0]]))
                    s[3] = False
            roots[i].persistent_object_context = None
            roots[i] = None
            want = [("unreg", uuids[i])] + ([("unreg", uuids[3])] if i == 0 else [])
        elif op == "drop":
            if roots[i] is None:
                continue
            roots[i] = None
            gc.collect()
            obs.count("dropped")
        else:
            n = i if len(subs) % 2 else [3, 1, 2][i]
            log = []
            there = (roots[0] if n == 3 else roots[n]) is not None
            subs.append([n, log, [("reg", uuids[n])] if there else [], True])
            context.subscribe(uuids[n], lambda o, log=log: log.append(("reg", o.uuid)), lambda o, log=log: log.append(("unreg", o.uuid if o is not None else None)))
        expect(sorted(events) == sorted(want), "registration-events", "after {}: context fired {} instead of {}", op, [e for e, u in events], [e for e, u in want])
        for n in range(4):
            got = context.get_registered_object(uuids[n])
            want_o = roots[n] if n < 3 else (roots[0].kids[0] if roots[0] is not None else None)
            expect(got is want_o, "registered-objects", "after {}: context finds {} under the uuid of {}", op, got, want_o)
            del got, want_o
        for n, log, expected, live in subs:
            expect(log == expected, "subscriber", "after {}: a subscriber was called {} instead of {}", op, log, expected)
        obs.ev(op, i, len(events))
    obs.nontrivial = obs.counters["dropped"] > 0


# objects which are read while attached

def gen_reading(rng):
    return {"before": persist.gen_ops(rng, rng.randint(0, 14)), "same": rng.random() < 0.3, "late": rng.random() < 0.3, "subs": [rng.randrange(12) for _ in range(rng.randint(0, 4))]}


def execute_reading(case, obs):
    source = persist.Node()
    ed = persist.Editor([source])
    for op in case["before"]:
        ed.do(op)
    d = source.write_to_dict()
    uuids = [o.uuid for o in persist.objects(source)]
    context = Persistence.PersistentObjectContext()
    events = []
    token = context.registration_event.listen(lambda r, u: events.append(("reg", r) if r is not None else ("unreg", u)))
    root = persist.Node()
    if case["same"]:
        root.uuid = source.uuid
    first = root.uuid
    logs = {}
    subscribed = {uuids[n % len(uuids)] for n in case["subs"]}
    for u in subscribed:
        logs[u] = log = []
        context.subscribe(u, lambda o, log=log: log.append(("reg", o.uuid)), lambda o, log=log: log.append(("unreg", o.uuid)))
    context._set_persistent_storage_for_object(root, NullStorage())

    def read():
        root.begin_reading()
        root.read_from_dict(d)
        root.finish_reading()
    if case["late"]:
        read()
        root.persistent_object_context = context
    else:
        root.persistent_object_context = context
        read()
        obs.count("read_while_attached")
    objs = persist.objects(root)
    expect([o.uuid for o in objs] == uuids, "read-uuids", "read objects with uuids {} instead of {}", [o.uuid for o in objs], uuids)
    for o in objs:
        expect(context.get_registered_object(o.uuid) is o, "registered-objects", "a read object is not found")
        expect(o.persistent_object_context is context, "context", "a read object has the wrong context")
        expect(o.known_when_told, "told-early", "the context did not know a read object when it was told about its context")
        expect(o.parent_when_told is (o.persistent_object_parent.parent if o is not root else None), "told-parent", "a read object did not have its parent when it was told about its context")
    if first != root.uuid:
        expect(context.get_registered_object(first) is None, "registered-objects", "an object which was read while attached is still found under the uuid it had before")
    for o in objs:
        evs = [e for e, x in events if x is o]
        want = ["reg", "unreg", "reg"] if o is root and not case["late"] and first != root.uuid else ["reg"]
        expect(evs == want, "registration-events", "reading fired {} instead of {} for the {} object", evs, want, "top" if o is root else "inner")
    expect(len(events) == sum(1 for e, x in events if any(x is o for o in objs)), "registration-events", "reading fired events for other objects")
    for u in subscribed:
        expect(logs[u] == [("reg", u)], "subscriber", "reading called a subscriber {}", [e for e, _ in logs[u]])
    del events[:]
    root.persistent_object_context = None
    expect(sorted((e, id(x)) for e, x in events) == sorted(("unreg", id(o)) for o in objs), "registration-events", "detaching fired {}", [e for e, x in events])
    for u in uuids + [first]:
        expect(context.get_registered_object(u) is None, "registered-objects", "an object is still found after being detached")
    obs.ev(len(objs), case["same"], case["late"], tuple(sorted(d)))


FAMILIES = [Family("reading", gen_reading, execute_reading, 4500, 20000), Family("context", gen, execute, 15000, 150000), Family("dropped", gen_dropped, execute_dropped, 4500, 20000)]
