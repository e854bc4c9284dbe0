"""C13: storage mirrors the tree."""
import copy
import json

from nion.utils import Persistence

from mon import persist
from mon.core import Family, Violation, expect

PROPERTY = "C13"
RULE = ("random histories of property, item and relationship changes, moves between trees, detaching and attaching, on two trees with different storages in one context; after every operation the storage, "
        "the storage calls and a tree read back from the storage are compared with the tree; non-trivial: at least one storage call observed")
ASSUMPTIONS = ["storage handlers address objects with get_accessor_in_parent, as the context's own users do", "values are plain json values, or converted to such"]
MUST_OBSERVE = ("set_property", "clear_property", "insert_item", "remove_item", "set_item", "silent_changes", "read_backs", "detached", "extras", "reloaded")


class AliasStorage(persist.DictStorage):
    """Keeps what it gets, without copying: it must not be shared with the objects."""
    def set_property(self, obj, name, value):
        self.calls.append(("set_property", obj, name, copy.deepcopy(value)))
        self.find(obj)[name] = value


class Extra:
    """The parts of the storage interface which the context passes on as they are."""
    def extra(self, *call):
        self.extras.append(call)
        return ("result", len(self.extras))

    def read_external_data(self, item, name): return self.extra("read_external_data", item, name)

    def write_external_data(self, item, name, value): return self.extra("write_external_data", item, name, value)

    def enter_write_delay(self, obj): return self.extra("enter_write_delay", obj)

    def exit_write_delay(self, obj): return self.extra("exit_write_delay", obj)

    def is_write_delayed(self, obj): return self.extra("is_write_delayed", obj)

    def rewrite_item(self, item): return self.extra("rewrite_item", item)

    def get_storage_property(self, item, name): return self.extra("get_storage_property", item, name)


class ExtraAliasStorage(Extra, AliasStorage):
    pass


class ExtraDictStorage(Extra, persist.DictStorage):
    pass


class ExtraOldStorage(Extra, persist.OldStorage):
    """Has properties, of the top level object, but no get_properties."""
    pass


STORAGES = {"alias": ExtraAliasStorage, "dict": ExtraDictStorage, "old": ExtraOldStorage}


EXTRAS = {"read_external_data": 1, "write_external_data": 2, "enter_write_delay": 0, "exit_write_delay": 0, "is_write_delayed": 0, "rewrite_item": 0, "get_storage_property": 1}


def expected_property_calls(obj, name, value):
    kw, kind = persist.PROPERTIES[name]
    if type(obj).TYPE in ("leaf", "bare"):
        kw = {}
    key = kw.get("key", name)
    if kind == "pair":
        return [("set_property", obj, "g_lo", value[0]), ("set_property", obj, "g_hi", value[1])]
    if value is None:
        return [("clear_property", obj, key)]
    if name == "x":
        key = "one"
    if name in ("e", "z"):
        value = persist.clamp(value)
    if name in ("y", "z"):
        value = {"box": value}
    if kind == "tuple":
        value = list(value)
    elif kind in ("val", "valdefault"):
        value = {"x": value.x, "l": list(value.l)}
    elif kind == "uuid":
        value = str(value)
    return [("set_property", obj, key, value)]


def gen(rng):
    ops = []
    for op in persist.gen_ops(rng, rng.randint(2, 30)):
        ops.append(op)
        r = rng.random()
        if r < 0.05:
            ops.append(["toggle", rng.randrange(2)])
        elif r > 0.93:
            ops.append(["reload", rng.randrange(2), rng.random() < 0.4])
        elif r < 0.13:
            ops.append(["extra", rng.randrange(20), rng.choice(sorted(EXTRAS)), rng.randrange(5)])
        elif r < 0.17:
            ops.append(["custom", rng.randrange(20), rng.randrange(5)])
        elif r < 0.20:
            ops.append(["extend", rng.randrange(20), rng.choice(["kids", "others"]), rng.randint(0, 3)])
    return {"before": persist.gen_ops(rng, rng.randint(0, 6)), "ops": ops, "storage": rng.choice(["alias", "dict", "old"])}


def read(cls, d):
    o = cls()
    o.begin_reading()
    o.read_from_dict(d)
    o.finish_reading()
    return o


def key_of(call):
    return (call[0], id(call[1]), call[2], *(id(x) if isinstance(x, Persistence.PersistentObject) else json.dumps(x, sort_keys=True, default=repr) for x in call[3:]))


def dump(obj):
    return json.dumps(obj.write_to_dict(), sort_keys=True)


def show(call):
    return tuple(repr(x) for x in call)


class Monitor:
    def __init__(self, case, obs):
        self.obs = obs
        self.context = Persistence.PersistentObjectContext()
        self.roots = [persist.Node(), persist.Node()]
        self.ed = persist.Editor(self.roots)
        for op in case["before"]:
            self.ed.do(op)
        self.storage_class = STORAGES[case["storage"]]
        self.storages = [None, None]
        self.custom = [False, False]
        for i in range(2):
            self.attach(i)

    def attach(self, i):
        self.storages[i] = self.storage_class(self.roots[i].write_to_dict())
        self.storages[i].extras = []
        self.custom[i] = False
        self.context._set_persistent_storage_for_object(self.roots[i], self.storages[i])
        self.roots[i].persistent_object_context = self.context
        expect(not self.storages[i].calls, "calls-on-attach", "{}", [show(c) for c in self.storages[i].calls])

    def root_of(self, obj):
        for i, r in enumerate(self.roots):
            if any(x is obj for x in persist.objects(r)):
                return i
        return None

    def expected(self, act):
        kind, obj, name = act[:3]
        if kind == "set":
            return expected_property_calls(obj, name, act[3])
        if kind == "item":
            return [("set_item", obj, name, act[3])]
        if kind == "insert":
            return [("insert_item", obj, name, act[3], act[4])]
        return [("remove_item", obj, name, act[3], act[4])]

    def step(self, op):
        obs = self.obs
        if op[0] == "toggle":
            i = op[1]
            if self.storages[i]:
                old = self.storages[i]
                n = len(old.calls)
                self.roots[i].persistent_object_context = None
                expect(len(old.calls) == n, "calls-on-detach", "{}", [show(c) for c in old.calls[n:]])
                self.context._set_persistent_storage_for_object(self.roots[i], None)
                self.storages[i] = None
                expect(self.context._get_persistent_storage_for_object(self.roots[i]) is None, "storage-of-detached", "storage is still associated with the object")
                obs.count("detached")
            else:
                self.attach(i)
            return
        if op[0] == "reload":
            # as a new session would do: an object read from the storage takes the place of the one written to it
            i = op[1]
            s = self.storages[i]
            if s is None:
                return
            old = self.roots[i]
            t = persist.tree(old)
            old.persistent_object_context = None
            self.context._set_persistent_storage_for_object(old, None)
            new = persist.Node()
            self.context._set_persistent_storage_for_object(new, s)
            n = len(s.calls)
            if op[2]:
                new.persistent_object_context = self.context
            new.begin_reading()
            new.read_from_dict(self.context.get_properties(new))
            new.finish_reading()
            if not op[2]:
                new.persistent_object_context = self.context
            expect(len(s.calls) == n, "calls-on-read", "{}", [show(c) for c in s.calls[n:]])
            expect(persist.tree(new) == t, "read-back", "storage reads as {} instead of {}", persist.tree(new), t)
            self.roots[i] = new
            obs.count("reloaded")
            return
        if op[0] == "custom":
            obj = self.ed.pick(op[1])
            i = self.root_of(obj)
            before = [len(s.calls) if s else 0 for s in self.storages]
            obj._update_persistent_property("custom", op[2])
            want = [("set_property", obj, "custom", op[2])] if i is not None and self.storages[i] else []
            self.compare_calls(before, i, want, "custom")
            if want:
                del self.storages[i].find(obj)["custom"]  # what is not a defined property is not written by the object
            return
        if op[0] == "extend":
            obj = self.ed.pick(op[1])
            if op[2] not in obj.relationship_names or len(self.ed.all()) > 14:
                return
            i = self.root_of(obj)
            before = [len(s.calls) if s else 0 for s in self.storages]
            n = obj.item_count(op[2])
            items = [persist.Leaf() for _ in range(op[3])]
            obj.extend_items(op[2], items)
            want = [("insert_item", obj, op[2], n + k, item) for k, item in enumerate(items)] if i is not None and self.storages[i] else []
            self.compare_calls(before, i, want, "extend")
            obs.count("extended")
            return
        if op[0] == "extra":
            obj = self.ed.pick(op[1])
            i = self.root_of(obj)
            if i is None or self.storages[i] is None:
                return
            args = (["name", object()])[:EXTRAS[op[2]]]
            before = [len(s.extras) if s else 0 for s in self.storages]
            result = getattr(self.context, op[2])(obj, *args)
            for j, s in enumerate(self.storages):
                if s:
                    got = s.extras[before[j]:]
                    expect(len(got) == (1 if i == j else 0), "extra-calls", "{}: storage {} got {} calls", op[2], j, len(got))
                    if got:
                        expect(got[0][0] == op[2] and got[0][1] is obj and list(got[0][2:]) == args, "extra-arguments", "{}: storage got {}", op[2], got[0])
                        if op[2] in ("read_external_data", "is_write_delayed", "get_storage_property"):
                            expect(result == ("result", len(s.extras)), "extra-result", "{} returned {} instead of {}", op[2], result, ("result", len(s.extras)))
            obs.count("extras")
            return
        act = self.ed.prepare(op)
        if act is None:
            return
        i = self.root_of(act[1])
        attached = i is not None and self.storages[i] is not None
        want = self.expected(act) if attached else []
        before = [len(s.calls) if s else 0 for s in self.storages]
        written = dump(act[1]) if act[0] == "set" else None
        self.ed.perform(act)
        obs.ev(act[0], act[2], attached, len(want))
        if not attached:
            obs.count("silent_changes")
        if act[0] == "set" and attached and len(self.storages[i].calls) == before[i] and dump(act[1]) == written:
            want = []  # setting the value it has already is no change, and need not be written
        self.compare_calls(before, i, want, act[0])
        if act[0] == "set":
            persist.mutate_deep(act[3])  # changing the given value in place is no change of the object

    def compare_calls(self, before, i, want, what):
        for j, s in enumerate(self.storages):
            if s is None:
                continue
            got = s.calls[before[j]:]
            w = want if j == i else []
            expect(sorted(map(key_of, got)) == sorted(map(key_of, w)), "storage-calls", "{}: storage {} got {} instead of {}", what, j, [show(c) for c in got], [show(c) for c in w])
            for c in got:
                self.obs.count(c[0])

    def check(self, n):
        for i, s in enumerate(self.storages):
            if s is None:
                continue
            w = self.roots[i].write_to_dict()
            expect(json.dumps(s.properties, sort_keys=True, default=repr) == json.dumps(w, sort_keys=True, default=repr), "mirror", "storage {} is {} but the tree writes {}", i, s.properties, w)
            objs = persist.objects(self.roots[i])
            o = objs[n % len(objs)] if hasattr(s, "get_properties") else self.roots[i]
            d = self.context.get_properties(o)
            expect(d == o.write_to_dict(), "get-properties", "{} instead of {}", d, o.write_to_dict())
            persist.mutate_deep(d)
            expect(s.properties == w, "get-properties-shared", "changing the result of get_properties changed the storage")
            self.obs.state(json.dumps(_shape(w), sort_keys=True))

    def read_back(self):
        for i, s in enumerate(self.storages):
            if s is None:
                continue
            t = persist.tree(self.roots[i])
            back = read(persist.Node, copy.deepcopy(s.properties))
            expect(persist.tree(back) == t, "read-back", "storage reads as {} instead of {}", persist.tree(back), t)
            self.obs.count("read_backs")

    def finish(self):
        trees = [persist.tree(r) for r in self.roots]
        for s in self.storages:
            if s is not None:
                persist.mutate_deep(s.properties)
        expect([persist.tree(r) for r in self.roots] == trees, "storage-shared", "changing the storage's values changed the objects")


def _shape(d):
    if isinstance(d, dict):
        return {k: _shape(v) for k, v in d.items() if k != "uuid" and isinstance(v, (dict, list))}
    if isinstance(d, list):
        return [_shape(x) for x in d]
    return 0


def execute(case, obs):
    persist.problems.clear()
    m = Monitor(case, obs)
    m.check(0)
    for n, op in enumerate(case["ops"]):
        m.step(op)
        m.check(n)
        if n % 4 == 0:
            m.read_back()
    m.read_back()
    m.finish()
    persist.check_problems()
    obs.nontrivial = any(s and s.calls for s in m.storages)


# relationships stored under a key of their own

def gen_keyed(rng):
    ops = []
    for _ in range(rng.randint(1, 8)):
        ops.append(rng.choice([["insert", rng.randrange(5), rng.randrange(9)], ["insert", rng.randrange(5), rng.randrange(9)], ["remove", rng.randrange(5)], ["set", rng.randrange(5), rng.randrange(9)]]))
    return {"ops": ops}


def execute_keyed(case, obs):
    context = Persistence.PersistentObjectContext()
    root = persist.KeyedNode()
    start = root.write_to_dict()
    storage = persist.DictStorage(start)
    context._set_persistent_storage_for_object(root, storage)
    root.persistent_object_context = context
    under_name = False
    for op in case["ops"]:
        n = root.item_count("others")
        if op[0] == "insert":
            item = persist.Leaf()
            item.a = op[2]
            root.insert_item("others", op[1] % (n + 1), item)
        elif n and op[0] == "remove":
            root.remove_item("others", root.others[op[1] % n])
        elif n:
            root.others[op[1] % n].a = op[2]
        want = root.write_to_dict()
        obs.ev(op[0], len(want["stored_others"]))
        if storage.properties == want:
            continue
        # known finding: while the tree is edited, the members are kept under the name of the relationship rather than its key
        renamed = dict(want)
        renamed["others"] = renamed.pop("stored_others")
        renamed["stored_others"] = []
        expect(storage.properties == renamed, "mirror-keyed", "storage is {} but the tree writes {}", storage.properties, want)
        under_name = True
    if under_name:
        raise Violation("relationship-storage-key", f"members of a relationship with storage key are kept under its name: {storage.properties}")


FAMILIES = [Family("mirror", gen, execute, 8000, 150000), Family("keyed-relationship", gen_keyed, execute_keyed, 200, 4000)]
