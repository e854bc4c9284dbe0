"""C12: dict round trip and deep copy of persistent objects."""
import copy
import datetime
import json

from mon import persist
from mon.core import Family, Violation, expect

PROPERTY = "C12"
RULE = ("random trees of persistent objects (19 kinds of properties, items, hidden items, relationships with and without storage key) built by random edits, written, read into a fresh object, written again, deep copied, and then edited on one side; "
        "non-trivial: the tree has at least two objects")
ASSUMPTIONS = ["a property whose value is None counts as not set; properties with a default are not set to None", "validators are idempotent and return values of their own"]
MUST_OBSERVE = ("round_trips", "deep_copies", "mutations", "objects", "copied_on_read", "refused", "partial_reads", "given_values_changed", "extended")


def gen(rng):
    return {"root": rng.choice(["node", "node", "keyed", "leaf"]), "ops": persist.gen_ops(rng, rng.randint(0, 25), keyed=True), "edit": persist.gen_ops(rng, 6, keyed=True), "json": rng.random() < 0.5, "drop": rng.randrange(1000000)}


def read(cls, d):
    o = cls()
    o.begin_reading()
    o.read_from_dict(d)
    o.finish_reading()
    return o


def diff(a, b, path=""):
    if type(a) == type(b) and isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}/{k}: {'missing' if k not in a else a[k]!r} / {'missing' if k not in b else b[k]!r}"
            r = diff(a[k], b[k], path + "/" + k)
            if r:
                return r
        return None
    if type(a) == type(b) and isinstance(a, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    return None if type(a) == type(b) and a == b else f"{path}: {a!r} / {b!r}"


def same(a, b, kind, what):
    d = diff(a, b)
    expect(d is None, kind, "{}: {}", what, d)


def attributes(o, obs):
    """What is visible of the object, and cannot be changed through it."""
    cls = type(o)
    expect(o.type == cls.TYPE, "type", "type is {} instead of {}", o.type, cls.TYPE)
    want = []
    for name in o.property_names:
        kw = persist.PROPERTIES[name][0] if cls in (persist.Node, persist.KeyedNode) else {}
        want.append(kw.get("key", name))
        value = persist.prop_value(o, name)
        if kw.get("hidden"):
            expect(not hasattr(o, name), "hidden-visible", "{}", name)
        else:
            got = getattr(o, name)
            expect(type(got) == type(value) and got == value, "attribute", "{} is {} instead of {}", name, got, value)
        if kw.get("copy_on_read") or (cls is persist.Bare and name == "b"):
            copied = copy.deepcopy(value)
            obs.count("copied_on_read", 1 if persist.mutate_deep(getattr(o, name)) else 0)
            expect(getattr(o, name) == copied, "copy-on-read", "changing the value read from {} in place changed the property", name)
        if kw.get("read_only"):
            try:
                setattr(o, name, 99)
            except AttributeError:
                obs.count("refused")
            else:
                raise Violation("read-only-set", name)
            got = getattr(o, name)
            expect(type(got) == type(value) and got == value, "read-only-set", "{} is {} instead of {}", name, got, value)
    expect(sorted(o.key_names) == sorted(want), "key-names", "{} instead of {}", o.key_names, want)
    for name in o.item_names:
        if name.startswith("hidden"):
            expect(not hasattr(o, name), "hidden-visible", "{}", name)
        else:
            expect(getattr(o, name) is o.get_item(name), "attribute", "{} is not the item", name)
    for name in o.relationship_names:
        members = getattr(o, name)
        n = len(members)
        members.append(None)
        members.reverse()
        expect(len(getattr(o, name)) == n and None not in getattr(o, name), "members-shared", "changing the list of {} changed the relationship", name)
    expect(not hasattr(o, "nope") and not hasattr(o, "stored_d"), "unknown-visible", "attribute which has not been defined")


KEYS = {"g": ("g_lo", "g_hi"), "x": ("one",)}


def check_handlers(o, d):
    """handlers have been called once for what was read"""
    if type(o) is persist.Bare:
        return
    for e in o.log:
        expect(e[-1], "reading", "handler of {} called while not reading", e[1])
    keys = {name: KEYS.get(name, (persist.PROPERTIES[name][0].get("key", name) if type(o) is not persist.Leaf else name,)) for name in o.property_names}
    want = sorted(name for name in o.property_names if all(k in d for k in keys[name]))
    got = sorted(e[1] for e in o.log if e[0] == "property")
    expect(got == want, "read-handlers", "property handlers called for {} instead of {}", got, want)
    for name in o.item_names:
        got = [e[2:4] for e in o.log if e[0] == "item" and e[1] == name]
        want = [(None, o.get_item(name))] if o.get_item(name) is not None else []
        expect(len(got) == len(want) and all(a[0] is None and a[1] is b[1] for a, b in zip(got, want)), "read-handlers", "item handlers of {} called {} times", name, len(got))
    for name in o.relationship_names:
        got = [e[2:4] for e in o.log if e[0] == "inserted" and e[1] == name]
        want = list(enumerate(getattr(o, name)))
        expect(len(got) == len(want) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(got, want)), "read-handlers", "insert handlers of {} called with indexes {}", name, [g[0] for g in got])


def check_tree(o, d):
    check_handlers(o, d)
    for name in o.item_names:
        if o.get_item(name) is not None:
            check_tree(o.get_item(name), d[name])
    for name in o.relationship_names:
        for x, e in zip(getattr(o, name), d["stored_others" if type(o) is persist.KeyedNode and name == "others" else name]):
            check_tree(x, e)


def partial(case, cls, root, d, obs):
    """What is missing in a dict is left as it was."""
    d = copy.deepcopy(d)
    names = [n for n in root.property_names if (hash_of(n) ^ case["drop"]) % 3 == 0]
    kws = persist.PROPERTIES if cls in (persist.Node, persist.KeyedNode) else {}
    for n in names:
        for k in KEYS.get(n, (kws[n][0].get("key", n) if n in kws else n,)):
            d.pop(k, None)
    stamp = datetime.datetime(2000 + case["drop"] % 20, 1 + case["drop"] % 12, 1 + case["drop"] % 28, case["drop"] % 24, case["drop"] % 60, case["drop"] % 59, case["drop"] % 999999)
    d["modified"] = stamp.isoformat()
    fresh, new = read(cls, d), cls()
    for n in root.property_names:
        want = persist.prop_value(new if n in names else root, n)
        got = persist.prop_value(fresh, n)
        if n not in names and want is None:
            want = persist.prop_value(new, n)
        expect(type(got) == type(want) and got == want, "partial-read", "{} is {} instead of {}", n, got, want)
    expect(fresh.modified == stamp, "modified-read", "modified is {} instead of {}", fresh.modified, stamp)
    obs.count("partial_reads")


def hash_of(name):
    return sum(map(ord, name)) * 7919


def execute(case, obs):
    persist.problems.clear()
    cls = persist.CLASSES[case["root"]]
    root = cls()
    ed = persist.Editor([root])
    for op in case["ops"]:
        act = ed.do(op)
        if act and act[0] == "set":
            got, want = persist.prop_value(*act[1:3]), act[3]
            if want is not None and act[2] in ("e", "z"):
                want = persist.clamp(want)
            expect(type(got) == type(want) and got == want, "set-value", "{} is {} after it has been set to {}", act[2], got, want)
            was = persist.tree(act[1])
            if persist.mutate_deep(act[3]):
                obs.count("given_values_changed")
                same(persist.tree(act[1]), was, "given-shared", "changing a value in place after setting it changed the object")
    if case["drop"] % 4 == 0 and root.relationship_names:
        name = root.relationship_names[case["drop"] // 4 % len(root.relationship_names)]
        had = getattr(root, name)
        items = [persist.Leaf() for _ in range(case["drop"] // 40 % 4)]
        root.extend_items(name, items)
        got = getattr(root, name)
        expect(len(got) == len(had) + len(items) and all(a is b for a, b in zip(got, had + items)), "extended", "extend_items did not append the items in order")
        obs.count("extended")
    t = persist.tree(root)
    n = len(persist.objects(root))
    obs.count("objects", n)
    d = root.write_to_dict()
    same(persist.tree(root), t, "write-changes-object", "write_to_dict")
    d1 = json.loads(json.dumps(d))
    same(d, d1, "dict-not-plain", "dict is not a plain json dict")
    expect(d["type"] == cls.TYPE and d["uuid"] == str(root.uuid), "dict-type", "dict has type {} and uuid {}", d.get("type"), d.get("uuid"))
    given = d1 if case["json"] else copy.deepcopy(d)
    fresh = read(cls, given)
    obs.count("round_trips")
    same(given, d1, "read-changes-dict", "read_from_dict changed its argument")
    same(persist.tree(fresh), t, "round-trip-differs", "object read back")
    persist.check_looked_up(fresh, d1)
    persist.check_problems()
    d2 = fresh.write_to_dict()
    same(d2, d, "dict-round-trip-differs", "dict written again")
    again = read(cls, d2)
    same(persist.tree(again), t, "round-trip-differs", "object read twice")
    for x in persist.objects(fresh):
        attributes(x, obs)
        expect(not x._is_reading, "still-reading", "finish_reading did not reach {}", x)
        for name in x.relationship_names:
            for i, c in enumerate(getattr(x, name)):
                expect(c.persistent_object_parent is not None and c.persistent_object_parent.parent is x, "parent-after-read", "{}", name)
                expect(x.item_index(name, c) == i, "item-index", "{}", name)
            expect(x.item_count(name) == len(getattr(x, name)), "item-count", "{}", name)
        for name in x.item_names:
            c = x.get_item(name)
            expect(c is None or (c.persistent_object_parent is not None and c.persistent_object_parent.parent is x), "parent-after-read", "{}", name)
    check_tree(fresh, d1)
    partial(case, cls, root, d1, obs)
    # deep copy
    t_no = persist.tree(root, with_uuid=False)
    c = copy.deepcopy(root)
    obs.count("deep_copies")
    same(persist.tree(c, with_uuid=False), t_no, "copy-differs", "deep copy")
    same(persist.tree(root), t, "copy-changes-original", "deepcopy")
    uuids = [x.uuid for x in persist.objects(c)]
    expect(len(set(uuids)) == len(uuids) and not set(uuids) & {x.uuid for x in persist.objects(root)}, "copy-uuids", "copies share uuids")
    expect(not {id(x) for x in persist.objects(c)} & {id(x) for x in persist.objects(root)}, "copy-shares-object", "")
    # independence: change dicts in place, change values in place, edit
    obs.count("mutations", persist.mutate_deep(given))
    same(persist.tree(fresh), t, "shares-state-with-dict", "object read from dict")
    obs.count("mutations", persist.mutate_deep(d))
    same(persist.tree(root), t, "shares-state-with-dict", "object written to dict")
    for x in persist.objects(c):
        for name in x.property_names:
            persist.mutate_deep(persist.prop_value(x, name))
    same(persist.tree(root), t, "copy-shares-state", "after changing values of copy in place")
    ed2 = persist.Editor([c])
    for op in case["edit"]:
        ed2.do(op)
    same(persist.tree(root), t, "copy-shares-state", "after editing copy")
    c2 = copy.deepcopy(root)
    t2 = persist.tree(c2)
    for op in case["edit"]:
        ed.do(op)
    for x in persist.objects(root):
        for name in x.property_names:
            persist.mutate_deep(persist.prop_value(x, name))
    same(persist.tree(c2), t2, "copy-shares-state", "after editing original")
    same(persist.tree(fresh), t, "shares-state-with-dict", "after editing original")
    obs.ev(repr(t_no))
    obs.nontrivial = n >= 2
    obs.state(repr(t_no))


FAMILIES = [Family("trees", gen, execute, 15000, 100000)]
