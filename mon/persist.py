"""Persistent object classes and random histories shared by C12, C13, C14 and C15."""
import copy
import uuid

from mon.core import Violation, expect
from nion.utils import Converter, Observable, Persistence


class Val:
    """A value object which knows how to read and write itself (property with make)."""
    def __init__(self, x=0, l=None):
        self.x, self.l = x, list(l or [])

    def read_dict(self, d):
        self.x, self.l = d["x"], list(d["l"])
        return self

    def write_dict(self):
        return {"x": self.x, "l": list(self.l)}

    def __bool__(self):
        return self.x != 0  # false objects are values too

    def __eq__(self, other):
        return isinstance(other, Val) and self.x == other.x and self.l == other.l

    def __repr__(self):
        return f"Val({self.x}, {self.l})"


class TupleConverter:
    """value (tuple) to json value (list)"""
    def convert(self, value):
        return list(value) if value is not None else None

    def convert_back(self, value):
        return tuple(value) if value is not None else None


class BoxConverter:
    """any value (also None) to a dict"""
    def convert(self, value):
        return {"box": copy.deepcopy(value)} if value is not None else None

    def convert_back(self, value):
        return copy.deepcopy(value["box"]) if value is not None else None


def read_one(property, properties):
    return properties.get("one", None)


def write_one(property, properties, value):
    properties["one"] = value


def clamp(v):
    return None if v is None else max(-5, min(5, v))


# property name: (kwargs, kind of values)
PROPERTIES = {
    "a": (dict(), "int"),
    "b": (dict(), "tree"),
    "c": (dict(converter=TupleConverter()), "tuple"),
    "d": (dict(key="stored_d"), "int"),
    "e": (dict(validate=clamp), "int"),
    "f": (dict(make=Val, key="stored_f"), "val"),
    "g": (dict(), "pair"),  # with reader and writer
    "h": (dict(hidden=True), "tree"),
    "r": (dict(read_only=True), "int"),
    "s": (dict(copy_on_read=True), "tree"),
    "n": (dict(recordable=False), "int"),
    "u": (dict(converter=Converter.UuidToStringConverter(), key="stored_u"), "uuid"),
    "w": (dict(value=7), "default"),  # has a default
    "x": (dict(value=5, reader=read_one, writer=write_one), "default"),
    "y": (dict(value=3, converter=BoxConverter()), "default"),
    "z": (dict(value=2, validate=clamp, converter=BoxConverter(), key="stored_z"), "default"),
    "v": (dict(value=Val(4, [4]), make=Val), "valdefault"),
    "t": (dict(value="some", hidden=True, key="stored_t"), "treedefault"),
    "j": (dict(value=6, read_only=True, key="stored_j"), "default"),
}


def read_pair(property, properties):
    if "g_lo" in properties:
        return properties["g_lo"], properties["g_hi"]
    return None


def write_pair(property, properties, value):
    properties["g_lo"], properties["g_hi"] = value if value is not None else (0, 0)


def gen_value(rng, kind):
    if kind == "pair":
        return [rng.randint(0, 3), rng.randint(0, 3)]
    if kind == "default":
        return rng.choice([0, rng.randint(0, 9)])
    if kind == "valdefault":
        kind = "val"
    elif kind == "treedefault":
        kind = "tree"
    elif rng.random() < 0.2:
        return None
    if kind == "int":
        return rng.choice([0, 0, 1, rng.randint(-9, 9)])
    if kind == "tuple":
        return [rng.randint(0, 3) for _ in range(rng.randint(0, 3))]
    if kind == "val":
        return [rng.randint(0, 9), [rng.randint(0, 3) for _ in range(rng.randint(0, 2))]]
    if kind == "uuid":
        return rng.getrandbits(60)
    return rng.choice([{}, [], "", "text", False, 0.5, {"x": [1, {"y": rng.randint(0, 3)}]}, [rng.randint(0, 3), [rng.randint(0, 3)]], {"k": rng.randint(0, 5)}])


def twin(v):
    """A value which compares equal but is not the same (1, True, 1.0), or None."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return bool(v) if v in (0, 1) else float(v)
    if isinstance(v, dict):
        for k in v:
            t = twin(v[k])
            if t is not None:
                return {**v, k: t}
    if isinstance(v, list):
        for i, x in enumerate(v):
            t = twin(x)
            if t is not None:
                return v[:i] + [t] + v[i + 1:]
    return None


def to_value(kind, v):
    if v is None:
        return None
    if kind in ("tuple", "pair"):
        return tuple(v)
    if kind in ("val", "valdefault"):
        return Val(v[0], v[1])
    if kind == "uuid":
        return uuid.UUID(int=v << 60, version=4)
    return copy.deepcopy(v)


problems = []  # found by the objects themselves


def check_problems():
    if problems:
        found = problems[0]
        problems.clear()
        raise Violation(*found)


class Node(Observable.Observable, Persistence.PersistentObject):
    """An observable persistent object with properties, items and relationships of all kinds."""
    TYPE = "node"
    REL_KEY = None

    def __init__(self, type_=None):
        super().__init__()
        self.log = []  # calls of handlers: (kind, name, ..., whether reading)
        self.contexts = [None]  # as told by persistent_object_context_changed
        self.define_type(self.TYPE)
        self.make_definitions()

    def make_definitions(self):
        for name, (kw, kind) in PROPERTIES.items():
            kw = dict(kw)
            if "value" in kw:
                kw["value"] = copy.deepcopy(kw["value"])
            if kind == "pair":
                kw.update(reader=read_pair, writer=write_pair, value=(0, 0))
            self.define_property(name, changed=self._changed, **kw)
        self.define_item("it", factory, self._item_changed)
        self.define_item("hidden_it", factory, self._item_changed, hidden=True)
        self.define_relationship("kids", factory, self._inserted, self._removed)
        if self.REL_KEY:
            self.define_relationship("others", factory, self._inserted, self._removed, key=self.REL_KEY)
        else:
            self.define_relationship("others", factory, self._inserted, self._removed)

    def persistent_object_context_changed(self):
        super().persistent_object_context_changed()
        self.contexts.append(self.persistent_object_context)
        parent = self.persistent_object_parent
        self.parent_when_told = parent.parent if parent else None
        context = self.persistent_object_context
        self.known_when_told = context is None or context.get_registered_object(self.uuid) is self

    def _changed(self, name, value):
        if self._get_persistent_property_value(name) != value:
            problems.append(("handler-early", f"property {name} is {self._get_persistent_property_value(name)!r} when its handler is called with {value!r}"))
        self.log.append(("property", name, self._is_reading))
        self.notify_property_changed(name)

    def _item_changed(self, name, old, new):
        self.log.append(("item", name, old, new, self._is_reading))
        if new is not None:
            self.notify_set_item(name, new)
        else:
            self.notify_clear_item(name)

    def _inserted(self, name, before_index, item):
        self.log.append(("inserted", name, before_index, item, self._is_reading))
        self.notify_insert_item(name, item, before_index)

    def _removed(self, name, index, item):
        self.log.append(("removed", name, index, item, self._is_reading))
        self.notify_remove_item(name, item, index)

    def __repr__(self):
        return f"{self.TYPE}"


class Leaf(Node):
    TYPE = "leaf"

    def make_definitions(self):
        self.define_property("a", changed=self._changed)
        self.define_property("b", changed=self._changed)
        self.define_property("n", recordable=False, changed=self._changed)


class KeyedNode(Node):
    TYPE = "keyed"
    REL_KEY = "stored_others"


class Bare(Node):
    """Without handlers."""
    TYPE = "bare"

    def make_definitions(self):
        self.define_property("a")
        self.define_property("b", copy_on_read=True)
        self.define_item("it", factory)
        self.define_relationship("kids", factory)


CLASSES = {c.TYPE: c for c in (Node, Leaf, KeyedNode, Bare)}


def factory(lookup_id):
    o = CLASSES[lookup_id("type")]()
    o.looked_up = copy.deepcopy(lookup_id("a", "absent")), lookup_id("not there"), lookup_id("not there", 7)
    return o


def check_looked_up(o, d):
    """what the factories were able to look up of the dict read"""
    for name in o.item_names:
        if o.get_item(name) is not None:
            check_one(o.get_item(name), d[name])
    for name in o.relationship_names:
        key = o.REL_KEY if name == "others" and o.REL_KEY else name
        for x, dx in zip(getattr(o, name), d[key]):
            check_one(x, dx)


def check_one(o, d):
    want = d.get("a", "absent"), None, 7
    expect(o.looked_up == want, "factory-lookup", "the factory has looked up {!r} where {!r} is stored", o.looked_up, want)
    check_looked_up(o, d)


def prop_value(obj, name):
    return obj._get_persistent_property_value(name)


def set_prop(obj, name, value):
    if name in ("h", "r", "t", "j"):
        obj._set_persistent_property_value(name, value)
    else:
        setattr(obj, name, value)


def has_prop(obj, name):
    return name in obj.property_names


def tree(obj, with_uuid=True, skip=()):
    """Comparable content of an object."""
    if obj is None:
        return None
    d = {"type": type(obj).TYPE}
    if with_uuid:
        d["uuid"] = str(obj.uuid)
    for name in obj.property_names:
        if name not in skip:
            d["p:" + name] = copy.deepcopy(prop_value(obj, name))
    for name in obj.item_names:
        d["i:" + name] = tree(obj.get_item(name), with_uuid, skip)
    for name in obj.relationship_names:
        d["r:" + name] = [tree(x, with_uuid, skip) for x in getattr(obj, name)]
    return d


def objects(obj):
    """All objects of a tree."""
    out = [obj]
    for name in obj.item_names:
        x = obj.get_item(name)
        if x is not None:
            out.extend(objects(x))
    for name in obj.relationship_names:
        for x in getattr(obj, name):
            out.extend(objects(x))
    return out


def gen_ops(rng, n, keyed=False, bare=True):
    types = ["node", "node", "leaf"] + (["keyed"] if keyed else []) + (["bare"] if bare else [])
    ops = []
    many = rng.randrange(n) if n and rng.random() < 0.03 else None
    for i in range(n):
        if i == many:  # a long relationship
            obj, name = rng.choice([0, 0, rng.randrange(20)]), rng.choice(["kids", "others"])
            for _ in range(rng.randint(8, 30)):
                ops.append(["insert", obj, name, rng.choice([0, 1000000, rng.randrange(40)]), rng.choice(["leaf", "leaf", "bare"] if bare else ["leaf"]), rng.randrange(30), "many"])
        r = rng.random()
        if r < 0.42:
            name = rng.choice(sorted(PROPERTIES))
            ops.append(["set", rng.randrange(20), name, gen_value(rng, PROPERTIES[name][1])])
            if PROPERTIES[name][1] in ("tree", "treedefault") and rng.random() < 0.25 and twin(ops[-1][3]) is not None:
                ops.append(ops[-1][:3] + [twin(ops[-1][3])])
            elif rng.random() < 0.15:
                ops.append(["touch", ops[-1][1], name])
        elif r < 0.54:
            ops.append(["item", rng.randrange(20), rng.choice(["it", "hidden_it"]), rng.choice(types), rng.randrange(30)])
        elif r < 0.60:
            ops.append(["clear", rng.randrange(20), rng.choice(["it", "it", "hidden_it"])])
        elif r < 0.84:
            ops.append(["insert", rng.randrange(20), rng.choice(["kids", "others"]), rng.choice([rng.randrange(6), rng.randrange(40)]), rng.choice(types), rng.randrange(30)])
        else:
            ops.append(["remove", rng.randrange(20), rng.choice(["kids", "others"]), rng.choice([rng.randrange(6), rng.randrange(40)])])
    return ops


class Editor:
    """Applies operations to a forest; parked objects are removed sub trees which may be inserted again."""
    def __init__(self, roots, max_objects=14):
        self.roots = roots
        self.parked = []
        self.max_objects = max_objects
        self.last = None  # description of what was done

    def all(self, with_parked=False):
        out = []
        for r in self.roots + (self.parked if with_parked else []):
            out.extend(objects(r))
        return out

    def pick(self, n, with_parked=True):
        objs = self.all(with_parked)
        return objs[n % len(objs)]

    def new(self, type_, reuse):
        if self.parked and reuse % 3 == 0:
            return self.parked.pop(reuse % len(self.parked)), True
        o = CLASSES[type_]()
        if reuse % 2:
            o.a = reuse
            o.b = {"new": [reuse]}
        return o, False

    def prepare(self, op):
        """Return (what, obj, ...) to be done by perform, or None."""
        kind = op[0]
        if kind == "set":
            obj = self.pick(op[1])
            if not has_prop(obj, op[2]):
                return None
            return ["set", obj, op[2], to_value(PROPERTIES[op[2]][1], op[3])]
        if kind == "touch":  # changes the value in place and sets it
            obj = self.pick(op[1])
            if not has_prop(obj, op[2]) or PROPERTIES[op[2]][1] not in ("tree", "treedefault", "val", "valdefault"):
                return None
            value = prop_value(obj, op[2])
            return ["set", obj, op[2], value] if mutate_deep(value) else None
        if kind == "item":
            obj = self.pick(op[1])
            if op[2] not in obj.item_names or len(self.all()) >= self.max_objects:
                return None
            item, reused = self.new(op[3], op[4])
            if obj in objects(item):
                self.parked.append(item)
                return None
            return ["item", obj, op[2], item, obj.get_item(op[2])]
        if kind == "clear":
            obj = self.pick(op[1])
            if op[2] not in obj.item_names or obj.get_item(op[2]) is None:
                return None
            return ["item", obj, op[2], None, obj.get_item(op[2])]
        if kind == "insert":
            obj = self.pick(op[1])
            if op[2] not in obj.relationship_names or len(self.all()) >= (self.max_objects if len(op) < 7 else 60):
                return None
            item, reused = self.new(op[4], op[5])
            if obj in objects(item):
                self.parked.append(item)
                return None
            return ["insert", obj, op[2], op[3] % (obj.item_count(op[2]) + 1), item]
        if kind == "remove":
            obj = self.pick(op[1])
            if op[2] not in obj.relationship_names or not obj.item_count(op[2]):
                return None
            index = op[3] % obj.item_count(op[2])
            return ["remove", obj, op[2], index, getattr(obj, op[2])[index]]
        raise AssertionError(op)

    def perform(self, act):
        kind, obj, name = act[:3]
        if kind == "set":
            set_prop(obj, name, act[3])
        elif kind == "item":
            obj.set_item(name, act[3])
            if act[4] is not None:
                self.parked.append(act[4])
        elif kind == "insert":
            if act[3] == obj.item_count(name) and act[3] % 2:
                obj.append_item(name, act[4])
            else:
                obj.insert_item(name, act[3], act[4])
        elif kind == "remove":
            obj.remove_item(name, act[4])
            self.parked.append(act[4])

    def do(self, op):
        act = self.prepare(op)
        if act is not None:
            self.perform(act)
        return act


def mutate(v):
    """Change a mutable value in place; whether it could be changed."""
    if isinstance(v, dict):
        v["mutated"] = 1
        return True
    if isinstance(v, list):
        v.append("mutated")
        return True
    if isinstance(v, Val):
        v.x = "mutated"
        v.l.append("mutated")
        return True
    return False


def mutate_deep(v):
    n = 0
    if isinstance(v, dict):
        for x in list(v.values()):
            n += mutate_deep(x)
    elif isinstance(v, (list, tuple)):
        for x in list(v):
            n += mutate_deep(x)
    n += mutate(v)
    return n


class OldStorage:
    """Storage handler which mirrors objects in a dict, updated only through the calls it gets."""
    def __init__(self, properties):
        self.properties = copy.deepcopy(properties)
        self.calls = []

    def find(self, obj):
        parent = obj.persistent_object_parent
        if parent is None:
            return self.properties
        return obj.get_accessor_in_parent()(self.find(parent.parent))

    def set_property(self, obj, name, value):
        self.calls.append(("set_property", obj, name, copy.deepcopy(value)))
        self.find(obj)[name] = copy.deepcopy(value)

    def clear_property(self, obj, name):
        self.calls.append(("clear_property", obj, name))
        self.find(obj).pop(name, None)

    def insert_item(self, parent, name, before_index, item):
        self.calls.append(("insert_item", parent, name, before_index, item))
        self.find(parent).setdefault(name, list()).insert(before_index, item.write_to_dict())
        item.persistent_object_context = parent.persistent_object_context

    def remove_item(self, parent, name, index, item):
        self.calls.append(("remove_item", parent, name, index, item))
        del self.find(parent)[name][index]
        item.persistent_object_context = None

    def set_item(self, parent, name, item):
        self.calls.append(("set_item", parent, name, item))
        d = self.find(parent)
        if item is not None:
            d[name] = item.write_to_dict()
            item.persistent_object_context = parent.persistent_object_context
        else:
            d.pop(name, None)


class DictStorage(OldStorage):
    def get_properties(self, obj):
        return self.find(obj)
