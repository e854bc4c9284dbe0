"""A world of list models driven by random histories, with a monitor on every notification.

The checks C03, C04, C05, C06 and C09 run the same kinds of histories and differ in the oracles they evaluate.
"""
import contextlib
import typing

from mon.core import Violation
from nion.utils import Event, ListModel, Selection

N_ITEMS = 9
N_GROUPS = 4


class Item:
    """An item which announces its changes."""
    def __init__(self, n, v, k):
        self.n, self.v, self.k = n, v, k
        self.name = "abcabdxyz"[n % 9] + str(n % 3 if n < 9 else n)
        self.item_changed_event = Event.Event()

    def __bool__(self):
        return self.n % 4 != 1  # items may be anything, also falsy

    def __repr__(self):
        return f"i{self.n}"


class FrozenItem:
    """An item which cannot change and has no changed event."""
    def __init__(self, n, v, k):
        self.n, self.v, self.k = n, v, k
        self.name = "abcabdxyz"[n % 9] + str(n % 3 if n < 9 else n)

    def __bool__(self):
        return self.n % 4 != 1  # items may be anything, also falsy

    def __repr__(self):
        return f"f{self.n}"


class MappedItem:
    """What map functions produce; every call gives a new one."""
    def __init__(self, src):
        self.src = src
        if hasattr(src, "item_changed_event"):
            self.item_changed_event = src.item_changed_event
        self.unmapped = 0

    n = property(lambda self: self.src.n)
    v = property(lambda self: self.src.v)
    k = property(lambda self: self.src.k)
    name = property(lambda self: self.src.name)

    def __bool__(self):
        return self.src.n % 3 != 1

    def __repr__(self):
        return f"m({self.src!r})"


class Others:
    """A second list in the same object, whose changes are none of the business of models of the first one."""
    bracketing = False
    others_key = "others"

    def init_others(self, bracketing):
        self.others = []
        if bracketing:
            self.bracketing = True
            self.begin_changes_event = Event.Event()
            self.end_changes_event = Event.Event()

    def edit_others(self, index, item):
        if self.bracketing and index % 2:
            self.begin_changes_event.fire(self.others_key)
        if item in self.others:
            i = self.others.index(item)
            del self.others[i]
            self.notify_remove_item(self.others_key, item, i)
        else:
            i = index % (len(self.others) + 1)
            self.others.insert(i, item)
            self.notify_insert_item(self.others_key, item, i)
        if self.bracketing and index % 2:
            self.end_changes_event.fire(self.others_key)


class Source(ListModel.ListModel, Others):
    def __init__(self, key, bracketing):
        if key is None:
            super().__init__()
        else:
            super().__init__(key)
        self.init_others(bracketing)


class Group(ListModel.ListModel, Others):
    def __init__(self, n):
        super().__init__("children")
        self.n = n
        self.init_others(False)

    def __repr__(self):
        return f"g{self.n}"


SORTS = [None, lambda x: x.k, lambda x: -x.k, lambda x: x.name, lambda x: (x.k, x.n), lambda x: 0, lambda x: (x.v, x.k)]


def filters():
    P = ListModel.PredicateFilter
    return [
        (ListModel.Filter(True), lambda x: True),
        (ListModel.Filter(False), lambda x: False),
        (P(lambda x: x.v > 0), lambda x: x.v > 0),
        (ListModel.EqFilter("v", 1), lambda x: x.v == 1),
        (ListModel.NotFilter(ListModel.EqFilter("v", 2)), lambda x: x.v != 2),
        (ListModel.OrFilter([ListModel.EqFilter("v", 0), ListModel.EqFilter("k", 1)]), lambda x: x.v == 0 or x.k == 1),
        (ListModel.AndFilter([ListModel.NotEqFilter("v", 0), ListModel.NotEqFilter("k", 2)]), lambda x: x.v != 0 and x.k != 2),
        (P(lambda x: (x.v + x.k) % 2 == 0), lambda x: (x.v + x.k) % 2 == 0),
        (ListModel.StartsWithFilter("name", "a"), lambda x: x.name.startswith("a")),
    ]


TEMPLATES = {
    # name: nodes; each node (type, source)
    "list": [("list",), ("list",)],
    "F": [("list",), ("list",), ("F", 0)],
    "FF": [("list",), ("list",), ("F", 0), ("F", 2)],
    "FFF": [("list",), ("list",), ("F", 0), ("F", 2), ("F", 3)],
    "FM": [("list",), ("list",), ("F", 0), ("M", 2)],
    "MF": [("list",), ("list",), ("M", 0), ("F", 2)],
    "FMM": [("list",), ("list",), ("F", 0), ("M", 2), ("M", 3)],
    "FFM": [("list",), ("list",), ("F", 0), ("F", 2), ("M", 3)],
    "FMF": [("list",), ("list",), ("F", 0), ("M", 2), ("F", 3)],
    "M": [("list",), ("list",), ("M", 0)],
    "MM": [("list",), ("list",), ("M", 0), ("M", 2)],
    "X": [("groups",), ("groups",), ("X", 0)],
    "XF": [("groups",), ("groups",), ("X", 0), ("F", 2)],
    "XM": [("groups",), ("groups",), ("X", 0), ("M", 2)],
    "XFM": [("groups",), ("groups",), ("X", 0), ("F", 2), ("M", 3)],
    "two": [("list",), ("list",), ("F", 0), ("F", 0), ("M", 0)],
}


def gen_case(rng, templates, *, selections=False, groups_allowed=True, configure=True, containers=True, silent=True, length=(5, 40), weights=None):
    template = rng.choice(templates)
    nodes = TEMPLATES[template]
    derived = [i for i, node in enumerate(nodes) if len(node) == 2]
    fs = [i for i, node in enumerate(nodes) if node[0] == "F"]
    gs = [i for i in derived if nodes[i][0] in "FM"]
    has_groups = nodes[0][0] == "groups"
    custom_keys = rng.random() < 0.4
    # some with many items
    r = rng.random()
    n_items, n_groups = (rng.choice([150, 300]), 20) if r < 0.002 else ((rng.choice([20, 40, 70]), 12) if r < 0.05 else (N_ITEMS, N_GROUPS))
    n_index = n_items + 3
    domain = rng.choice([2, 3, 5] if n_items == N_ITEMS else [2, 5, 20, 100])
    items = [[rng.randrange(domain), rng.randrange(domain), rng.random() < 0.15] for _ in range(n_items)]
    conf = []
    for i in fs:
        conf.append([i, rng.randrange(9) if rng.random() < 0.6 else 0, rng.randrange(len(SORTS)) if rng.random() < 0.7 else 0, rng.random() < 0.3])
    w = dict(insert=10, remove=5, clear=0.4, change=8, select=0)
    if has_groups:
        w.update(ginsert=5, gremove=3)
    bracketing = rng.random() < 0.4
    w.update(other=1.2)
    if bracketing:
        w.update(sgroup=1.2)
    if configure and fs:
        w.update(filter=2, sort=1.5, reverse=1, retune=1.2, resort=0.8)
    if groups_allowed and gs:
        w.update(begin=2.5, end=2.5, mark=0.7, raising=0.4)
    if containers and derived:
        w.update(container=1.5)
    if silent and fs:
        w.update(silent=0.7)
    if selections:
        w.update(select=5)
    if weights:
        w.update(weights)
    names = list(w)
    ws = [w[n] for n in names]

    def op():
        name = rng.choices(names, ws)[0]
        if name in ("insert", "remove"):
            target = rng.randrange(n_groups) if has_groups else (0 if rng.random() < 0.8 else 1)
            return [name, target, rng.randrange(n_index), rng.randrange(n_items)] if name == "insert" else [name, target, rng.randrange(n_index)]
        if name == "ginsert":
            return [name, 0 if rng.random() < 0.8 else 1, rng.randrange(n_groups + 2), rng.randrange(n_groups)]
        if name == "gremove":
            return [name, 0 if rng.random() < 0.8 else 1, rng.randrange(n_groups + 2)]
        if name == "clear":
            return [name, 0 if rng.random() < 0.7 else 1]
        if name == "change":
            return [name, rng.randrange(n_items), rng.randrange(domain), rng.randrange(domain)]
        if name == "silent":
            return [name, [[rng.randrange(n_items), rng.randrange(domain), rng.randrange(domain)] for _ in range(rng.randint(1, 4 if n_items == N_ITEMS else 20))]]
        if name == "filter":
            return [name, rng.choice(fs), rng.randrange(9)]
        if name == "sort":
            return [name, rng.choice(fs), rng.randrange(len(SORTS))]
        if name in ("retune", "resort"):
            return [name, rng.choice(fs), rng.randrange(-1, domain) if name == "retune" else rng.randrange(4)]
        if name == "reverse":
            return [name, rng.choice(fs), rng.random() < 0.5]
        if name in ("begin", "end", "mark"):
            return [name, rng.choice(gs)]
        if name == "raising":
            return [name, rng.choice(gs), rng.randrange(n_index), rng.randrange(n_items)]
        if name == "container":
            return [name, rng.choice(derived), rng.choice(["none", "other", "orig", "orig"])]
        if name == "select":
            node = rng.choice(derived)
            what = rng.choice(["set", "set", "add", "toggle", "extend", "set_multiple", "clear", "new", "release"])
            return [name, node, rng.randrange(3), what, [rng.randrange(n_index) for _ in range(rng.randint(0, 4))]]
        if name == "other":
            return [name, rng.randrange(8), rng.randrange(n_index), rng.randrange(n_items)]
        if name == "sgroup":
            return [name, 0 if rng.random() < 0.8 else 1, [[rng.random() < 0.6, rng.randrange(n_index), rng.randrange(n_items)] for _ in range(rng.randint(0, 4))]]
        raise AssertionError(name)

    ops = [op() for _ in range(rng.randint(*length))]
    return {"template": template, "keys": custom_keys, "items": items, "conf": conf, "late": rng.random() < 0.3, "dups": template in ("M", "MM", "list", "X", "XM") and rng.random() < 0.5,
            "groups": n_groups, "prefill": [rng.randrange(n_items) for _ in range(rng.randint(0, 6 if n_items == N_ITEMS else n_items * 3))], "ctor_sel": selections and rng.random() < 0.5, "bracketing": bracketing, "ops": ops, "others": rng.choice([0, rng.randrange(8)]),
            "map": rng.choice(["same", "cached", "default"]) if rng.random() < 0.25 else "new"}


class Node:
    def __init__(self, index, kind, model, key, src):
        self.index, self.kind, self.model, self.key, self.src = index, kind, model, key, src
        self.container = None  # node
        self.replay = None
        self.depth = 0
        self.begins = 0
        self.level = 0  # change level of user
        self.filter_fn = lambda x: True
        self.sort = None  # key function
        # a filter and a sort key which stay the same object while what they say changes; setting them again announces it
        self.limit, self.table = 0, 0
        self.tunable = ListModel.PredicateFilter(lambda x: x.v > self.limit)
        self.tunable_fn = lambda x: x.v > self.limit
        self.tunable_sort = lambda x: (x.k * (self.table + 1) + x.n) % 5
        self.reverse = False
        self.selections = []
        self.maps = []
        self.unmaps = []
        self.events = []
        self.tokens = []


class World:
    def __init__(self, case, obs, monitor_notifications=True):
        self.case, self.obs = case, obs
        self.problem = None
        self.nodes: typing.List[Node] = []
        self.items = [(FrozenItem if frozen else Item)(n, v, k) for n, (v, k, frozen) in enumerate(case["items"])]
        self.filters = filters()
        self.dups = case["dups"]
        self.oracles = []  # called with node after each notification: fn(node, event)
        self.pending_op = None
        spec = TEMPLATES[case["template"]]
        self.groups = []
        self.silent = False
        self.swap_in_groups = True
        for i, node in enumerate(spec):
            if node[0] == "list":
                key = "stuff" if case["keys"] else "items"
                model = Source("stuff" if case["keys"] else None, case["bracketing"])
                self.add(Node(i, "list", model, key, None))
            elif node[0] == "groups":
                if not self.groups:
                    self.groups = [Group(n) for n in range(case["groups"])]
                model = Source("groups", case["bracketing"])
                self.add(Node(i, "groups", model, "groups", None))
        self.prefill()
        for i, node in enumerate(spec):
            if len(node) == 2:
                src = self.nodes[node[1]]
                key = f"key{i}" if case["keys"] else ("children" if node[0] == "X" else "items")
                kwargs = dict(container=src.model, master_items_key=src.key, items_key=key)
                n = Node(i, node[0], None, key, src)
                if case["ctor_sel"]:
                    sel = Selection.IndexedSelection()
                    kwargs["selection"] = sel
                    n.selections.append(Sel(sel))
                if node[0] == "F":
                    if key == src.key:
                        kwargs.pop("master_items_key")
                    model = ListModel.FilteredListModel(**kwargs)
                elif node[0] == "M":
                    model = ListModel.MappedListModel(map_fn=self.make_map(n), unmap_fn=self.make_unmap(n), **kwargs)
                else:
                    if key == "children":
                        kwargs.pop("items_key")
                    model = ListModel.FlattenedListModel(child_items_key="children", **kwargs)
                n.model = model
                n.container = src
                self.add(n)
        # the key of the other list may be one used further down
        others = case.get("others", 0)
        for node in self.nodes:
            if node.src is None:
                keys = ["others"] + [n.key for n in self.nodes if n.src and n.key != node.key] + (["children"] if self.groups else [])
                node.model.others_key = keys[others % len(keys)]
        for n, g in enumerate(self.groups):
            keys = ["others"] + [node.key for node in self.nodes if node.key != "children"]
            g.others_key = keys[(others + n) % len(keys)]
        for i, f, s, rev in case["conf"]:
            self.nodes[i].model.filter = self.filters[f][0]
            self.nodes[i].filter_fn = self.filters[f][1]
            self.nodes[i].model.sort_key = SORTS[s]
            self.nodes[i].sort = SORTS[s]
            self.nodes[i].model.sort_reverse = rev
            self.nodes[i].reverse = rev

    # set up

    def make_map(self, n):
        kind = self.case.get("map", "new")
        known = {}

        def map_fn(item):
            if kind == "same":
                m = item
            elif kind == "cached":
                m = known.setdefault(id(item), MappedItem(item))
            else:
                m = MappedItem(item)
            n.maps.append(m)
            return m
        return map_fn if kind != "default" else None

    def make_unmap(self, n):
        def unmap_fn(m):
            n.unmaps.append(m)
        return unmap_fn if self.case.get("map", "new") != "default" else None

    def prefill(self):
        for j, n in enumerate(self.case["prefill"]):
            if self.groups:
                self.do_insert(j % len(self.groups), 99, n)
            else:
                self.do_insert(0, 99, n)
        if self.groups:
            for g in range(len(self.case["prefill"]) % (len(self.groups) + 1)):
                self.do_ginsert(0, 99, g)

    def add(self, node):
        self.nodes.append(node)
        node.replay = list(node.model.items)
        m = node.model
        node.tokens.append(m.item_inserted_event.listen(lambda key, value, index: self.notified(node, "insert", key, value, index)))
        node.tokens.append(m.item_removed_event.listen(lambda key, value, index: self.notified(node, "remove", key, value, index)))
        if hasattr(m, "begin_changes_event"):
            node.tokens.append(m.begin_changes_event.listen(lambda key: self.bracket(node, "begin", key)))
            node.tokens.append(m.end_changes_event.listen(lambda key: self.bracket(node, "end", key)))

    # monitors

    def fail(self, kind, msg):
        if self.problem is None:
            self.problem = (kind, msg)

    def notified(self, node, what, key, value, index):
        if node.src is None and key == node.model.others_key:
            self.obs.count("other_notifications")
            return
        self.obs.count("notifications")
        self.obs.ev(node.index, what, repr(value), index)
        node.events.append((what, value, index))
        for oracle in self.oracles:
            oracle(self, node, what, key, value, index)

    def bracket(self, node, what, key):
        if node.src is None and key == node.model.others_key:
            return
        self.obs.count("brackets")
        node.events.append((what, key, None))
        for oracle in self.oracles:
            oracle(self, node, what, key, None, None)

    # operations

    def run(self, after_op, before_op=None):
        self.check()
        for op in self.case["ops"]:
            for node in self.nodes:
                node.events.clear()
            if before_op:
                before_op(self, op)
            done = getattr(self, "do_" + op[0])(*op[1:])
            if done is False:
                continue
            self.obs.count("ops")
            self.obs.count("op_" + op[0])
            self.check()
            after_op(self, op)
            self.check()
        for node in self.nodes:
            while node.level > 0:
                for other in self.nodes:
                    other.events.clear()
                if before_op:
                    before_op(self, ["end", node.index])
                self.do_end(node.index)
                self.check()
                after_op(self, ["end", node.index])
                self.check()
        self.obs.state(tuple((n.kind, tuple(map(repr, n.model.items))) for n in self.nodes))

    def check(self):
        if self.problem:
            raise Violation(*self.problem)

    def present(self, item):
        if self.groups:
            return any(item in g.items for g in self.groups)
        return False

    def target(self, t):
        return self.groups[t] if self.groups else self.nodes[t].model

    def do_insert(self, t, index, n):
        m = self.target(t)
        item = self.items[n]
        if not self.dups and (item in m.items or self.present(item)):
            return False
        if index % 3 == 2:
            m.append_item(item)
        else:
            m.insert_item(index % (len(m.items) + 1), item)

    def do_remove(self, t, index):
        m = self.target(t)
        if not m.items:
            return False
        m.remove_item(index % len(m.items))

    def do_other(self, t, index, n):
        holders = [node.model for node in self.nodes if node.src is None] + self.groups
        item = self.items[n]
        if t % 2 and self.groups:
            item = self.groups[n % len(self.groups)]
        holders[t % len(holders)].edit_others(index, item)

    def do_sgroup(self, t, edits):
        m = self.nodes[t].model
        m.begin_changes_event.fire(self.nodes[t].key)
        for insert, index, n in edits:
            if self.groups:
                self.do_ginsert(t, index, n % len(self.groups)) if insert else self.do_gremove(t, index)
            else:
                self.do_insert(t, index, n) if insert else self.do_remove(t, index)
        m.end_changes_event.fire(self.nodes[t].key)

    def do_clear(self, t):
        self.nodes[t].model.clear_items()

    def do_ginsert(self, t, index, g):
        m = self.nodes[t].model
        if self.groups[g] in m.items:
            return False
        m.insert_item(index % (len(m.items) + 1), self.groups[g])

    def do_gremove(self, t, index):
        m = self.nodes[t].model
        if not m.items:
            return False
        m.remove_item(index % len(m.items))

    def do_change(self, n, v, k):
        item = self.items[n]
        if not isinstance(item, Item):
            return False
        item.v, item.k = v, k
        item.item_changed_event.fire()

    def do_silent(self, changes):
        for n, v, k in changes:
            item = self.items[n]
            if isinstance(item, Item):
                item.v, item.k = v, k
        self.silent = True
        for node in self.nodes:
            if node.kind == "F":
                node.model.mark_changed()
        self.silent = False

    def do_filter(self, i, f):
        self.nodes[i].filter_fn = self.filters[f][1]
        self.nodes[i].model.filter = self.filters[f][0]

    def do_sort(self, i, s):
        self.nodes[i].sort = SORTS[s]
        self.nodes[i].model.sort_key = SORTS[s]

    def do_retune(self, i, limit):
        node = self.nodes[i]
        node.limit = limit
        node.filter_fn = node.tunable_fn
        node.model.filter = node.tunable

    def do_resort(self, i, table):
        node = self.nodes[i]
        node.table = table
        node.sort = node.tunable_sort
        node.model.sort_key = node.tunable_sort

    def do_reverse(self, i, r):
        self.nodes[i].reverse = r
        self.nodes[i].model.sort_reverse = r

    def do_begin(self, i):
        node = self.nodes[i]
        if node.level >= 5:
            return False
        node.level += 1
        node.model.begin_change()

    def do_end(self, i):
        node = self.nodes[i]
        if node.level == 0:
            return False
        node.level -= 1
        node.model.end_change()

    def do_mark(self, i):
        self.nodes[i].model.mark_changed()

    def do_raising(self, i, index, n):
        """A change group left by an exception is still ended."""
        try:
            with self.nodes[i].model.changes():
                self.do_insert(0, index, n)
                raise ZeroDivisionError
        except ZeroDivisionError:
            pass

    def do_container(self, i, which):
        node = self.nodes[i]
        if not self.swap_in_groups and self.in_group(node.src, node.container):
            return False
        if which == "none":
            node.container = None
        elif which == "other" and node.src.src is None:
            node.container = self.nodes[1]
        else:
            node.container = node.src
        node.model.container = node.container.model if node.container else None

    def in_group(self, *nodes):
        """Whether one of the lists (or what it observes) is in a change group."""
        for n in nodes:
            while n is not None:
                if n.level > 0:
                    return True
                n = n.container
        return False

    def do_select(self, i, which, what, indexes):
        node = self.nodes[i]
        if what == "new":
            if len(node.selections) >= 3:
                return False
            node.selections.append(Sel(node.model.make_selection()))
            return
        if not node.selections:
            return False
        sel = node.selections[which % len(node.selections)]
        if what == "release":
            node.selections.remove(sel)
            node.model.release_selection(sel.selection)
            return
        n = len(node.model.items)
        if n == 0:
            return False
        indexes = [x % n for x in indexes]
        if what == "clear":
            sel.selection.clear()
        elif what == "set_multiple":
            sel.selection.set_multiple(set(indexes))
        elif indexes:
            getattr(sel.selection, what)(indexes[0])

    # reference

    def expected_filtered(self, node):
        """Multiset and order which the filtered list must have, given the current contents of its container."""
        src = list(node.container.model.items) if node.container else []
        return [x for x in src if node.filter_fn(x)]


class Sel:
    def __init__(self, selection):
        self.selection = selection
