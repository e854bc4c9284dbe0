"""C06: selections of list models follow items."""
from mon import lists
from mon.core import Family

PROPERTY = "C06"
RULE = ("random histories of single-item edits and item changes on filtered, mapped and flattened lists with up to three selections each (made, passed to the constructor, released), selections edited by set / add / toggle / extend / "
        "set_multiple / clear in between; after each edit every selection is compared by item identity with what was selected before; non-trivial: at least 2 edits with something selected before")
ASSUMPTIONS = ["an item which moves because its sort position changes may leave the selection or stay selected", "selections across filter, sort and container changes and change groups are not specified"]
MUST_OBSERVE = ("followed", "anchor_followed", "anchor_lost", "selected_removed", "op_remove", "op_change", "released_checked", "changed_in_place")


def execute(case, obs):
    w = lists.World(case, obs)
    released = []

    def before(world, op):
        for node in world.nodes:
            node.before_items = list(node.model.items)
            for s in node.selections:
                s.before = set(s.selection.indexes)
                s.before_anchor = s.selection.anchor_index

    def after(world, op):
        if op[0] == "select":
            if op[3] == "release":
                pass
            return
        moved = None
        if op[0] == "change":
            moved = world.items[op[1]]
        for node in world.nodes:
            items = list(node.model.items)
            old = node.before_items
            in_place = len(old) == len(items) and all(a is b for a, b in zip(old, items))
            # it may have moved in the list this one observes
            in_place = node.in_place = in_place and (node.container is None or node.container.in_place)
            if in_place and moved is not None:
                obs.count("changed_in_place")
            index_of = {id(x): i for i, x in enumerate(items)}
            for s in node.selections:
                sel = s.selection
                if s.before:
                    obs.count("followed")
                def is_moved(x):
                    while isinstance(x, lists.MappedItem):
                        x = x.src
                    return x is moved and not in_place
                want = {index_of[id(old[i])] for i in s.before if i < len(old) and id(old[i]) in index_of and not is_moved(old[i])}
                optional = {i for i, x in enumerate(items) if is_moved(x)}
                if any(i < len(old) and id(old[i]) not in index_of for i in s.before):
                    obs.count("selected_removed")
                got = set(sel.indexes)
                if got - optional != want - optional:
                    world.fail("selection-lost-items", f"after {op}: {node.kind}{node.index} {old} -> {items}, selected {sorted(s.before)} -> {sorted(got)}, expected {sorted(want)}")
                a = s.before_anchor
                if a is not None and a in s.before and a < len(old) and not is_moved(old[a]):
                    if id(old[a]) in index_of:
                        obs.count("anchor_followed")
                        if sel.anchor_index != index_of[id(old[a])]:
                            world.fail("anchor-lost-item", f"after {op}: {old} -> {items}, anchor {a} -> {sel.anchor_index}, expected {index_of[id(old[a])]}")
                    else:
                        obs.count("anchor_lost")
                        if not (sel.anchor_index is None and not got or sel.anchor_index in got):
                            world.fail("anchor-not-selected", f"after {op}: {old} -> {items}, selected {sorted(got)}, anchor {a} -> {sel.anchor_index}")

    def step(world, op):
        # remember selections being released; they must no longer change
        if op[0] == "select" and op[3] == "release":
            node = world.nodes[op[1]]
            if node.selections:
                sel = node.selections[op[2] % len(node.selections)].selection
                released.append((sel, set(sel.indexes), sel.anchor_index))
        before(world, op)

    w.run(after, step)
    for sel, indexes, anchor in released:
        obs.count("released_checked")
        if set(sel.indexes) != indexes or sel.anchor_index != anchor:
            w.fail("released-selection-changed", f"{indexes} -> {sel.indexes}")
    w.check()
    obs.nontrivial = obs.counters["followed"] >= 2


def gen(templates):
    def g(rng):
        case = lists.gen_case(rng, templates, selections=True, groups_allowed=False, configure=False, containers=False, silent=False, length=(8, 45), weights=dict(clear=0.15, sgroup=0))
        if any(t in case["template"] for t in "M") or case["template"] == "X":
            case["dups"] = False
        # start with enough items and something selected
        n = len(case["items"])
        big = n > lists.N_ITEMS
        case["prefill"] = [rng.randrange(n) for _ in range(rng.randint(2, n if big else 8))]
        derived = [i for i, node in enumerate(lists.TEMPLATES[case["template"]]) if len(node) == 2]
        first = []
        for i in derived:
            first.append(["select", i, 0, "new", []])
            first.append(["select", i, rng.randrange(3), rng.choice(["set", "set_multiple", "extend"]), [rng.randrange(n if big else 12) for _ in range(rng.randint(1, 20 if big else 4))]])
        case["ops"] = first + case["ops"]
        return case
    return g


FAMILIES = [
    Family("filtered", gen(["F", "FF", "two"]), execute, 33000, 150000, min_events=2),
    Family("mapped", gen(["M", "FM", "MF"]), execute, 14000, 80000, min_events=2),
    Family("flattened", gen(["X", "XF", "XM"]), execute, 22000, 100000, min_events=2),
]
