"""C04: contents of filtered lists."""
from mon import lists
from mon.core import Family

PROPERTY = "C04"
RULE = ("random histories (source edits, item changes, filter / sort / reverse / container changes, nested change groups, silent changes followed by mark_changed) on filtered lists over plain, "
        "mapped, flattened and filtered sources; after every operation each filtered list outside of a change group is compared with a recomputation from its source; non-trivial: at least 3 comparisons with two or more items")
ASSUMPTIONS = ["order among items with equal sort keys is not specified", "items are unique", "a change of an item is announced by its item_changed_event or followed by mark_changed"]
MUST_OBSERVE = ("compared", "compared_sorted", "compared_reverse", "op_filter", "op_container", "op_end", "op_change", "op_silent", "op_retune", "op_resort")


def compare(world, node, op):
    if node.level > 0:
        return
    got = list(node.model.items)
    want = world.expected_filtered(node)
    world.obs.count("compared")
    if len(want) > 1:
        world.obs.count("compared_nontrivial")
    if sorted(map(id, got)) != sorted(map(id, want)):
        world.fail("wrong-members", f"after {op}: filtered list {node.index} has {got}, expected {want} in some order")
        return
    key = node.sort
    if key is None:
        if any(a is not b for a, b in zip(got, want)):
            world.fail("not-source-order", f"after {op}: filtered list {node.index} has {got}, source order is {want}")
    else:
        keys = [key(x) for x in got]
        world.obs.count("compared_reverse" if node.reverse else "compared_sorted")
        if keys != sorted(keys, reverse=node.reverse):
            world.fail("not-sorted", f"after {op}: filtered list {node.index} has {got} with keys {keys}, reverse {node.reverse}")


def after(world, op):
    for node in world.nodes:
        if node.kind == "F":
            compare(world, node, op)


def execute(case, obs):
    w = lists.World(case, obs)
    after(w, "construction")
    w.run(after)
    for node in w.nodes:
        if node.kind == "F" and node.model.sort_key is not node.sort:
            w.fail("sort-key-not-kept", f"filtered list {node.index}")
        if node.kind == "F" and bool(node.model.sort_reverse) != bool(node.reverse):
            w.fail("reverse-not-kept", f"filtered list {node.index}")
    w.check()
    obs.nontrivial = obs.counters["compared_nontrivial"] >= 3


T_SINGLE = ["F"]
T_MULTI = ["FF", "FFF", "MF", "FMF", "XF", "two", "FFM"]

FAMILIES = [
    Family("single", lambda rng: lists.gen_case(rng, T_SINGLE), execute, 31000, 200000, min_events=2),
    Family("long", lambda rng: lists.gen_case(rng, T_SINGLE, length=(40, 120), weights=dict(insert=14, begin=1, end=3)), execute, 4700, 30000, min_events=2),
    Family("composed", lambda rng: lists.gen_case(rng, T_MULTI), execute, 25000, 150000, min_events=2),
    Family("grouped", lambda rng: lists.gen_case(rng, T_SINGLE + T_MULTI, weights=dict(begin=8, end=8, change=10, filter=4, sort=3, reverse=3, container=2)), execute, 18000, 100000, min_events=2),
]
