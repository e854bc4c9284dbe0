"""C05: contents of mapped and flattened lists, and calls of map and unmap functions."""
from mon import lists
from mon.core import Family

PROPERTY = "C05"
RULE = ("random histories of edits of sources, groups and children and of container replacements over mapped and flattened lists (alone and chained with filtered lists); after each operation contents are compared "
        "with the source and the calls of map and unmap with the items gained and lost; non-trivial: at least 3 comparisons with two or more items")
ASSUMPTIONS = ["master items of flattened lists are unique"]
MUST_OBSERVE = ("mapped_compared", "mapped_new", "mapped_same", "mapped_cached", "mapped_default", "flat_compared", "maps", "unmaps", "op_container", "op_gremove", "op_ginsert")


def compare(world, node, op):
    got = list(node.model.items)
    src = list(node.container.model.items) if node.container else []
    if node.kind == "X":
        want = [c for g in src for c in g.items]
        world.obs.count("flat_compared")
        if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
            world.fail("flattened-differs", f"after {op}: flattened list has {got}, concatenation is {want}")
    else:
        world.obs.count("mapped_compared")
        kind = world.case.get("map", "new")
        world.obs.count("mapped_" + kind)
        if len(got) != len(src) or any((a if kind in ("same", "default") else a.src) is not b for a, b in zip(got, src)):
            world.fail("mapped-differs", f"after {op}: mapped list has {got}, source is {src}")
        if kind == "default":
            return
        # map exactly once per item in the list, unmap exactly once per item which left
        live = {}
        for m in node.maps:
            live[id(m)] = live.get(id(m), 0) + 1
        for m in node.unmaps:
            live[id(m)] = live.get(id(m), 0) - 1
        here = {}
        for m in got:
            here[id(m)] = here.get(id(m), 0) + 1
        live = {k: v for k, v in live.items() if v}
        if live != here:
            extra = [m for m in node.maps if live.get(id(m), 0) != here.get(id(m), 0)]
            world.fail("map-unmap-unbalanced", f"after {op}: mapped but not unmapped differs from items for {extra}; items {got}")
    if len(got) > 1:
        world.obs.count("nontrivial_compared")


def execute(case, obs):
    w = lists.World(case, obs)
    inserted = {n.index: 0 for n in w.nodes}
    removed = {n.index: 0 for n in w.nodes}

    def after(world, op):
        for node in world.nodes:
            if node.kind in "XM":
                compare(world, node, op)
            if node.kind == "M" and case.get("map", "new") != "default":
                # calls made during this operation against the notifications of it
                ins = sum(1 for e in node.events if e[0] == "insert")
                rem = sum(1 for e in node.events if e[0] == "remove")
                if len(node.maps) - inserted[node.index] != ins:
                    world.fail("map-calls", f"after {op}: {len(node.maps) - inserted[node.index]} map calls for {ins} inserted items")
                if len(node.unmaps) - removed[node.index] != rem:
                    world.fail("unmap-calls", f"after {op}: {len(node.unmaps) - removed[node.index]} unmap calls for {rem} removed items")
                inserted[node.index] = len(node.maps)
                removed[node.index] = len(node.unmaps)

    for node in w.nodes:
        if node.kind == "M":
            inserted[node.index] = len(node.maps)
            removed[node.index] = len(node.unmaps)
        if node.kind in "XM":
            compare(w, node, "construction")
    w.run(after)
    for node in reversed(w.nodes):
        if node.src is not None:
            node.model.close()
            w.check()
            if node.kind in "XM":
                node.container = None
                compare(w, node, "close")
                w.check()
    for node in w.nodes:
        obs.count("maps", len(node.maps))
        obs.count("unmaps", len(node.unmaps))
    # closed lists stay empty
    obs.nontrivial = obs.counters["nontrivial_compared"] >= 3
    for root in w.nodes[:2]:
        root.model.clear_items()
    for n in range(3):
        w.do_insert(0, n, n)
    for node in w.nodes:
        if node.src is not None and len(node.model.items):
            w.fail("closed-list-changed", f"{node.kind}{node.index} has {node.model.items} after close")
    w.check()


FAMILIES = [
    Family("mapped", lambda rng: lists.gen_case(rng, ["M", "MM", "FM", "FMM", "FFM"]), execute, 39000, 156000, min_events=2),
    Family("flattened", lambda rng: lists.gen_case(rng, ["X", "XM", "XFM"]), execute, 39000, 156000, min_events=2),
]
