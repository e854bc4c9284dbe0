"""C09: begin/end changes brackets."""
from mon import lists
from mon.core import Family

PROPERTY = "C09"
RULE = ("random histories with nested change groups on chains of filtered and mapped lists; a trace automaton per list follows begin, end, insert and remove notifications; non-trivial: at least 3 brackets observed")
ASSUMPTIONS = ["containers are not replaced while the old or new container is in a change group", "mapped lists over plain lists have no change groups of their own source and are only checked for balance"]
MUST_OBSERVE = ("brackets", "changes_in_brackets", "mapped_groups", "op_end", "op_raising", "op_container", "op_filter")


def execute(case, obs):
    w = lists.World(case, obs)
    # mapped lists whose container (directly or through mapped lists) is filtered
    def over_filtered(node):
        c = node.container
        while c is not None and c.kind == "M":
            c = c.container
        return c is not None and c.kind == "F"

    for node in w.nodes:
        node.depth = 0

    def oracle(world, node, what, key, value, index):
        if what in ("begin", "end"):
            if key != node.key:
                world.fail("wrong-key", f"{what} of {node.kind}{node.index} has key {key!r}")
            if what == "begin":
                node.depth += 1
                if node.kind == "M":
                    obs.count("mapped_groups")
                    if node.depth > 1:
                        world.fail("mapped-begin-nested", f"mapped list {node.index} began changes twice")
            else:
                node.depth -= 1
                if node.depth < 0:
                    world.fail("end-without-begin", f"{node.kind}{node.index}")
            obs.ev(node.index, what, node.depth)
        elif node.kind == "F":
            obs.count("changes_in_brackets")
            if node.depth < 1:
                world.fail("change-outside-bracket", f"{node.kind}{node.index}: {what} of {value} at {index} outside of begin/end")
        elif node.kind == "M" and node.container is not None and node.container.depth > 0:
            if over_filtered(node) and node.depth != 1 and not world.detaching:
                world.fail("mapped-change-outside-bracket", f"{what} at {index} while the source is changing")

    w.detaching = False
    w.swap_in_groups = False
    w.oracles.append(oracle)

    def after(world, op):
        w.detaching = False
        for node in world.nodes:
            expected = 0
            if node.container is not None:
                expected = node.container.depth
            if node.kind == "M" and (node.level > 0 or expected > 0):
                expected = 1
            if node.depth != expected:
                world.fail("unbalanced", f"after {op}: {node.kind}{node.index} at depth {node.depth}")
            if node.kind == "M" and over_filtered(node) and node.level == 0 and op[0] not in ("container", "begin", "end", "mark", "raising") and node.container is not None:
                # exactly one begin/end of the mapped list for each outermost group of the filtered list
                groups = outermost(node.container.events)
                mine = outermost(node.events)
                nmine = sum(1 for e in node.events if e[0] == "begin")
                if nmine != groups or mine != groups:
                    world.fail("mapped-groups-differ", f"after {op}: source had {groups} change groups, mapped list {nmine}")

    def outermost(events):
        depth = n = 0
        for e in events:
            if e[0] == "begin":
                depth += 1
                n += depth == 1
            elif e[0] == "end":
                depth -= 1
        return n

    def before(world, op):
        w.detaching = op[0] == "container"

    w.run(after, before)
    obs.nontrivial = obs.counters["brackets"] >= 3


FAMILIES = [
    Family("chains", lambda rng: lists.gen_case(rng, ["F", "FF", "FM", "FMM", "FFM", "FMF", "MF", "XFM", "M", "two"]), execute, 52000, 208000, min_events=3),
    Family("grouped", lambda rng: lists.gen_case(rng, ["FM", "FMM", "FFM", "XFM"], weights=dict(begin=8, end=8, raising=3, mark=3)), execute, 26000, 104000, min_events=3),
]
