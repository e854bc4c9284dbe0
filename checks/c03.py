"""C03: notifications of list models replay to their contents."""
from mon import lists
from mon.core import Family, expect
from nion.utils import ListModel

PROPERTY = "C03"
RULE = ("random histories (edits, item changes, filter / sort / reverse / container changes, nested change groups, silent changes) over 16 compositions of list models; "
        "a replica of every list is updated from notifications only and compared at every notification and after every operation; non-trivial: at least 3 notifications observed")
ASSUMPTIONS = ["items of filtered and flattened lists are unique, as the library requires", "indexes passed by callers are within range"]
MUST_OBSERVE = ("notifications", "op_filter", "op_container", "op_end", "op_change", "removals", "handed_out", "given_list_changed", "other_notifications")


def oracle(world, node, what, key, value, index):
    if what in ("begin", "end"):
        return
    if key != node.key:
        world.fail("wrong-key", f"{node.kind}{node.index}: notification for key {key!r}, model's key is {node.key!r}")
        return
    replay = node.replay
    if what == "insert":
        if not isinstance(index, int) or not 0 <= index <= len(replay):
            world.fail("bad-index", f"{node.kind}{node.index}: insert of {value} at {index}, list has {len(replay)}")
            return
        replay.insert(index, value)
    else:
        world.obs.count("removals")
        if not isinstance(index, int) or not 0 <= index < len(replay):
            world.fail("bad-index", f"{node.kind}{node.index}: remove of {value} at {index}, list has {len(replay)}")
            return
        if replay[index] is not value:
            world.fail("wrong-item-removed", f"{node.kind}{node.index}: removal of {value} at {index} where {replay[index]} was; list {replay}")
            return
        del replay[index]
    same(world, node, "during notification")


def same(world, node, when):
    items = node.model.items
    if len(items) != len(node.replay) or any(a is not b for a, b in zip(items, node.replay)):
        world.fail("replay-differs", f"{node.kind}{node.index} {when}: replay {node.replay} items {items}")
    if list(getattr(node.model, node.key)) != list(items):
        world.fail("key-access-differs", f"{node.kind}{node.index}: {getattr(node.model, node.key)} {items}")


def after(world, op):
    for node in world.nodes:
        same(world, node, f"after {op}")
        if hasattr(node.model, "nope"):
            world.fail("unknown-attribute", f"{node.kind}{node.index} has an attribute for a key it does not have")
        if node.src is not None:
            # what is handed out is not the list itself
            for items in (node.model.items, getattr(node.model, node.key)):
                items.reverse()
                items.append(None)
            same(world, node, f"changing the items handed out after {op}")
            world.obs.count("handed_out")
            c = node.model.container
            if c is not (node.container.model if node.container else None):
                world.fail("container", f"{node.kind}{node.index} has container {c}")


def gen_plain(rng):
    return {"key": rng.choice([None, "stuff"]), "init": [rng.randrange(5) for _ in range(rng.randint(0, 5))], "how": rng.choice(["none", "list", "tuple"]),
            "ops": [[rng.choice(["insert", "insert", "append", "remove", "clear", "poke"]), rng.randrange(9), rng.randrange(5)] for _ in range(rng.randint(1, 15))]}


def execute_plain(case, obs):
    """plain lists, constructed from given items"""
    given = {"none": None, "list": list(case["init"]), "tuple": tuple(case["init"])}[case["how"]]
    key = case["key"] or "items"
    m = ListModel.ListModel(case["key"], given) if given is not None or case["key"] else ListModel.ListModel()
    want = list(given or [])
    replay = list(want)
    problems = []

    def inserted(k, value, index):
        replay.insert(index, value)
        if k != key or list(m.items) != replay:
            problems.append(("insert", k, value, index))

    def removed(k, value, index):
        if not 0 <= index < len(replay) or replay.pop(index) != value or k != key or list(m.items) != replay:
            problems.append(("remove", k, value, index))
    l1, l2 = m.item_inserted_event.listen(inserted), m.item_removed_event.listen(removed)
    for what, n, v in case["ops"]:
        if what == "insert":
            m.insert_item(n % (len(want) + 1), v)
            want.insert(n % (len(want) + 1), v)
        elif what == "append":
            m.append_item(v)
            want.append(v)
        elif what == "remove" and want:
            m.remove_item(n % len(want))
            del want[n % len(want)]
        elif what == "clear":
            m.clear_items()
            want.clear()
        elif what == "poke" and isinstance(given, list):
            given.append("trash")
            obs.count("given_list_changed")
        obs.ev(what, n, v)
        expect(list(m.items) == want and list(getattr(m, key)) == want and replay == want, "plain-list", "after {}: list is {}, notifications give {}, expected {}", what, list(m.items), replay, want)
        expect(not problems, "plain-notification", "wrong notification {}", problems)
        expect(not hasattr(m, "nope") and (key == "items" or hasattr(m, key)), "plain-attribute", "attributes of the list")
    m.close()


def execute(case, obs):
    w = lists.World(case, obs)
    w.oracles.append(oracle)
    for node in w.nodes:
        node.replay = list(node.model.items)
    w.run(after)
    # closing also reports what leaves the list
    for node in reversed(w.nodes):
        if node.src is not None:
            node.model.close()
            w.check()
            same(w, node, "after close")
            w.check()
    obs.nontrivial = obs.counters["notifications"] >= 3


def gen_all(rng):
    return lists.gen_case(rng, sorted(lists.TEMPLATES))


FAMILIES = [Family("plain", gen_plain, execute_plain, 10000, 50000), Family("worlds", gen_all, execute, 53000, 300000, min_events=3)]
