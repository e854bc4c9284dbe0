"""C15: recorder replays histories."""
import copy

from nion.utils import Recorder

from mon import persist
from mon.core import Family, expect

PROPERTY = "C15"
RULE = ("a random tree of observable persistent objects, copied when recording starts, is edited at random at all depths (properties, items, members inserted, removed, moved away and inserted again, edits of removed objects) while a recorder listens "
        "to the root or to one object below it; the recorder is then applied to the copies and their content compared; non-trivial: at least one edit below the recorded object")
ASSUMPTIONS = ["objects notify their changes, as the recorder requires", "hidden properties are not settable through the public interface and so not recorded"]
MUST_OBSERVE = ("edits", "deep_edits", "applied", "not_recordable_edits", "parked_edits", "reinserted", "edits_after_close", "sub_recorders", "poked")

SKIP = ("h", "t", "r", "j", "n")  # the last three are not recordable


def gen(rng):
    def ops(n):
        return [op for op in persist.gen_ops(rng, n, bare=False) if not (op[0] == "set" and op[2] in ("h", "t"))]
    return {"before": ops(rng.randint(0, 10)), "ops": ops(rng.randint(1, 30)), "after": ops(rng.randint(1, 12)), "poke": rng.random() < 0.5, "edit": ops(4), "sub": rng.randrange(20) if rng.random() < 0.3 else None}


def path_to(root, obj):
    if obj is root:
        return []
    for n in root.item_names:
        x = root.get_item(n)
        if x is not None:
            p = path_to(x, obj)
            if p is not None:
                return [(n, None)] + p
    for n in root.relationship_names:
        for i, x in enumerate(getattr(root, n)):
            p = path_to(x, obj)
            if p is not None:
                return [(n, i)] + p
    return None


def follow(root, path):
    for n, i in path:
        root = root.get_item(n) if i is None else getattr(root, n)[i]
    return root


def content(o):
    return persist.tree(o, with_uuid=False, skip=SKIP)


def execute(case, obs):
    root = persist.Node()
    ed = persist.Editor([root])
    for op in case["before"]:
        ed.do(op)
    copies = [copy.deepcopy(root) for _ in range(3)]
    original = persist.tree(copies[0], with_uuid=False)
    target = root
    path = []
    if case["sub"] is not None:
        objs = persist.objects(root)
        target = objs[case["sub"] % len(objs)]
        path = path_to(root, target)
        recorder = Recorder.Recorder(target, lambda x: follow(x, path))
        obs.count("sub_recorders")
    else:
        recorder = Recorder.Recorder(root)
    seen_removed = set()
    edits = 0
    for op in case["ops"]:
        act = ed.prepare(op)
        if act is None:
            continue
        inside = any(x is act[1] for x in persist.objects(target))
        if act[0] in ("insert", "item") and act[3 if act[0] == "item" else 4] is not None and id(act[3 if act[0] == "item" else 4]) in seen_removed:
            if inside:
                obs.count("reinserted")
        if path and not inside and act[0] in ("remove", "item", "insert"):
            # keep the recorded object where it is while recording
            moved = act[4] if act[0] in ("remove", "item") else None
            if moved is not None and any(x is target for x in persist.objects(moved)):
                if act[0] == "item" and act[3] is not None:
                    ed.parked.append(act[3])
                continue
        if act[0] == "insert" and any(x is target for x in persist.objects(act[4])):
            ed.parked.append(act[4])
            continue
        ed.perform(act)
        if act[0] in ("remove", "item") and act[4] is not None:
            seen_removed.add(id(act[4]))
        obs.ev(act[0], act[2], inside)
        if not inside:
            obs.count("parked_edits")
        elif act[0] == "set" and act[2] in ("n", "r", "j"):
            obs.count("not_recordable_edits")
        else:
            edits += 1
            obs.count("edits")
            if act[1] is not target:
                obs.count("deep_edits")
    final = content(target)
    recorder.close()
    for op in case["after"]:
        if ed.do(op) is not None:
            obs.count("edits_after_close")
    if case["poke"]:
        # the recorded object's values change in place, without the recorder knowing
        for o in ed.all(True):
            for name in o.property_names:
                persist.mutate_deep(persist.prop_value(o, name))
        obs.count("poked")
    after_tree = persist.tree(root)
    for i, c in enumerate(copies):
        n_before = c.n, c.r, c.j
        others_before = content(c)
        recorder.apply(c)
        obs.count("applied")
        t = follow(c, path)
        expect(content(t) == final, "replay", "copy {} has {} instead of {}", i, content(t), final)
        expect((c.n, c.r, c.j) == n_before, "not-recordable", "a property which is not recordable was replayed")
        expect(persist.tree(root) == after_tree, "replay-changes-recorded", "applying the recorder changed the recorded object")
        if path:
            expect(_without(content(c), path) == _without(others_before, path), "replay-elsewhere", "applying changed objects outside of the recorded one")
        if i == 0:
            # changing this copy, also in place, must not affect the recorded object nor later copies
            ed2 = persist.Editor([c])
            for op in case["edit"]:
                ed2.do(op)
            for o in persist.objects(c):
                for name in o.property_names:
                    persist.mutate_deep(persist.prop_value(o, name))
            expect(persist.tree(root) == after_tree, "shared-state", "changing the copy in place changed the recorded object")
    obs.state(repr(final))
    obs.nontrivial = edits > 0


def _without(t, path):
    """content with the sub tree at the path blanked out"""
    t = copy.deepcopy(t)
    x = t
    for depth, (n, i) in enumerate(path):
        last = depth == len(path) - 1
        if i is None:
            if last:
                x["i:" + n] = None
            else:
                x = x["i:" + n]
        else:
            if last:
                x["r:" + n][i] = None
            else:
                x = x["r:" + n][i]
    return t


FAMILIES = [Family("replay", gen, execute, 9300, 150000)]
