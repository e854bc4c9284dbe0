"""C17: structured model notifications."""
import copy
import random

from nion.utils import StructuredModel as S

from mon import structured as st
from mon.core import Family, expect

PROPERTY = "C17"
RULE = ("random schemas and models; listeners on every record, array and field of the model; random edits of fields and arrays at every depth, loads, copies, removal of items followed by edits of the removed items, and closing of records and arrays; "
        "the notifications of every node are compared with the change made; non-trivial: at least one notification")
ASSUMPTIONS = ["model_changed_event may fire more than once for one operation", "an item is in one array at a time"]
MUST_OBSERVE = ("field_changes", "equal_sets", "array_inserts", "array_removes", "deep_changes", "removed_item_changes", "closed_node_changes", "loads", "equal_loads")


def gen(rng):
    s = st.gen_record(rng, rng.randint(1, 4)) if rng.random() < 0.8 else ["array", st.gen_schema(rng, 3)]
    value = st.gen_value(rng, s, 0.15)
    ops = []
    for _ in range(rng.randint(1, 16)):
        r = rng.random()
        if r < 0.40:
            ops.append(["set", rng.randrange(60), rng.getrandbits(30)])
        elif r < 0.60:
            ops.append(["insert", rng.randrange(60), rng.randrange(9), rng.getrandbits(30)])
        elif r < 0.75:
            ops.append(["remove", rng.randrange(60), rng.randrange(9)])
        elif r < 0.86:
            ops.append(["load", rng.choice(["same", "new", "new", "self"]), rng.getrandbits(30)])
        elif r < 0.94:
            ops.append(["set_removed", rng.randrange(60), rng.getrandbits(30)])
        else:
            ops.append(["reinsert", rng.randrange(60), rng.randrange(9)])
    return {"schema": s, "value": value, "ops": ops, "close": rng.getrandbits(30)}


class Watch:
    """Listeners on one node; the record/array mirrors are replayed from the notifications."""
    def __init__(self, path, s, m, problems):
        self.path, self.s, self.m = path, s, m
        self.changed = 0
        self.props = []
        self.items = []
        self.own = []
        self.problems = problems
        self.listeners = [m.model_changed_event.listen(self.on_changed)]
        if st.is_basic(s):
            self.listeners.append(m.property_changed_event.listen(self.on_own))
        elif s[0] == "record":
            self.listeners.append(m.property_changed_event.listen(self.on_prop))
            self.listeners.append(m.item_inserted_event.listen(self.on_insert))
            self.listeners.append(m.item_removed_event.listen(self.on_remove))
            self.arrays = {n: list(getattr(m, n + "_model").items) for n, fs, d in s[1] if not st.is_basic(fs) and fs[0] == "array"}
            self.values = {n: getattr(m, n) for n, fs, d in s[1] if st.is_basic(fs)}
        else:
            self.listeners.append(m.item_inserted_event.listen(self.on_insert))
            self.listeners.append(m.item_removed_event.listen(self.on_remove))
            self.arrays = {"items": list(m.items)}

    def on_changed(self):
        self.changed += 1

    def on_own(self, name):
        self.own.append((name, self.m.value))

    def on_prop(self, name):
        if name not in self.values:
            self.problems.append(("property-name", f"{self.path} reported {name}"))
            return
        self.values[name] = getattr(self.m, name)
        self.props.append(name)

    def on_insert(self, key, value, index):
        self.items.append(("insert", key, value, index))
        if key not in self.arrays or not 0 <= index <= len(self.arrays[key]):
            self.problems.append(("insert-notification", f"{self.path} reported insert into {key} at {index}"))
            return
        self.arrays[key].insert(index, value)

    def on_remove(self, key, value, index):
        self.items.append(("remove", key, value, index))
        if key not in self.arrays or not 0 <= index < len(self.arrays[key]) or self.arrays[key][index] is not value:
            self.problems.append(("remove-notification", f"{self.path} reported remove from {key} at {index}"))
            return
        del self.arrays[key][index]

    def close(self):
        for l in self.listeners:
            l.close()

    def check_replay(self):
        if st.is_basic(self.s):
            return
        if self.s[0] == "record":
            for n, v in self.values.items():
                got = getattr(self.m, n)
                expect(_same(v, got), "field-not-notified", "{} of {} is {} but was last notified as {}", n, self.path, got, v)
        for n, l in self.arrays.items():
            items = self.m.items if n == "items" and self.s[0] == "array" else getattr(self.m, n + "_model").items
            expect(len(l) == len(items) and all(x is y for x, y in zip(l, items)), "array-replay", "replaying the notifications of {} of {} gives {} items instead of {}", n, self.path, len(l), len(items))

    def silent(self):
        return not (self.changed or self.props or self.items or self.own)


def _same(a, b):
    return a is b if a is None or b is None else a == b


class Runner:
    def __init__(self, case, obs):
        self.obs = obs
        self.s = case["schema"]
        self.model = S.build_model(st.to_schema(self.s), value=copy.deepcopy(case["value"]))
        self.removed = []  # (schema, model)
        self.problems = []
        self.fired = 0

    def watch(self, extra=()):
        return [Watch(p, s, m, self.problems) for p, s, m in st.nodes(self.s, self.model)] + [Watch(("removed", i), s, m, self.problems) for i, (s0, m0) in enumerate(extra) for p, s, m in st.nodes(s0, m0)]

    def finish(self, watches, what):
        for w in watches:
            w.close()
        expect(not self.problems, *(self.problems[0] if self.problems else ("", "")))
        for w in watches:
            w.check_replay()
            self.fired += w.changed
        self.obs.ev(*what, sum(w.changed for w in watches))

    def ancestors(self, path):
        return {path[:i] for i in range(len(path) + 1)}

    def check_changed(self, watches, path, what):
        """the node at the path and all around it changed, and no other"""
        anc = self.ancestors(path)
        for w in watches:
            if w.path in anc:
                expect(w.changed > 0, "model-changed-missing", "{} at {}: model_changed_event of {} did not fire", what, path, w.path)
            else:
                expect(w.silent(), "notified-without-change", "{} at {}: {} notified", what, path, w.path)

    def step(self, op):
        obs = self.obs
        kind = op[0]
        nodes = st.nodes(self.s, self.model)
        if kind == "set":
            fields = [(p, s, m) for p, s, m in nodes if st.is_basic(s)]
            if not fields:
                return
            path, s, m = fields[op[1] % len(fields)]
            rng = random.Random(op[2])
            v = m.value if rng.random() < 0.3 else None if rng.random() < 0.1 else st.gen_basic(rng, s if isinstance(s, str) else s[1])
            same = _same(v, m.value)
            watches = self.watch(self.removed)
            holder = next(w for w in watches if w.path == path[:-1]) if path else None
            if holder and rng.random() < 0.7:
                setattr(holder.m, path[-1], v)
            else:
                m.value = v
            self.finish(watches, ("set", len(path), same))
            if same:
                obs.count("equal_sets")
                for w in watches:
                    expect(w.silent(), "notified-without-change", "setting {} to an equal value: {} notified", path, w.path)
            else:
                obs.count("field_changes")
                if len(path) > 1:
                    obs.count("deep_changes")
                self.check_changed(watches, path, "set")
                own = next(w for w in watches if w.path == path)
                expect(own.own == [("value", v)], "field-notification", "field {} notified {} for value {}", path, own.own, v)
                if holder:
                    expect(holder.props == [path[-1]], "record-notification", "record {} notified {} for a change of {}", path[:-1], holder.props, path[-1])
                    expect(not holder.items, "record-notification", "record {} notified item changes", path[:-1])
        elif kind in ("insert", "remove", "reinsert"):
            arrays = [(p, s, m) for p, s, m in nodes if not st.is_basic(s) and s[0] == "array"]
            if not arrays:
                return
            path, s, m = arrays[op[1] % len(arrays)]
            watches = self.watch(self.removed)
            n = len(m.items)
            if kind == "remove":
                if not n:
                    self.finish(watches, ("none",))
                    return
                i = op[2] % n
                item = m.items[i]
                if op[2] % 2:
                    del m.field_value[i]
                else:
                    m.remove_item(i)
                if not st.is_basic(s[1]):
                    self.removed.append((s[1], item))
                want = ("remove", item, i)
                obs.count("array_removes")
            else:
                i = op[2] % (n + 1)
                if kind == "reinsert":
                    c = [j for j, (s0, m0) in enumerate(self.removed) if s0 == s[1]]
                    if not c:
                        self.finish(watches, ("none",))
                        return
                    # listeners on removed items would see themselves twice: watch again without it
                    for w in watches:
                        w.close()
                    item = self.removed.pop(c[op[2] % len(c)])[1]
                    watches = self.watch(self.removed)
                else:
                    item = st.new_item(s[1], st.expected(s[1], None, st.gen_value(random.Random(op[3]), s[1], 0.2)))
                if op[2] % 2:
                    m.field_value.insert(i, item)
                else:
                    m.insert_item(i, item)
                want = ("insert", item, i)
                obs.count("array_inserts")
            self.finish(watches, (kind, len(path)))
            # items behind have moved, watches carry the paths from before
            self.check_changed(watches, path, kind)
            own = next(w for w in watches if w.path == path)
            expect([(k, it, ix) for k, key, it, ix in own.items] == [want], "array-notification", "array {} notified {} instead of {}", path, own.items, want)
            if path and isinstance(path[-1], str):
                holder = next(w for w in watches if w.path == path[:-1])
                expect([(k, key, it, ix) for k, key, it, ix in holder.items] == [(want[0], path[-1], want[1], want[2])], "record-array-notification", "record {} notified {} instead of {} of {}", path[:-1], holder.items, want, path[-1])
        elif kind == "load":
            before = self.model.to_dict_value()
            watches = self.watch(self.removed)
            if op[1] == "self":
                self.model.copy_from(self.model)
                same = True
            else:
                if op[1] == "same":
                    value = copy.deepcopy(before)
                else:
                    value = st.gen_value(random.Random(op[2]), self.s, 0.0)
                self.model.from_dict_value(value)
                same = self.model.to_dict_value() == before
            self.finish(watches, ("load", op[1], same))
            obs.count("equal_loads" if same else "loads")
            removed_in_load = False
            for w in watches:
                if w.path[:1] == ("removed",):
                    expect(w.silent(), "notified-without-change", "load: a removed item notified")
                elif op[1] != "new":
                    expect(w.silent(), "notified-without-change", "loading an equal value: {} notified", w.path)
            if not same:
                expect(watches[0].changed > 0, "model-changed-missing", "load: model_changed_event did not fire")
        elif kind == "set_removed":
            fields = [(k, m) for s0, m0 in self.removed for k, (p, s, m) in enumerate(st.nodes(s0, m0)) if st.is_basic(s)]
            if not fields:
                return
            k, m = fields[op[1] % len(fields)]
            watches = self.watch()
            m.value = ["changed", op[2]]
            self.finish(watches, ("set_removed",))
            obs.count("removed_item_changes")
            for w in watches:
                expect(w.silent(), "removed-item-notifies", "change of a removed item: {} notified", w.path)

    def close_part(self, bits):
        """close a record or array: it must not notify changes below it any more"""
        rng = random.Random(bits)
        containers = [(p, s, m) for p, s, m in st.nodes(self.s, self.model) if not st.is_basic(s)]
        path, s, m = containers[rng.randrange(len(containers))]
        below = [(p, s2, m2) for p, s2, m2 in st.nodes(self.s, self.model) if len(p) > len(path) and p[:len(path)] == path]
        watches = self.watch()
        m.close()
        for w in watches:
            expect(w.silent(), "notified-without-change", "closing {}: {} notified", path, w.path)
        for p, s2, m2 in below:
            if st.is_basic(s2):
                m2.value = "after close"
            elif s2[0] == "array":
                m2.append_item(st.new_item(s2[1], {} if not st.is_basic(s2[1]) and s2[1][0] == "record" else [] if not st.is_basic(s2[1]) else "x"))
        for w in watches:
            w.close()
        anc = self.ancestors(path)
        for w in watches:
            if w.path in anc:
                expect(w.silent(), "notifies-after-close", "{} notified a change below closed {}", w.path, path)
                self.obs.count("closed_node_changes", len(below))


def execute(case, obs):
    r = Runner(case, obs)
    for op in case["ops"]:
        r.step(op)
        obs.state(repr(case["schema"]), repr(r.model.to_dict_value()))
    r.close_part(case["close"])
    obs.nontrivial = r.fired > 0


FAMILIES = [Family("notifications", gen, execute, 43000, 172000)]
