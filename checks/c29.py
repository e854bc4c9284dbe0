"""C29: list models used by several threads."""
from mon import sched

sched.install()

from mon.core import Family, expect
from nion.utils import Event, ListModel

PROPERTY = "C29"
RULE = ("one thread edits the source (or, for flattened lists, each thread the children of a group of its own) while others set filter and sort, make groups of changes with item changes in them, announce items as changed, and read the lists, "
        "under a deterministic scheduler (random and priority based, switching at locks and at opcodes or lines of the code) and on free running threads; at the end the contents are compared with a recomputation, all notifications are replayed and every reading must be one of the "
        "contents replayed; non-trivial: at least two threads and three notifications")
ASSUMPTIONS = ["the source list itself is edited by one thread at a time", "items change within groups of changes of the list which filters them", "listeners do not wait for other threads"]
MUST_OBSERVE = ("notifications", "reads", "reads_in_between", "scheduled_runs", "native_runs", "groups", "overlapping_groups", "filters_set", "sorts_set", "T_F", "T_FM", "T_FF", "T_X", "T_M", "touched")

FILTERS = [lambda x: True, lambda x: x.v > 0, lambda x: x.v == 1, lambda x: (x.v + x.k) % 2 == 0, lambda x: False]
SORTS = [None, lambda x: x.k, lambda x: (x.v, x.n), lambda x: -x.n]


class Item:
    def __init__(self, n):
        self.n, self.v, self.k = n, n % 3, (n * 7) % 4
        self.item_changed_event = Event.Event()

    def __repr__(self):
        return f"i{self.n}"


class Group(ListModel.ListModel):
    def __init__(self, n):
        super().__init__("children")
        self.n = n


def gen_side(rng, template, n):
    ops = []
    for _ in range(n):
        node = rng.randrange(2)
        r = rng.random()
        if r < 0.3:
            ops.append(["filter", node, rng.randrange(len(FILTERS))])
        elif r < 0.45:
            ops.append(["sort", node, rng.randrange(len(SORTS))])
        elif r < 0.55:
            ops.append(["reverse", node, rng.random() < 0.5])
        elif r < 0.8:
            ops.append(["group", node, [[rng.randrange(8), rng.randrange(3), rng.randrange(3)] for _ in range(rng.randint(0, 2))]])
        elif r < 0.86:
            ops.append(["mark", node])
        elif r < 0.92:
            ops.append(["touch", rng.randrange(8)])
        else:
            ops.append(["read", rng.randrange(2)])
    return ops


def gen(rng, native=False):
    template = rng.choice(["F", "F", "F", "FM", "FF", "X", "X", "M"])
    n = 4 if not native else 25
    if template == "X":
        threads = [[["edit", rng.random() < 0.65, rng.randrange(9), rng.randrange(4)] for _ in range(rng.randint(1, n))] for _ in range(rng.randint(2, 3))]
        if rng.random() < 0.5:
            threads.append([["master", rng.random() < 0.6, rng.randrange(9)] for _ in range(rng.randint(1, 3))])
    else:
        threads = [[["edit", rng.random() < 0.65, rng.randrange(9), rng.randrange(8)] for _ in range(rng.randint(1, n))]]
        threads += [gen_side(rng, template, rng.randint(1, n)) for _ in range(rng.randint(1, 2))]
        if template == "M":
            threads = threads[:1] + [[op for op in ops if op[0] in ("group", "mark", "read", "touch")] for ops in threads[1:]]
    if rng.random() < 0.6:
        threads.append([["read", rng.randrange(2)] for _ in range(rng.randint(1, 6))])
    return {"template": template, "prefill": [rng.randrange(8) for _ in range(rng.randint(0, 6))], "threads": threads, "seed": rng.getrandbits(40), "mode": None if native else sched.gen_mode(rng)}


def gen_native(rng):
    return gen(rng, True)


class Follower:
    """Replays the notifications of a list."""
    def __init__(self, model, key, obs):
        self.model, self.key, self.obs = model, key, obs
        self.replay = list(model.items)
        self.states = [list(self.replay)]
        self.problems = []
        self.depth = 0
        self.n = 0
        self.tokens = [model.item_inserted_event.listen(self.inserted), model.item_removed_event.listen(self.removed)]
        if hasattr(model, "begin_changes_event"):
            self.tokens += [model.begin_changes_event.listen(self.begin), model.end_changes_event.listen(self.end)]

    def inserted(self, key, value, index):
        self.n += 1
        if key != self.key or not 0 <= index <= len(self.replay):
            self.problems.append(f"insert of {value} at {index} into {self.replay}")
            return
        if any(x is value for x in self.replay):
            self.problems.append(f"insert of {value}, which is in {self.replay} already")
        self.replay.insert(index, value)
        self.states.append(list(self.replay))

    def removed(self, key, value, index):
        self.n += 1
        if key != self.key or not 0 <= index < len(self.replay) or self.replay[index] is not value:
            self.problems.append(f"removal of {value} at {index} from {self.replay}")
            return
        del self.replay[index]
        self.states.append(list(self.replay))

    def begin(self, key):
        self.depth += 1

    def end(self, key):
        self.depth -= 1
        if self.depth < 0:
            self.problems.append("end of changes without begin")


def execute(case, obs):
    template = case["template"]
    obs.count("T_" + template)
    items = [Item(n) for n in range(8)]
    source = ListModel.ListModel("stuff")
    models = []
    groups = []
    extra = []
    if template == "X":
        groups = [Group(n) for n in range(3)]
        extra = [Group(3), Group(4)]
        per_group = [[Item(100 * g + n) for n in range(4)] for g in range(5)]
        for g in groups:
            source.append_item(g)
        for i, n in enumerate(case["prefill"]):
            g = (groups + extra)[i % 5]
            it = per_group[g.n][n % 4]
            if it not in g.items:
                g.append_item(it)
        models.append(ListModel.FlattenedListModel(container=source, master_items_key="stuff", child_items_key="children", items_key="flat"))
        keys = ["flat"]
    else:
        for n in case["prefill"]:
            if items[n] not in source.items:
                source.append_item(items[n])
        keys = ["one", "two"][:len(template)]
        previous, key = source, "stuff"
        for kind, k in zip(template, keys):
            if kind == "F":
                m = ListModel.FilteredListModel(container=previous, master_items_key=key, items_key=k)
            else:
                m = ListModel.MappedListModel(container=previous, master_items_key=key, items_key=k, map_fn=lambda x: ("mapped", x))
            models.append(m)
            previous, key = m, k
    followers = [Follower(m, k, obs) for m, k in zip(models, keys)]
    reads = []
    open_groups = [0]

    filters = [ListModel.PredicateFilter(f) for f in FILTERS]

    def worker(i, ops):
        def body():
            for op in ops:
                if op[0] == "edit":
                    target = groups[i] if groups else source
                    pool = per_group[i] if groups else items
                    if op[1]:
                        it = pool[op[3] % len(pool)]
                        if it not in target.items:
                            target.insert_item(op[2] % (len(target.items) + 1), it)
                    elif target.items:
                        target.remove_item(op[2] % len(target.items))
                elif op[0] == "master":
                    g = extra[op[2] % len(extra)]  # no other thread edits the children of these
                    if g in source.items:
                        source.remove_item(source.items.index(g))
                    else:
                        source.insert_item(op[2] % (len(source.items) + 1), g)
                elif op[0] == "read":
                    k = op[1] % len(models)
                    got = models[k].items
                    reads.append((k, list(got), got))
                elif op[0] == "touch":
                    obs.count("touched")
                    items[op[1]].item_changed_event.fire()
                else:
                    k = op[1] % len(models)
                    m = models[k]
                    if op[0] == "mark":
                        m.mark_changed()
                    elif op[0] == "group":
                        obs.count("groups")
                        with m.changes():
                            open_groups[0] += 1
                            if open_groups[0] > 1:
                                obs.count("overlapping_groups")
                            for n, v, kk in op[2]:
                                if template in ("F",):
                                    items[n].v = v
                                    items[n].k = kk
                                    items[n].item_changed_event.fire()
                            open_groups[0] -= 1
                    elif template[k] == "F":
                        if op[0] == "filter":
                            m.filter = filters[op[2]]
                            obs.count("filters_set")
                        elif op[0] == "sort":
                            m.sort_key = SORTS[op[2]]
                            obs.count("sorts_set")
                        elif op[0] == "reverse":
                            m.sort_reverse = op[2]
        return body
    if not sched.run(case, [worker(i, ops) for i, ops in enumerate(case["threads"])], obs, [models, followers]):
        return
    for k, f in enumerate(followers):
        obs.count("notifications", f.n)
        obs.ev(template, k, tuple(map(repr, f.replay)), f.n)
        expect(not f.problems, "notification", "{}{}: {}", template, k, f.problems[:2])
        expect(f.depth == 0, "brackets", "{}{}: {} groups of changes begun and not ended", template, k, f.depth)
        got = list(models[k].items)
        expect(len(got) == len(f.replay) and all(a is b for a, b in zip(got, f.replay)), "replay", "{}{}: notifications give {}, list has {}", template, k, f.replay, got)
    # contents
    upstream = list(source.items)
    for k, m in enumerate(models):
        got = list(m.items)
        if template == "X":
            want = [x for g in upstream for x in g.items]
            expect(got == want, "flattened", "flattened list has {} instead of {}", got, want)
        elif template[k] == "M":
            expect([x for _, x in got] == upstream, "mapped", "mapped list has {} instead of {}", got, upstream)
        else:
            f = m.filter
            want = [x for x in upstream if f.matches(x)]
            expect(len(got) == len(want) and set(map(id, got)) == set(map(id, want)), "members", "filtered list has {} instead of {}", got, want)
            if m.sort_key is None:
                expect(got == want, "order", "filtered list has {} instead of {}", got, want)
            else:
                sk = [m.sort_key(x) for x in got]
                expect(sk == sorted(sk, reverse=m.sort_reverse), "sorted", "filtered list has {} with keys {}", got, sk)
        upstream = got
    # readings
    for k, got, held in reads:
        obs.count("reads")
        expect(list(held) == got, "reading-changed", "{}{}: the items read, {}, are {} later", template, k, got, list(held))
        states = followers[k].states
        expect(got in states, "read", "{}{}: reading gave {} which the list never had", template, k, got)
        if states[-1] != got and states[0] != got:
            obs.count("reads_in_between")
    # it goes on working
    if template != "X":
        for k, m in enumerate(models):
            if template[k] == "F":
                m.filter = filters[0]
        for it in items:
            if it not in source.items:
                source.append_item(it)
        n = len(models[-1].items)
        expect(n == len(source.items), "stuck", "{} of {} items are in the list afterwards", n, len(source.items))
    obs.nontrivial = len(case["threads"]) > 1 and obs.counters["notifications"] >= 3


FAMILIES = [Family("scheduled", gen, execute, 13000, 200000), Family("native", gen_native, execute, 120, 3000)]
