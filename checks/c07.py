"""C07: indexed selection against a model of its operations."""
from mon.core import Family, expect
from nion.utils import Selection

PROPERTY = "C07"
RULE = ("random sequences of all operations on small index ranges, sometimes far from 0 or hundreds wide, for each of the four styles (and style changes), each call compared with a reference model of set, anchor and notifications; "
        "non-trivial: at least two different selections observed")
ASSUMPTIONS = ["which selected index becomes anchor after set_multiple or after removal of the anchor is not specified", "remove is only called for selected indexes", "insert_index and remove_index need not notify"]
MUST_OBSERVE = ("changes", "no_changes", "anchor_removed", "extends", "shifted", "free_anchors")

STYLES = [Selection.Style.none, Selection.Style.single, Selection.Style.single_or_none, Selection.Style.multiple]
N = 7


def gen(rng):
    ops = []
    r = rng.random()
    if r < 0.9:
        at = lambda: rng.randrange(N)
        wide = 3
    elif r < 0.95:  # far from 0
        offset = rng.choice([100, 253, 254, 300, 1000, 65533, 2 ** 31 - 3, 2 ** 63 - 3])
        at = lambda: offset + rng.randrange(N)
        wide = 3
    else:  # many indexes
        n = rng.choice([30, 80, 400])
        at = lambda: rng.randrange(n)
        wide = n
    style = rng.choice([0, 1, 2, 3, 3, 3, 3])
    for _ in range(rng.randint(3, 40)):
        op = rng.choice(["set", "set_multiple", "add", "add", "add_range", "remove", "remove", "toggle", "extend", "extend", "clear", "insert_index", "remove_index", "anchor"])
        if op == "set_multiple":
            ops.append([op, sorted({at() for _ in range(rng.randint(0, 4 if wide == 3 or rng.random() < 0.5 else wide))})])
        elif op == "add_range":
            a = at()
            ops.append([op, a, a + rng.randint(0, wide)])
        elif op == "clear":
            ops.append([op])
        else:
            ops.append([op, at()])
    return {"style": style, "free": style == 3 and rng.random() < 0.3, "ops": ops}


class Model:
    def __init__(self, style):
        self.style, self.s, self.a = style, set(), None

    # each returns (list of possible number of fires); anchor may be set to ANY

    def _to(self, s, a):
        changed = s != self.s
        self.s, self.a = set(s), a
        return 1 if changed else 0

    def clear(self):
        return self._to({0}, 0) if self.style == "single" else self._to(set(), None)

    def set(self, i):
        return self.clear() if self.style == "none" else self._to({i}, i)

    def add(self, i):
        if self.style == "none":
            return self.clear()
        if self.style != "multiple":
            return self.set(i)
        return self._to(self.s | {i}, self.a if self.s else i)

    def set_multiple(self, indexes):
        if self.style == "multiple":
            return self._to(set(indexes), ANY if indexes else None)
        if self.style in ("single", "single_or_none") and len(indexes) == 1:
            return self.set(list(indexes)[0])
        return self.clear()

    def remove(self, i):
        if self.style == "single":
            return 0
        if self.style == "none":
            return self.clear()
        s = self.s - {i}
        return self._to(s, self.a if self.a in s else (ANY if s else None))

    def toggle(self, i):
        return self.remove(i) if i in self.s else self.add(i)

    def extend(self, i):
        if self.style == "none":
            return self.clear()
        if self.style != "multiple":
            return self.set(i)
        if self.a is None:
            return self._to(self.s | {i}, i)
        return self._to(self.s | set(range(min(i, self.a), max(i, self.a) + 1)), self.a)

    def insert_index(self, n):
        self.s = {i if i < n else i + 1 for i in self.s}
        if self.a is not None and self.a >= n:
            self.a += 1

    def remove_index(self, n):
        s = {i if i < n else i - 1 for i in self.s if i != n}
        a = self.a
        if a is not None:
            a = (ANY if s else None) if a == n else (a if a < n else a - 1)
        self.s, self.a = s, a


ANY = "any"


def near(indexes):
    if len(indexes) > 20:
        indexes = {min(indexes), max(indexes)} | set(sorted(indexes)[::len(indexes) // 8])
    return set(range(-1, N + 3)) | {i + d for i in indexes for d in (-1, 0, 1)}


def verify(sel, m, op, free=False):
    got = set(sel.indexes)
    expect(got == m.s, "wrong-selection", "{} {} gives {}, expected {}", m.style, op, sorted(got), sorted(m.s))
    a = sel.anchor_index
    if m.a is ANY:
        expect(a in got, "anchor-not-selected", "{} {}: anchor {} not in {}", m.style, op, a, sorted(got))
        m.a = a
    expect(a == m.a, "wrong-anchor", "{} {}: anchor {}, expected {}", m.style, op, a, m.a)
    if got and not free:  # unless the anchor has been set to something else
        expect(a in got, "anchor-not-selected", "{} {}: anchor {} not in {}", m.style, op, a, sorted(got))
    if m.style in ("single", "single_or_none"):
        expect(len(got) <= 1, "too-many-selected", "{} {}: {}", m.style, op, sorted(got))
    if m.style == "none":
        expect(not got, "too-many-selected", "{} {}: {}", m.style, op, sorted(got))
    ordered = list(sel.ordered_indexes)
    want = ([a] if a in got else []) + [i for i in sorted(got) if i != a]
    expect(ordered == want, "wrong-order", "{}: ordered {} expected {}", op, ordered, want)
    expect(bool(sel.has_selection) == bool(got), "has-selection", "{}", op)
    expect(all(bool(sel.contains(i)) == (i in got) for i in near(got)), "contains", "{}", op)
    cur = sel.current_index
    expect(cur == (next(iter(got)) if len(got) == 1 else None), "current-index", "{}: {} of {}", op, cur, sorted(got))


def equality(sel, m, style, obs):
    """Equal to another selection exactly if the indexes and the anchor are."""
    def another(s, a):
        other = Selection.IndexedSelection(style)
        if s:
            other.set_multiple(set(s))
        other.anchor_index = a
        return other
    same = another(m.s, m.a)
    expect(sel == same and same == sel and not sel != same and sel == sel, "equality", "selections of {} with anchor {} differ", m.s, m.a)
    for style_ in Selection.Style:  # whatever the style
        other = Selection.IndexedSelection(style_)
        if m.s:
            other.set_multiple(set(m.s))
        other.anchor_index = m.a
        if style_ != style and set(other.indexes) == m.s:
            obs.count("equal_across_styles")
            expect(sel == other and other == sel and not sel != other, "equality", "selections of {} with anchor {} of different styles differ", m.s, m.a)
    others = [(m.s, (m.a or 0) + 1)]
    if m.style == "multiple":
        others += [(m.s ^ {0}, m.a), (m.s | {max(m.s, default=0) + 1}, m.a)]
    elif m.style != "none" and m.s:
        others += [({i + 1 for i in m.s}, m.a)]
    for s, a in others:
        other = another(s, a)
        if set(other.indexes) != s:
            continue
        expect(not sel == other and sel != other and not other == sel, "inequality", "selections {} with anchor {} and {} with anchor {} are equal", m.s, m.a, s, a)
        obs.count("unequal")
    for other in (None, set(m.s), 0):
        expect(not sel == other and sel != other, "inequality-other", "selection equals {}", other)


def execute(case, obs):
    style = STYLES[case["style"]]
    sel = Selection.IndexedSelection(style) if style != Selection.Style.multiple else Selection.IndexedSelection()
    m = Model(style.name)
    fired = []
    token = sel.changed_event.listen(lambda: fired.append(set(sel.indexes)))
    verify(sel, m, "new")
    seen = set()
    free = case["free"]
    for op in case["ops"]:
        name, args = op[0], op[1:]
        del fired[:]
        if name == "remove" and args[0] not in m.s:
            continue
        if name == "anchor":
            if args[0] in m.s or free:
                obs.count("free_anchors", args[0] not in m.s)
                sel.anchor_index = args[0]
                m.a = args[0]
                expect(not fired, "fired-without-change", "{}", op)
                verify(sel, m, op, free)
            continue
        if name == "extend" and args[0] == m.a and m.a not in m.s:
            continue  # not specified
        if name in ("remove", "remove_index") and args[0] == m.a:
            obs.count("anchor_removed")
        if name in ("insert_index", "remove_index"):
            getattr(sel, name)(*args)
            getattr(m, name)(*args)
            obs.count("shifted")
            verify(sel, m, op, free)
            continue
        if name == "extend":
            obs.count("extends")
        if name == "add_range":
            sel.add_range(range(*args))
            fires = sum(m.add(i) for i in range(*args))
        elif name == "set_multiple":
            given = set(args[0])
            sel.set_multiple(given)
            given.symmetric_difference_update({0, 1, N, max(given, default=0) + 1})  # the caller's set is the caller's
            fires = m.set_multiple(set(args[0]))
        else:
            getattr(sel, name)(*args)
            fires = getattr(m, name)(*args)
        obs.ev(name, tuple(sorted(sel.indexes)), sel.anchor_index, len(fired))
        obs.count("changes" if fires else "no_changes")
        verify(sel, m, op, free)
        if len(fired) != fires:
            expect(False, "missed-notification" if len(fired) < fires else "extra-notification", "{} {}: changed_event fired {} times, expected {}", m.style, op, len(fired), fires)
        if fired:
            expect(fired[-1] == m.s, "stale-notification", "{}: listener saw {}, selection is {}", op, fired[-1], m.s)
        seen.add(frozenset(m.s))
        obs.state(m.style, tuple(sorted(m.s)), m.a)
    equality(sel, m, style, obs)
    obs.nontrivial = len(seen) > 1 or m.style == "none"


FAMILIES = [Family("sequences", gen, execute, 180000, 800000, min_events=2)]
