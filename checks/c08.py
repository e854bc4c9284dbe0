"""C08: filters against the boolean formula they spell out, and their deep copies."""
import copy
import datetime
import operator

from mon.core import Family, expect
from nion.utils import ListModel

PROPERTY = "C08"
RULE = "random filter expressions (all filter classes, nested up to depth 4) with up to 12 operands, evaluated on random items (attributes of any type, texts with white space and special characters), original, deep copy and copy of a copy; non-trivial: the filter matched some and rejected some of the items"
ASSUMPTIONS = ["text is lower-cased by str.lower"]
MUST_OBSERVE = ("matched", "rejected", "copied")

WORDS = ["", "a", "ab", "AB", "Abc", "bca", "b", "C", "é", "ÉA", "1", "2020", "x y", " a", "b ", "\n", "a\tb", "a.c", "a*", "Straße", "ДА", "да", "None", "%s", "\\", "ab" * 40]
# None is not 0 is not False; things without order
ODD = [None, 0, False, "", (), [1, 2], 1.5, True, "None", {"a": 1}, -1, b"a"]


def word(rng):
    if rng.random() < 0.7:
        return rng.choice(WORDS)
    return "".join(rng.choice("aAbBéÉ \n.1") for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 12])))


def part(rng, w):
    """Some text which is often in the given words."""
    if rng.random() < 0.5 or not w:
        return word(rng)
    t = rng.choice(w)
    i = rng.choice([0, 0, rng.randint(0, len(t))])
    t = t[i:i + rng.randint(0, len(t))]
    return rng.choice([t, t, t.upper() if "ß" not in t else t, t + " ", t[::-1]])


CMPS = {"eq": None, "ne": operator.ne, "gt": operator.gt, "le": operator.le, "mod": lambda a, b: a % 2 == b % 2}


def gen_filter(rng, depth, w=()):
    kinds = ["default", "eq", "neq", "starts", "text", "date", "pred"]
    if depth > 0:
        kinds += ["and", "or", "not"] * 3
    k = rng.choice(kinds)
    if k == "default":
        return [k, rng.random() < 0.5]
    if k in ("eq", "neq"):
        if rng.random() < 0.3:
            return [k, "s", part(rng, w), "eq"]
        if rng.random() < 0.3:
            return [k, "o", rng.randrange(len(ODD)), "eq"]
        return [k, "a", rng.randrange(4), rng.choice(sorted(CMPS))]
    if k in ("starts",):
        return [k, "s", part(rng, w)]
    if k == "text":
        return [k, rng.choice(["s", "s", "a", "d", "o"]), part(rng, w)]
    if k == "date":
        return [k, rng.choice([None, 2019, 2020]), rng.choice([None, None, 1, 2, 12]), rng.choice([None, None, 1, 2, 31])]
    if k == "pred":
        return [k, rng.randrange(3)]
    if k == "not":
        return [k, gen_filter(rng, depth - 1, w)]
    return [k, [gen_filter(rng, depth - 1, w) for _ in range(rng.randint(0, 3) if rng.random() < 0.9 else rng.randint(4, 12))]]


def gen(rng):
    items = [[rng.randrange(4), word(rng), rng.choice([2019, 2020, 2021]), rng.choice([1, 1, 2, 2, 3, 12]), rng.choice([1, 1, 2, 2, 3, 31, 31]), rng.randrange(len(ODD)), rng.random() < 0.2] for _ in range(8)]
    for i in items:
        if i[3] == 2 and i[4] == 31:
            i[4] = 28
    return {"filter": gen_filter(rng, rng.randint(0, 4), [i[1] for i in items]), "items": items}


def build(f, passed):
    k = f[0]
    if k == "default":
        return ListModel.Filter(f[1]) if f[1] or passed is None else ListModel.Filter()
    if k in ("eq", "neq"):
        cls = ListModel.EqFilter if k == "eq" else ListModel.NotEqFilter
        if f[1] == "o":
            return cls("o", ODD[f[2]])
        return cls(f[1], f[2], cmp=CMPS[f[3]]) if f[3] != "eq" else cls(f[1], f[2])
    if k == "starts":
        return ListModel.StartsWithFilter(f[1], f[2])
    if k == "text":
        return ListModel.TextFilter(f[1], f[2])
    if k == "date":
        return ListModel.PartialDateFilter("d", f[1], f[2], f[3])
    if k == "pred":
        return ListModel.PredicateFilter((lambda n: lambda x: x.a >= n)(f[1]))
    if k == "not":
        return ListModel.NotFilter(build(f[1], passed))
    l = [build(g, passed) for g in f[1]]
    passed.append(l)
    return (ListModel.AndFilter if k == "and" else ListModel.OrFilter)(l)


def evaluate(f, x):
    k = f[0]
    if k == "default":
        return f[1]
    if k in ("eq", "neq"):
        if f[1] == "o":
            return (x.o == ODD[f[2]]) == (k == "eq")
        r = bool((CMPS[f[3]] or operator.eq)(getattr(x, f[1]), f[2]))
        return r if k == "eq" else not r
    if k == "starts":
        return x.s[:len(f[2])] == f[2]
    if k == "text":
        return f[2].lower() in str(getattr(x, f[1])).lower()
    if k == "date":
        return (not f[1] or x.d.year == f[1]) and (not f[2] or x.d.month == f[2]) and (not f[3] or x.d.day == f[3])
    if k == "pred":
        return x.a >= f[1]
    if k == "not":
        return not evaluate(f[1], x)
    if k == "and":
        for g in f[1]:
            if not evaluate(g, x):
                return False
        return True
    for g in f[1]:
        if evaluate(g, x):
            return True
    return False


class X:
    def __init__(self, a, s, y, m, d, o, whole):
        self.a, self.s, self.o = a, s, ODD[o]
        self.d = datetime.date(y, m, d) if whole else datetime.datetime(y, m, d, 10, 20)

    def __repr__(self):
        return f"({self.a} {self.s!r} {self.d:%Y-%m-%d} {self.o!r})"


def execute(case, obs):
    items = [X(*i) for i in case["items"]]
    passed = []
    f = build(case["filter"], passed)
    copies = [f, copy.deepcopy(f)]
    copies.append(copy.deepcopy(copies[1]))
    both = copy.deepcopy([f, {"x": f}])
    copies.append(both[1]["x"])
    obs.count("copied", 3)
    for round_ in range(2):
        for which, g in zip(["original", "deep copy", "copy of copy", "copy in container"], copies):
            for x in items:
                want = evaluate(case["filter"], x)
                got = bool(g.matches(x))
                obs.count("matched" if want else "rejected")
                expect(got == want, "filter-mismatch-" + ("original" if which == "original" else "copy"), "{} of {} on {}: {}", which, case["filter"], x, got)
        # the caller's list is its own
        for l in passed:
            l.append(ListModel.Filter(False))
            l.insert(0, ListModel.NotFilter(ListModel.Filter(False)))
        passed = []
    ms = [evaluate(case["filter"], x) for x in items]
    obs.ev(repr(case["filter"]), tuple(ms))
    obs.nontrivial = any(ms) and not all(ms)


FAMILIES = [Family("expressions", gen, execute, 480000, 1920000)]
