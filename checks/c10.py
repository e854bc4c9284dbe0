"""C10: bindings against a model of source and target; validator."""
from mon.core import Family, expect
from nion.utils import Binding, Converter, ListModel, Observable, Validator

PROPERTY = "C10"
RULE = ("random histories of source changes, other changes, bare notifications, target updates and close for every binding type with converter / validator / fallback options and several bindings on one source; "
        "every call of the target setter and the complete source are compared with a model; non-trivial: at least two target or source updates")
ASSUMPTIONS = ["the source notifies each assignment", "update_source is not called on an attribute binding whose property is None"]
MUST_OBSERVE = ("target_sets", "fallbacks", "source_updates", "closed_changes", "validated", "list_changes", "other_changes", "fallback_changes")


class Thing:
    """Value of the property for attribute bindings."""
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, other):
        return isinstance(other, Thing) and self.__dict__ == other.__dict__

    def __bool__(self):
        return bool(self.__dict__.get("b"))  # false objects are values too

    def __repr__(self):
        return f"Thing({self.__dict__})"


class Source(Observable.Observable):
    def __init__(self):
        super().__init__()
        self._d = {"p": None, "q": None}

    def _make(name):
        def get(self):
            return self._d[name]

        def set(self, value):
            self._d[name] = value
            self.notify_property_changed(name)
        return property(get, set)
    p = _make("p")
    q = _make("q")


class Plus:
    """Converter with distinguishable results."""
    def convert(self, value):
        return ("t", value)

    def convert_back(self, value):
        return value[1]


class Odd:
    """Validator which changes values."""
    def validate(self, value):
        return value | 1 if isinstance(value, int) else value


def gen_value(rng, kind):
    if rng.random() < 0.15:
        return None
    if kind == "property":
        return rng.randint(-6, 12)
    if kind == "tuple":
        return [rng.choice([None, 0, 1, 2, 3, 4]) for _ in range(rng.randint(0, 4) if rng.random() < 0.8 else rng.randint(5, 14))]
    return {n: rng.choice([None, 0, 5, 6]) for n in "abc" if rng.random() < 0.7}


def gen(rng):
    kind = rng.choice(["property", "property", "tuple", "attribute"])
    bindings = []
    for _ in range(rng.randint(1, 3)):
        bindings.append({"prop": rng.choice(["p", "p", "q"]), "converter": rng.choice([None, "plus", "int"]), "validator": rng.choice([None, "range", "odd", "min"]) if kind == "property" else None,
                         "fallback": rng.choice([None, "fb", 0]), "index": rng.randrange(4) if rng.random() < 0.8 else rng.randrange(4, 12), "attr": rng.choice("abc"), "update_fn": rng.random() < 0.4, "no_target": rng.random() < 0.1})
    ops = []
    for _ in range(rng.randint(3, 20)):
        r = rng.random()
        if r < 0.45:
            ops.append(["source", rng.choice("ppq"), gen_value(rng, kind)])
        elif r < 0.55:
            ops.append(["notify", rng.choice(["p", "q", "other", "value"])])
        elif r < 0.88:
            ops.append(["target", rng.randrange(3), rng.randint(-20, 20)])
        elif r < 0.93:
            ops.append(["get", rng.randrange(3)])
        elif r < 0.96:
            ops.append(["fallback", rng.randrange(3), rng.choice([None, "fb2", 0, False])])
        else:
            ops.append(["close", rng.randrange(3)])
    return {"kind": kind, "bindings": bindings, "init": [gen_value(rng, kind), gen_value(rng, kind)], "ops": ops}


def to_value(kind, v):
    if v is None:
        return None
    return tuple(v) if kind == "tuple" else Thing(**v) if kind == "attribute" else v


def make_validator(name):
    return {None: None, "range": Validator.IntegerRangeValidator(-3, 5), "odd": Odd(), "min": Validator.IntegerRangeValidator(mn=0)}[name]


def validated(name, v):
    if name == "range":
        return -3 if v < -3 else 5 if v > 5 else v
    if name == "min":
        return 0 if v < 0 else v
    if name == "odd":
        return v | 1
    return v


class B:
    def __init__(self, spec, kind, source, n):
        self.spec, self.kind, self.n = spec, kind, n
        self.calls = []
        self.closed = False
        self.fallback = spec["fallback"]
        conv = {None: None, "plus": Plus(), "int": Converter.IntegerToStringConverter()}[spec["converter"]]
        if kind == "property":
            b = Binding.PropertyBinding(source, spec["prop"], converter=conv, validator=make_validator(spec["validator"]), fallback=spec["fallback"])
        elif kind == "tuple":
            b = Binding.TuplePropertyBinding(source, spec["prop"], spec["index"], converter=conv, fallback=spec["fallback"])
        else:
            def update(value, name, v):
                d = dict(value.__dict__)
                d[name] = v
                return Thing(**d)
            b = Binding.PropertyAttributeBinding(source, spec["prop"], spec["attr"], converter=conv, fallback=spec["fallback"], update_attribute_fn=update if spec["update_fn"] else None)
        self.b = b
        if not spec["no_target"]:
            b.target_setter = self.calls.append

    def element(self, value):
        """The bound part of the value of the property, None if missing."""
        if value is None or self.kind == "property":
            return value
        if self.kind == "tuple":
            return value[self.spec["index"]] if self.spec["index"] < len(value) else None
        return value.__dict__.get(self.spec["attr"])

    def expected(self, value):
        e = self.element(value)
        if e is None:
            return self.fallback
        return {None: e, "plus": ("t", e), "int": str(e)}[self.spec["converter"]]

    def target_value(self, v):
        return {None: v, "plus": ("t", v), "int": str(v)}[self.spec["converter"]]

    def updated(self, value, v):
        """Value of the property after the target was set to v; None, False if not allowed."""
        v = validated(self.spec["validator"], v)
        if self.kind == "property":
            return v
        if self.kind == "tuple":
            l = list(value) if value is not None else []
            while len(l) <= self.spec["index"]:
                l.append(None)
            l[self.spec["index"]] = v
            return tuple(l)
        d = dict(value.__dict__)
        d[self.spec["attr"]] = v
        return Thing(**d)


def same(a, b):
    return type(a) == type(b) and a == b


def execute(case, obs):
    kind = case["kind"]
    source = Source()
    source._d["p"], source._d["q"] = (to_value(kind, v) for v in case["init"])
    model = {"p": to_value(kind, case["init"][0]), "q": to_value(kind, case["init"][1])}
    bs = [B(spec, kind, source, n) for n, spec in enumerate(case["bindings"])]

    def check(op, notified):
        for name in "pq":
            expect(same(source._d[name], model[name]), "source-differs", "after {}: {} is {}, expected {}", op, name, source._d[name], model[name])
        for b in bs:
            if b.closed:
                obs.count("closed_changes")
                expect(not b.calls, "closed-binding-acts", "after {}: target set to {}", op, b.calls)
                continue
            want = b.expected(model[b.spec["prop"]])
            if b.spec["no_target"]:
                pass
            elif b.spec["prop"] in notified:
                obs.count("target_sets")
                if b.element(model[b.spec["prop"]]) is None:
                    obs.count("fallbacks")
                expect(b.calls, "target-not-set", "after {}: target of {} not set", op, b.spec)
                for c in b.calls:
                    expect(same(c, want), "wrong-target-value", "after {}: target of {} set to {!r}, expected {!r}", op, b.spec, c, want)
            else:
                obs.count("other_changes")
                expect(not b.calls, "target-set-needlessly", "after {}: target of {} set to {}", op, b.spec, b.calls)
            got = b.b.get_target_value()
            expect(same(got, want), "get-target-value", "after {}: {} gives {!r}, expected {!r}", op, b.spec, got, want)
            expect(b.b.source is source, "binding-source", "{}", op)
        obs.ev(op[0], tuple(len(b.calls) for b in bs))
        for b in bs:
            del b.calls[:]

    check(["init"], ())
    for op in case["ops"]:
        if op[0] == "source":
            v = to_value(kind, op[2])
            model[op[1]] = to_value(kind, op[2])
            setattr(source, op[1], v)
            check(op, (op[1],))
        elif op[0] == "notify":
            source.notify_property_changed(op[1])
            check(op, (op[1],))
        elif op[0] == "target":
            b = bs[op[1] % len(bs)]
            name = b.spec["prop"]
            if kind == "attribute" and model[name] is None:
                continue
            if b.closed:
                b.b.update_source(b.target_value(op[2]))
                check(op, ())
            else:
                obs.count("source_updates")
                if b.spec["validator"]:
                    obs.count("validated")
                model[name] = b.updated(model[name], op[2])
                b.b.update_source(b.target_value(op[2]))
                check(op, (name,))
        elif op[0] == "fallback":
            b = bs[op[1] % len(bs)]
            b.b.fallback = b.fallback = op[2]
            obs.count("fallback_changes")
            check(op, ())
        elif op[0] == "close":
            b = bs[op[1] % len(bs)]
            if not b.closed:
                b.closed = True
                b.b.close()
                check(op, ())
        else:
            check(op, ())
        obs.state(repr(model), tuple(b.closed for b in bs))
    obs.nontrivial = obs.counters["target_sets"] + obs.counters["source_updates"] >= 2


def gen_list(rng):
    return {"ops": [[rng.choice(["insert", "insert", "remove", "other", "close"] if rng.random() < 0.3 else ["insert", "insert", "remove", "other"]), rng.randrange(8), rng.randrange(100)] for _ in range(rng.randint(3, 20))],
            "key": rng.choice([None, "stuff"]), "pre": rng.randrange(4)}


def execute_list(case, obs):
    m = ListModel.ListModel(case["key"], list(range(case["pre"]))) if case["key"] else ListModel.ListModel(items=list(range(case["pre"])))
    key = case["key"] or "items"
    b = Binding.ListBinding(m, key)
    other = Binding.ListBinding(m, "unrelated")
    got = []
    other.inserter = lambda *a: got.append("other")
    other.remover = lambda *a: got.append("other")
    b.inserter = lambda item, index: got.append(("i", item, index))
    b.remover = lambda index: got.append(("r", index))
    closed = False
    for op, index, value in case["ops"]:
        del got[:]
        want = []
        if op == "insert":
            i = index % (len(m.items) + 1)
            m.insert_item(i, value)
            want = [("i", value, i)]
        elif op == "remove":
            if not m.items:
                continue
            i = index % len(m.items)
            m.remove_item(i)
            want = [("r", i)]
        elif op == "other":
            m.notify_insert_item("something", value, index)
            m.notify_remove_item("something", value, index)
        elif not closed:
            b.close()
            closed = True
        if closed:
            want = []
        obs.count("list_changes")
        obs.ev(op, tuple(got))
        expect(got == want, "list-binding", "{}: calls {}, expected {}", op, got, want)
        if not closed:
            expect(list(b.items) == list(m.items), "list-binding-items", "{} {}", b.items, m.items)


def gen_validator(rng):
    r = lambda: rng.choice([None, rng.randint(-10, 10), rng.randint(-2**70, 2**70)])
    mn, mx = r(), r()
    if mn is not None and mx is not None and mn > mx:
        mn, mx = mx, mn
    return {"mn": mn, "mx": mx, "values": [rng.randint(-12, 12) for _ in range(6)] + [rng.randint(-2**71, 2**71)] + [x + d for x in (mn, mx) if x is not None for d in (-1, 0, 1)]}


def execute_validator(case, obs):
    v = Validator.IntegerRangeValidator(case["mn"], case["mx"])
    for x in case["values"]:
        want = x
        if case["mn"] is not None and want < case["mn"]:
            want = case["mn"]
        if case["mx"] is not None and want > case["mx"]:
            want = case["mx"]
        got = v.validate(x)
        obs.ev(x, got)
        expect(got == want, "validator", "[{}, {}]: {} gives {}", case["mn"], case["mx"], x, got)


FAMILIES = [
    Family("bindings", gen, execute, 120000, 480000, min_events=2),
    Family("lists", gen_list, execute_list, 24000, 96000),
    Family("validator", gen_validator, execute_validator, 16000, 64000),
]
