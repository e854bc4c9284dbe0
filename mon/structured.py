"""Schemas, values and navigation of structured models, shared by C16 and C17."""
import copy

from nion.utils import StructuredModel as S

BASIC = {"string": S.define_string, "boolean": S.define_boolean, "int": S.define_int, "double": S.define_float, "float": lambda: "float"}


def gen_schema(rng, depth):
    """JSON-able description: basic name | ["record", [[name, schema, default], ...]] | ["array", schema]"""
    r = rng.random()
    if depth <= 0 or r < 0.35:
        return rng.choice(sorted(BASIC)) if rng.random() < 0.9 else ["typed", rng.choice(sorted(BASIC))]
    if r < 0.7:
        return gen_record(rng, depth)
    return ["array", gen_schema(rng, depth - 1)]


def gen_record(rng, depth):
    fields = []
    for i in range(rng.randint(1, 4) if rng.random() < 0.97 else rng.randint(5, 12)):
        s = gen_schema(rng, depth - 1)
        default = gen_value(rng, s, 0.3) if rng.random() < 0.4 else None
        fields.append([rng.choice(["f%d", "f%d", "f%d", "f%d_model", "_f%d"]) % i, s, default])
    return ["record", fields]


def gen_basic(rng, name):
    if name == "string":
        return rng.choice(["", "a", "b", "text"])
    if name == "boolean":
        return rng.random() < 0.5
    if name == "int":
        return rng.choice([0, 1, 2, rng.randint(-99, 99)])
    return rng.choice([0.0, 0.5, 1.5, rng.randint(-8, 8) / 4])


def gen_value(rng, s, p_missing):
    """A value for the schema; fields of records are left out with the given probability."""
    if isinstance(s, str):
        return gen_basic(rng, s)
    if s[0] == "typed":
        return gen_basic(rng, s[1])
    if s[0] == "record":
        return {n: gen_value(rng, fs, p_missing) for n, fs, d in s[1] if rng.random() >= p_missing}
    return [gen_value(rng, s[1], p_missing) for _ in range(rng.choice([0, 1, 2, 2, 3]) if rng.random() < 0.97 else rng.randint(4, 30 if is_basic(s[1]) else 8))]


def to_schema(s):
    if isinstance(s, str):
        return BASIC[s]()
    if s[0] == "typed":
        return {"type": BASIC[s[1]]()}
    if s[0] == "record":
        return S.define_record("R", [S.define_field(n, to_schema(fs), default=copy.deepcopy(d)) for n, fs, d in s[1]])
    return S.define_array(to_schema(s[1]))


def is_basic(s):
    return isinstance(s, str) or s[0] == "typed"


def expected(s, default, value):
    """The dict value of a model, from the meaning of schemas."""
    if is_basic(s):
        return value if value is not None else default
    if s[0] == "record":
        values = dict(default or {})
        values.update(value or {})
        d = {}
        for n, fs, fd in s[1]:
            v = expected(fs, fd, values.get(n))
            if v is not None:
                d[n] = v
        return d
    value = value if value is not None else default
    return [expected(s[1], None, v) for v in (value or [])]


def complete(s, value):
    """Whether every field has a value."""
    if is_basic(s):
        return value is not None
    if s[0] == "record":
        return all(n in value and complete(fs, value[n]) for n, fs, d in s[1])
    return all(complete(s[1], v) for v in value)


def nodes(s, model, path=()):
    """All (path, schema, model) below and including a model: fields, records, arrays (basic array items are not models)."""
    out = [(path, s, model)]
    if not is_basic(s):
        if s[0] == "record":
            for n, fs, d in s[1]:
                out.extend(nodes(fs, getattr(model, n + "_model"), path + (n,)))
        elif not is_basic(s[1]):
            for i, item in enumerate(model.items):
                out.extend(nodes(s[1], item, path + (i,)))
    return out


def default_of(s, path):
    """A default which may apply to the field at the path (its own or one of a record around it), None if there is none."""
    found = None
    for p in path:
        if isinstance(p, str):
            _, s, d = next(f for f in s[1] if f[0] == p)
            found = d if d is not None else found
        else:
            s, found = s[1], None
    return found


def new_item(s, value):
    """An item to insert into an array of such items."""
    return copy.deepcopy(value) if is_basic(s) else S.build_model(to_schema(s), value=copy.deepcopy(value))
