"""C16: structured model values."""
import copy

from nion.utils import StructuredModel as S

from mon import structured as st
from mon.core import Family, expect

PROPERTY = "C16"
RULE = ("random schemas of records, arrays and fields up to depth 4 with defaults and partial values; models are built, edited through attributes and the sequence interface, copied, loaded and copied into each other, and compared with a plain value "
        "interpreted from the schema; non-trivial: schema has at least two nodes")
ASSUMPTIONS = ["a field whose value is None counts as not set: it is left out of dict values, and loading leaves it as it is", "fields with a default are not set to None afterwards", "item assignment on array fields is not supported (raises)"]
MUST_OBSERVE = ("built", "edits", "sequence_ops", "loaded", "copies", "defaults_used", "nested_arrays", "build_model", "build_value", "direct", "other_attributes")

SEQ = ["append", "insert", "insert_neg", "del", "del_neg", "del_slice", "pop", "pop_at", "extend", "remove", "clear", "index", "contains", "count", "reversed", "slice"]


def gen(rng):
    s = st.gen_record(rng, rng.randint(1, 4)) if rng.random() < 0.75 else st.gen_schema(rng, 3)
    full = rng.random() < 0.5
    value = st.gen_value(rng, s, 0.0 if full else 0.3) if rng.random() < 0.9 else None
    ops = []
    for _ in range(rng.randint(1, 14)):
        r = rng.random()
        if r < 0.4:
            ops.append(["set", rng.randrange(60), rng.getrandbits(30)])
        elif r < 0.8:
            ops.append(["seq", rng.randrange(60), rng.choice(SEQ), rng.randrange(5), rng.getrandbits(30)])
        elif r < 0.9:
            ops.append(["load", rng.getrandbits(30), rng.choice(["from_dict_value", "copy_from"])])
        else:
            if rng.random() < 0.2:
                ops.append(["other", rng.randrange(60)])
            ops.append(["copy", rng.choice(["deepcopy", "build", "build_values"])])
    return {"schema": s, "value": value, "ops": ops, "how": rng.choice(["build_model", "build_model", "build_value", "direct"])}


def at(value, path):
    for p in path:
        value = value[p]
    return value


def put(value, path, v):
    if not path:
        return v
    at(value, path[:-1])[path[-1]] = v
    return value


def scalar_types(a, b):
    """equal with the same types"""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(sorted(a)) == list(sorted(b)) and all(scalar_types(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(scalar_types(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def slices(n, length):
    """Some slice: ascending, descending, open, with steps, partly outside."""
    return [slice(n % 3, n, 1 + n % 2), slice(None, None, -1 - n % 3), slice(n, n % 2, -1), slice(-1 - n % 4, None), slice(None, -(n % 3) or None, 2), slice(length, None, -2), slice(n % 3, n)][(n + length) % 7]


class Runner:
    def __init__(self, case, obs):
        import random
        self.random = random
        self.obs = obs
        self.s = case["schema"]
        self.schema = st.to_schema(self.s)
        given = copy.deepcopy(case["value"])
        how = case.get("how", "build_model")
        if st.is_basic(self.s) or how == "build_model":
            self.model = S.build_model(self.schema, value=given)
        elif how == "build_value":
            self.model = S.build_value(self.schema, value=given)
        elif self.s[0] == "record":
            self.model = S.RecordModel(self.schema, values=given) if given is not None else S.RecordModel(self.schema)
        else:
            self.model = S.ArrayModel(self.schema, given) if given is not None else S.ArrayModel(self.schema)
        obs.count(how)
        if st.is_basic(self.s):
            v = S.build_value(self.schema, value=given)
            expect(v == given and type(v) == type(given), "build-value", "value of a basic type is {!r} instead of {!r}", v, given)
        self.value = st.expected(self.s, None, case["value"])
        self.built = self.value
        obs.count("built")
        if self.value != case["value"]:
            obs.count("defaults_used")
        self.check("build")
        expect(given == case["value"], "given-changed", "values passed in were changed")
        trash(given)
        self.check("changing the values passed in")

    def check(self, what):
        got = self.model.to_dict_value()
        expect(scalar_types(got, self.value) if self.value is not None else got is None, "dict-value", "after {}: dict value is {} instead of {}", what, got, self.value)
        # attribute view
        for path, s, m in st.nodes(self.s, self.model):
            if not st.is_basic(s) and s[0] == "record":
                want = at(self.value, path)
                expect(not hasattr(m, "nope") and not hasattr(m, "nope_model"), "unknown-attribute", "record has an attribute which is none of its fields")
                for n, fs, d in s[1]:
                    a = getattr(m, n)
                    if st.is_basic(fs):
                        expect(a == want.get(n), "attribute", "after {}: {} is {} instead of {}", what, n, a, want.get(n))
                    elif fs[0] == "array":
                        l = [x.to_dict_value() if hasattr(x, "to_dict_value") else x for x in a]
                        expect(l == want[n] and len(a) == len(want[n]), "array-attribute", "after {}: {} is {} instead of {}", what, n, l, want[n])
        trash(got)
        got = self.model.to_dict_value()
        expect(got == self.value, "dict-shared", "after {}: changing the dict value changed the model: {} instead of {}", what, got, self.value)

    def fields(self):
        return [(p, s, m) for p, s, m in st.nodes(self.s, self.model) if st.is_basic(s)]

    def arrays(self):
        return [(p, s, m) for p, s, m in st.nodes(self.s, self.model) if not st.is_basic(s) and s[0] == "array"]

    def holder(self, path):
        """the record which holds the field at the path"""
        m = self.model
        for p in path[:-1]:
            m = getattr(m, p + "_model") if isinstance(p, str) else m.items[p]
        return m

    def step(self, op):
        obs = self.obs
        kind = op[0]
        if kind == "set":
            fields = self.fields()
            if not fields:
                return
            path, s, m = fields[op[1] % len(fields)]
            rng = self.random.Random(op[2])
            v = st.gen_basic(rng, s if isinstance(s, str) else s[1])
            if rng.random() < 0.1 and path and st.default_of(self.s, path) is None:
                v = None
            if path and isinstance(path[-1], str) and rng.random() < 0.7:
                setattr(self.holder(path), path[-1], v)
            else:
                m.value = v
            old = at(self.value, path[:-1]).get(path[-1]) if path else self.value
            same = v == old if v is not None and old is not None else v is old
            if not same:  # values which compare equal (0, False, 0.0) count as the same
                if not path:
                    self.value = v
                elif v is None:
                    at(self.value, path[:-1]).pop(path[-1], None)
                else:
                    self.value = put(self.value, path, v)
            obs.count("edits")
            obs.ev("set", len(path))
        elif kind == "seq":
            arrays = self.arrays()
            if not arrays:
                return
            path, s, m = arrays[op[1] % len(arrays)]
            seq = m.field_value
            if path and isinstance(path[-1], str):
                seq = getattr(self.holder(path), path[-1])
            self.seq_op(seq, at(self.value, path), s[1], *op[2:])
            obs.count("sequence_ops")
            if len([p for p in path if isinstance(p, int)]):
                obs.count("nested_arrays")
            obs.ev("seq", op[2], len(path))
        elif kind == "load":
            rng = self.random.Random(op[1])
            value = st.gen_value(rng, self.s, 0.0)
            want = st.expected(self.s, None, value)
            given = copy.deepcopy(value)
            other = None
            if op[2] == "copy_from" and not st.is_basic(self.s):
                other = S.build_model(st.to_schema(self.s), value=given)
                self.model.copy_from(other)
            else:
                self.model.from_dict_value(given)
            expect(given == value, "given-changed", "values passed in were changed")
            if st.complete(self.s, want):
                # values which compare equal (0, False) may stay: compare by equality and take over what is there
                got = self.model.to_dict_value()
                expect(got == want, "load", "after {}: dict value is {} instead of {}", op[2], got, want)
                self.value = got
                obs.count("loaded")
            else:  # cannot be: all fields are given
                raise AssertionError(want)
            trash(given)
            if other is not None:
                edit_all(self.s, other)
            obs.ev("load", op[2])
        elif kind == "other":
            # attributes which are no fields are ordinary ones
            records = [m for _, s, m in st.nodes(self.s, self.model) if not st.is_basic(s) and s[0] == "record"]
            if not records:
                return
            m = records[op[1] % len(records)]
            m.something = [5]
            expect(m.something == [5], "other-attribute", "attribute set is {!r}", m.something)
            obs.count("other_attributes")
        elif kind == "copy":
            if op[1] == "deepcopy" and not st.is_basic(self.s):
                other = copy.deepcopy(self.model)
            elif op[1] == "build":
                other = S.build_model(st.to_schema(self.s), value=self.model.to_dict_value())
            else:
                other = S.build_model(self.schema, value=self.model.to_dict_value())
            got = other.to_dict_value()
            expect(got == self.value, "copy", "{}: dict value is {} instead of {}", op[1], got, self.value)
            edit_all(self.s, other)
            obs.count("copies")
            obs.ev("copy", op[1])
        self.check(op[0] + " " + str(op[1:3]))

    def seq_op(self, seq, ref, s, name, n, bits):
        rng = self.random.Random(bits)
        value = st.expected(s, None, st.gen_value(rng, s, 0.2))

        def pair():
            return st.new_item(s, value)

        def raises(f):
            try:
                return ("value", f())
            except (IndexError, ValueError) as e:
                return ("raised", type(e).__name__)

        def plain(x):
            if isinstance(x, list):
                return [plain(y) for y in x]
            return x.to_dict_value() if hasattr(x, "to_dict_value") else x
        if name == "append":
            seq.append(pair()); ref.append(value)
        elif name == "insert":
            i = n % (len(ref) + 1)
            seq.insert(i, pair()); ref.insert(i, value)
        elif name == "insert_neg":
            i = -n - 1
            seq.insert(i, pair()); ref.insert(i, value)
        elif name == "del":
            if ref:
                del seq[n % len(ref)]; del ref[n % len(ref)]
        elif name == "del_neg":
            if ref:
                i = -1 - n % len(ref)
                del seq[i]; del ref[i]
        elif name == "del_slice":
            sl = slices(n, len(ref))
            del seq[sl]; del ref[sl]
        elif name == "pop":
            a, b = raises(seq.pop), raises(ref.pop)
            expect((a[0], plain(a[1])) == b, "seq-pop", "{} instead of {}", a, b)
        elif name == "pop_at":
            a, b = raises(lambda: seq.pop(n)), raises(lambda: ref.pop(n))
            expect((a[0], plain(a[1])) == b, "seq-pop", "{} instead of {}", a, b)
        elif name == "extend":
            seq.extend([pair() for _ in range(n)]); ref.extend([copy.deepcopy(value) for _ in range(n)])
        elif name == "remove":
            if ref:
                i = n % len(ref)
                i = ref.index(ref[i]) if st.is_basic(s) else i
                seq.remove(seq[i]); del ref[i]
        elif name == "clear":
            seq.clear(); ref.clear()
        elif name == "index":
            if ref:
                i = n % len(ref)
                expect(seq.index(seq[i]) == (ref.index(ref[i]) if st.is_basic(s) else i), "seq-index", "index")
        elif name == "contains":
            if ref:
                expect(seq[n % len(ref)] in seq, "seq-contains", "item of the sequence is not in it")
            if st.is_basic(s):
                expect((value in seq) == (value in ref), "seq-contains", "membership of {} in {}", value, ref)
            else:
                expect(pair() not in seq, "seq-contains", "foreign item is in the sequence")
        elif name == "count":
            if ref:
                x = ref[n % len(ref)]
                expect(seq.count(seq[n % len(ref)]) == (ref.count(x) if st.is_basic(s) else 1), "seq-count", "count")
        elif name == "reversed":
            expect(plain(list(reversed(seq))) == list(reversed(ref)), "seq-reversed", "reversed")
        elif name == "slice":
            sl = slices(n, len(ref))
            expect(plain(list(seq[sl])) == ref[sl], "seq-slice", "slice {}", sl)
            if ref:
                expect(plain(seq[-1]) == ref[-1], "seq-getitem", "last item")
        expect(len(seq) == len(ref), "seq-len", "len is {} instead of {}", len(seq), len(ref))


def trash(v):
    if isinstance(v, dict):
        for x in v.values():
            trash(x)
        v["trash"] = "trash"
    elif isinstance(v, list):
        for x in v:
            trash(x)
        v.append("trash")


def edit_all(s, model):
    """change everything in a model"""
    for path, fs, m in reversed(st.nodes(s, model)):
        if st.is_basic(fs):
            m.value = "changed"
        elif fs[0] == "array":
            m.append_item(st.new_item(fs[1], {} if not st.is_basic(fs[1]) and fs[1][0] == "record" else [] if not st.is_basic(fs[1]) else "changed"))


def execute(case, obs):
    r = Runner(case, obs)
    obs.ev("schema", repr(case["schema"]))
    for op in case["ops"]:
        r.step(op)
        obs.state(repr(case["schema"]), repr(r.value))
    obs.nontrivial = len(st.nodes(r.s, r.model)) > 1


FAMILIES = [Family("values", gen, execute, 47000, 200000)]
