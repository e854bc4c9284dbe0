"""C28: axis ticks."""
import math

from mon.core import Family, expect
from nion.utils import Geometry as G

PROPERTY = "C28"
RULE = ("ranges of all magnitudes, signs and relative widths, in either order, with ends on, just beside and far from round numbers, empty and non-finite ones, with 2 to 40 ticks requested; logarithmic ranges over fractions of and many decades with bases 2, 3, 8, 10 and 16; "
        "ticks, labels and limits are checked against the range by arithmetic; non-trivial: more than one tick")
ASSUMPTIONS = ["the range is at least 1e-12 of its larger end, and of magnitudes between 1e-280 and 1e280", "logarithms are given in increasing order within the range of floats"]
MUST_OBSERVE = ("linear", "reversed", "empty", "non_finite", "exponent_labels", "fixed_labels", "log", "log_minor", "log_many_decades", "log_narrow", "negative", "crossing_zero", "round_ends", "just_below_power")


def gen(rng):
    r = rng.random()
    ticks = rng.choice([5, 5, 5, 2, 3, 4, 6, 7, 10, 20, 40, rng.randint(2, 40)])
    if r < 0.05:
        special = rng.choice(["inf", "-inf", "nan"])
        return {"low": special, "high": rng.choice(["inf", "-inf", "nan", 1.0]), "ticks": ticks}
    if r < 0.1:
        v = rng.choice([0.0, 1.0, -5.5, rng.uniform(-1, 1) * 10 ** rng.randint(-20, 20)])
        return {"low": v, "high": v, "ticks": ticks}
    if r < 0.45:
        e = rng.choice([0, 0, 1, 2, -1, -2, rng.randint(-12, 12), rng.randint(-280, 280)])
        lo = rng.choice([0.0, rng.uniform(-1, 1)])
        width = rng.choice([1.0, 2.0, 5.0, 1.5, 3.0, 7.0, rng.uniform(0.01, 10), 10 ** rng.uniform(-8, 0)])
        return {"low": lo * 10.0 ** e, "high": (lo + width) * 10.0 ** e, "ticks": ticks, "swap": rng.random() < 0.3}
    if r < 0.75:
        e = rng.choice([0, 1, -1, 2, -3, 4, -5, 6, -7, rng.randint(-15, 15)])
        a, b = rng.randint(-200, 200), rng.randint(-200, 200)
        if a == b:
            b += 1
        return {"low": min(a, b) * 10.0 ** e, "high": max(a, b) * 10.0 ** e, "ticks": ticks, "swap": rng.random() < 0.3}
    if r < 0.85:
        e = rng.randint(-20, 20)
        p = 10.0 ** e
        hi = rng.choice([math.nextafter(p, 0), math.nextafter(p, math.inf), p, 0.999999999 * p])
        return {"low": rng.choice([0.0, 0.0, -p, 0.1 * p]), "high": hi, "ticks": ticks, "swap": rng.random() < 0.3}
    # far from zero compared with the width
    e = rng.randint(-12, 12)
    c = rng.uniform(-10, 10) * 10.0 ** e
    return {"low": c, "high": c + abs(c) * 10 ** rng.uniform(-12.5, -1), "ticks": ticks, "swap": rng.random() < 0.3}


def execute(case, obs):
    low, high, ticks = float(case["low"]), float(case["high"]), case["ticks"]
    obs.ev(low, high, ticks)
    args = (high, low) if case.get("swap") else (low, high)
    if case.get("swap"):
        obs.count("reversed")
    t = G.LinearTicker(*args, ticks=ticks) if ticks != 5 else G.LinearTicker(*args)
    values, labels = list(t.values), list(t.labels)
    expect(t.ticks == ticks, "ticks", "ticks is {}", t.ticks)
    expect(len(values) == len(labels), "label-count", "{} labels for {} values", len(labels), len(values))
    compare(t, args, ticks)
    if not (math.isfinite(low) and math.isfinite(high)):
        obs.count("non_finite")
        obs.nontrivial = False
        expect(len(values) == 1, "non-finite", "values of {} to {} are {}", low, high, values)
        return
    if low == high:
        obs.count("empty")
        obs.nontrivial = False
        expect(values == [low] and t.minimum == low and t.maximum == low, "empty", "values of the empty range at {} are {}", low, values)
        return
    obs.count("linear")
    d = t.division
    what = f"{low!r} to {high!r} with {ticks} ticks"
    expect(d > 0, "division", "division of {} is {}", what, d)
    e = math.floor(math.log10(d) + 1e-6)
    expect(any(math.isclose(d, m * 10.0 ** e, rel_tol=1e-9) for m in (1, 2, 5)), "division-round", "division of {} is {}", what, d)
    size = max(abs(low), abs(high))
    tol = 1e-7 * d + 8 * math.ulp(size)
    expect(values[0] == t.minimum, "minimum-tick", "first tick {} of {} is not the minimum {}", values[0], what, t.minimum)
    expect(abs(values[-1] - t.maximum) <= tol, "maximum-tick", "last tick {} of {} is not the maximum {}", values[-1], what, t.maximum)
    expect(t.minimum <= low + tol and t.maximum >= high - tol, "cover", "ticks {} to {} do not cover {}", t.minimum, t.maximum, what)
    expect(t.minimum > low - d - tol and t.maximum < high + d + tol, "spare", "ticks {} to {} with division {} are more than a division outside of {}", t.minimum, t.maximum, d, what)
    for i, v in enumerate(values):
        expect(abs(v - (values[0] + i * d)) <= tol, "spacing", "tick {} of {} is {} instead of {}", i, what, v, values[0] + i * d)
        expect(abs(v / d - round(v / d)) <= 1e-6 + 8 * math.ulp(size) / d, "multiple", "tick {} of {} is not a multiple of the division {}", v, what, d)
    for a, b in zip(values, values[1:]):
        expect(a < b, "increasing", "ticks of {} are not increasing: {}, {}", what, a, b)
    n = len(values)
    expect(max(2, 0.23 * (ticks - 1)) <= n <= 1.51 * (ticks - 1) + 3, "tick-count", "{} has {} ticks", what, n)
    expect(len(set(labels)) == n, "labels-distinct", "labels of {} are {}", what, labels)
    for v, label in zip(values, labels):
        try:
            parsed = float(label)
        except ValueError:
            expect(False, "label-parse", "label {!r} of {}", label, what)
        expect(abs(parsed - v) < 0.5 * d, "label-value", "label of tick {!r} of {} (division {}) is {}", v, what, d, label)
        expect(t.value_label(v) == label, "value-label", "value_label({!r}) is {} instead of {}", v, t.value_label(v), label)
    obs.count("exponent_labels" if "e" in labels[0] else "fixed_labels")
    if low < 0:
        obs.count("negative")
        if high > 0:
            obs.count("crossing_zero")
    if values[0] == low and abs(values[-1] - high) <= tol:
        obs.count("round_ends")
    x = math.log10(high - low)
    if 0 < math.ceil(x) - x < 1e-9:
        obs.count("just_below_power")
    obs.nontrivial = n > 1


def compare(t, args, ticks):
    """the functions agree with the ticker"""
    full = G.make_pretty_range2(*args, ticks=ticks)
    expect(list(full[2]) == list(t.values) and full[0] == t.minimum and full[1] == t.maximum and full[3] == t.division and full[4] == t.precision, "pretty-range2", "make_pretty_range2{} is {}", args, full)
    part = G.make_pretty_range(*args, ticks=ticks)
    expect(tuple(part) == tuple(full[:5]), "pretty-range", "make_pretty_range{} is {}", args, part)
    if max(abs(full[0]), abs(full[1])) < 300:
        # the ends are exponents; the ticks of the exponents are the same
        log = G.make_pretty_range2(*args, ticks=ticks, logarithmic=True)
        expect(tuple(log[:5]) == tuple(full[:5]), "pretty-range2-log", "make_pretty_range2{} logarithmic is {}", args, log)


def gen_pretty(rng):
    r = rng.random()
    if r < 0.3:
        v = rng.choice([1, 2, 5, 10, 1.5, 3, 7, 0.999999999, 1.0000001, 4.999999, 5.000001]) * 10.0 ** rng.randint(-30, 30)
    elif r < 0.4:
        v = math.nextafter(10.0 ** rng.randint(-30, 30), rng.choice([0, math.inf]))
    elif r < 0.45:
        v = rng.choice([0.0, "inf", "-inf", "nan", -0.0])
    else:
        v = 10 ** rng.uniform(-90, 90)
    if not isinstance(v, str) and rng.random() < 0.4:
        v = -v
    return {"v": v, "rounding": rng.random() < 0.5}


def execute_pretty(case, obs):
    v, rounding = float(case["v"]), case["rounding"]
    obs.ev(v, rounding)
    p, f = G.make_pretty(v, rounding)
    expect(G.make_pretty2(v, rounding) == p, "pretty2", "make_pretty2({}) is {} instead of {}", v, G.make_pretty2(v, rounding), p)
    if not math.isfinite(v) or v == 0:
        expect(p == 0, "pretty-none", "pretty {} is {}", v, p)
        return
    expect(p != 0 and math.copysign(1, p) == math.copysign(1, v), "pretty-sign", "pretty {} is {}", v, p)
    e = math.floor(math.log10(abs(p)) + 1e-6)
    expect(any(math.isclose(abs(p), m * 10.0 ** e, rel_tol=1e-9) for m in (1, 2, 5)), "pretty-round", "pretty {} is {}", v, p)
    q = abs(p) / abs(v)
    if rounding:
        expect(0.66 <= q <= 1.67, "pretty-near", "pretty {} is {}", v, p)
    else:
        expect(1 - 1e-9 <= q <= 2.5 + 1e-6, "pretty-above", "pretty {} is {}", v, p)
    obs.nontrivial = True


def gen_log(rng):
    r = rng.random()
    base = rng.choice([10, 10, 10, 10, 2, 3, 8, 16])
    ticks = rng.choice([5, 5, 5, 2, 3, 4, 7, 10, 20])
    if r < 0.05:
        return {"low": rng.choice(["inf", "-inf", "nan"]), "high": rng.choice(["inf", "nan", 1.0]), "ticks": ticks, "base": base}
    limit = 200 / math.log10(base)
    low = rng.choice([0.0, 1.0, -3.0, rng.uniform(-5, 5), rng.uniform(-5, 5), rng.uniform(-limit, limit)])
    width = rng.choice([0.0, 1.0, 2.0, 5.0, 0.5, rng.uniform(0, 1), rng.uniform(0, 6), rng.uniform(0, 80 / math.log10(base)), 10 ** rng.uniform(-3, 0)])
    return {"low": low, "high": low + width, "ticks": ticks, "base": base}


def execute_log(case, obs):
    low, high, ticks, base = float(case["low"]), float(case["high"]), case["ticks"], case["base"]
    obs.ev(low, high, ticks, base)
    kw = {} if base == 10 else {"base": base}
    t = G.LogTicker(low, high, ticks=ticks, **kw)
    values, labels = list(t.values), list(t.labels)
    what = f"{low!r} to {high!r} with {ticks} ticks, base {base}"
    expect(len(values) == len(labels), "log-label-count", "{} labels for {} values", len(labels), len(values))
    if not (math.isfinite(low) and math.isfinite(high)):
        obs.count("non_finite")
        obs.nontrivial = False
        return
    obs.count("log")
    tol = 1e-9 * max(1, abs(low), abs(high))
    for a, b in zip(values, values[1:]):
        expect(a < b, "log-increasing", "ticks of {} are not increasing: {}, {}", what, a, b)
    expect(values[0] <= low + tol and values[-1] >= high - tol, "log-cover", "ticks {} to {} do not cover {}", values[0], values[-1], what)
    minor = set(t.minor_tick_indices)
    expect(all(0 <= i < len(values) for i in minor) and 0 not in minor, "log-minor-range", "minor ticks {} of {}", minor, len(values))
    for i, (v, label) in enumerate(zip(values, labels)):
        x = float(label)
        ratio = math.log(x, base) - v
        expect(abs(ratio) < math.log(1.6, base), "log-label", "label of tick {!r} of {} is {}", v, what, label)
        if base == 10:
            # right to half a unit of the last digit shown
            mantissa, _, exponent = label.partition("e")
            unit = 10.0 ** (int(exponent) - len(mantissa.partition(".")[2]))
            expect(abs(x - 10.0 ** v) <= 0.5001 * unit + 1e-11 * x, "log-label-digits", "label of tick {!r} of {} is {}", v, what, label)
        if i in minor:
            expect(abs(v - round(v)) > 1e-6, "log-minor", "minor tick {} of {} is a decade", v, what)
            # minor ticks are whole multiples of the decade before
            m = base ** (v - math.floor(v))
            expect(abs(m - round(m)) < 1e-4, "log-minor-multiple", "minor tick {} of {} is {} times the decade before", v, what, m)
    if base == 10:
        expect(len(set(labels)) == len(labels), "log-labels-distinct", "labels of {} are {}", what, labels)
    if minor:
        obs.count("log_minor")
        majors = [v for i, v in enumerate(values) if i not in minor]
        expect(all(abs(v - round(v)) < 1e-6 for v in majors), "log-major", "major ticks {} of {}", majors, what)
        decades = {}
        for i in sorted(minor):
            decades.setdefault(math.floor(values[i]), []).append(round(base ** (values[i] - math.floor(values[i]))))
        multiples = list(decades.values())
        expect(all(m == multiples[0] for m in multiples) and len(decades) == len(majors), "log-minor-same", "minor ticks of {} are at the multiples {} of the decades", what, multiples)
        m = multiples[0]
        steps = {b - a for a, b in zip(m, m[1:])}
        if len(m) > 1:
            expect(len(steps) == 1 and m[0] - 1 <= max(steps) and m[-1] + max(steps) >= base, "log-minor-even", "minor ticks of {} are at {}", what, m)
        else:
            expect(abs(m[0] - base / 2) <= 0.5, "log-minor-middle", "minor ticks of {} are at {}", what, m)
    expect(len(values) <= base * (2 * ticks + 2), "log-tick-count", "{} has {} ticks", what, len(values))
    if high - low > 10:
        obs.count("log_many_decades")
    if 0 < high - low < 0.3:
        obs.count("log_narrow")
    obs.nontrivial = len(values) > 1


FAMILIES = [Family("linear", gen, execute, 240000, 1000000), Family("pretty", gen_pretty, execute_pretty, 80000, 320000), Family("log", gen_log, execute_log, 120000, 480000)]
