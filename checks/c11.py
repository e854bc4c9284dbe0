"""C11: converter round trips."""
import contextlib
import datetime
import locale
import math
import pathlib
import random
import uuid

from mon.core import Family, Violation, expect
from nion.utils import Converter

PROPERTY = "C11"
RULE = ("random values of the domain of each converter (small, huge, boundary and adversarial ones, e.g. every percentage and step), random formats and options, and the decimal point and thousands separator of the locale overridden; "
        "each value is converted, converted back and converted again; non-trivial: a conversion was checked")
ASSUMPTIONS = ["locales are simulated by overriding localeconv, no comma locale is installed", "only random (version 4) uuids and naive datetimes are in the domain", "commas are only used as decimal point when the locale says so"]
MUST_OBSERVE = ("int", "float", "physical", "percent", "scaled", "check", "uuid", "path", "datetime", "comma_locale", "fuzzy_text", "malformed", "refused", "none")

LOCALES = [None, {"decimal_point": ","}, {"decimal_point": ",", "thousands_sep": "."}, {"decimal_point": ".", "thousands_sep": ","}]


@contextlib.contextmanager
def use_locale(d, obs):
    old = locale._override_localeconv
    locale._override_localeconv = dict(d) if d else {}
    try:
        lc = locale.localeconv()
        if d and d["decimal_point"] == ",":
            if lc["decimal_point"] != ",":
                raise RuntimeError("cannot simulate locale")
            obs.count("comma_locale")
        yield
    finally:
        locale._override_localeconv = old


def gen_float(rng):
    r = rng.random()
    if r < 0.15:
        return float(rng.randint(-20, 20))
    if r < 0.3:
        return rng.randint(-10000, 10000) / rng.choice([10.0, 100.0, 1000.0])
    if r < 0.5:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-12, 15)
    if r < 0.55:
        return rng.choice([0.0, -0.0, 1e300, -1e-300, 5e-324, 123456789.0, 0.1, 1e22, 1e-5, 999999.5, 9999995.0])
    return rng.uniform(-1000, 1000)


def check_int(rng, obs):
    fmt = rng.choice([None, "{:d}", "{:+d}", "{:05d}", "{:3d}", " {:d} "])
    c = Converter.IntegerToStringConverter(fmt) if fmt else Converter.IntegerToStringConverter()
    for x in (rng.randint(-5, 5), rng.randint(-10**6, 10**6), rng.randint(-2**80, 2**80)):
        s = c.convert(x)
        back = c.convert_back(s)
        obs.count("int")
        expect(isinstance(s, str) and s == (fmt or "{:d}").format(x), "int-format", "{} {!r}", x, s)
        expect(back == x and isinstance(back, int), "int-round-trip", "{} -> {!r} -> {!r}", x, s, back)
        expect(c.convert(float(x % 1000)) == (fmt or "{:d}").format(x % 1000), "int-of-float", "{!r} -> {!r}", float(x % 1000), c.convert(float(x % 1000)))
        obs.ev(s)


def check_float(rng, obs):
    fmt = rng.choice([None, "{:g}", "{:.3f}", "{:.12g}", "{:.17g}", "{:e}", "{:0.1f}", "{:+.4f}", "{:.6E}"])
    fuzzy = rng.random() < 0.7
    pass_none = rng.random() < 0.4
    kw = dict(fuzzy=fuzzy) if not fuzzy or rng.random() < 0.5 else {}
    c = Converter.FloatToStringConverter(fmt, pass_none=pass_none, **kw) if fmt else Converter.FloatToStringConverter(pass_none=pass_none, **kw)
    f = fmt or "{:g}"
    with use_locale(rng.choice(LOCALES), obs):
        comma = locale.localeconv()["decimal_point"] == ","
        for _ in range(4):
            x = gen_float(rng)
            s = c.convert(x)
            expect(s == f.format(x), "float-format", "{!r} {!r}", x, s)
            back = c.convert_back(s)
            obs.count("float")
            expect(isinstance(back, float) and back == float(f.format(x)), "float-round-trip", "{!r} -> {!r} -> {!r} (fuzzy {})", x, s, back, fuzzy)
            if f == "{:.17g}":
                expect(back == x, "float-exact-round-trip", "{!r} -> {!r} -> {!r}", x, s, back)
            expect(c.convert(back) == s or back == 0, "float-string-round-trip", "{!r} -> {!r}", s, c.convert(back))
            if comma:  # as a user of that locale would type it
                sc = s.replace(".", ",")
                back2 = c.convert_back(sc)
                expect(back2 == back, "float-comma", "{!r} -> {!r}, expected {!r}", sc, back2, back)
            if fuzzy:
                text = rng.choice(["", " ", "  "]) + s + rng.choice([" nm", "nm", " eV", " ", " - 3", "%", " (approx)", " e", "x"])
                if not (s[-1:].isdigit() and text.endswith("e")) or True:
                    obs.count("fuzzy_text")
                    expect(c.convert_back(text) == back, "float-fuzzy", "{!r} -> {!r}, expected {!r}", text, c.convert_back(text), back)
            obs.ev(s)
        if fuzzy:
            for bad in ("abc", "-", ".", "e5", "nm 3", "+-3", "" if not pass_none else "?"):
                obs.count("malformed")
                expect(c.convert_back(bad) == 0.0, "float-malformed", "{!r} -> {!r}", bad, c.convert_back(bad))
        else:
            for bad in ("abc", "-", "3 nm", "1.5x", "nm 3", "+-3", "1e", "2 3"):
                obs.count("refused")
                try:
                    result = c.convert_back(bad)
                except ValueError:
                    continue
                expect(False, "float-not-refused", "{!r} -> {!r}, without fuzzy", bad, result)
    if pass_none:
        obs.count("none")
        expect(c.convert(None) is None and c.convert_back(None) is None and c.convert_back("") is None, "float-none", "pass_none")


def check_physical(rng, obs):
    units = rng.choice(["nm", "eV", "1/nm", "e", "%", "°", "counts", "µm", "E"])
    multiplier = rng.choice([1.0, 1000.0, 1e9, 1e-3, 0.5, 2.0, 1e6, 180 / math.pi])
    fmt = rng.choice([None, "{:.3f}", "{:.6g}", "{:.12g}", "{:e}"])
    pass_none = rng.random() < 0.5
    c = Converter.PhysicalValueToStringConverter(units, multiplier, fmt, pass_none=pass_none)
    if multiplier == 1.0 and rng.random() < 0.5:
        c = Converter.PhysicalValueToStringConverter(units, format=fmt, pass_none=pass_none)
    f = fmt or "{:g}"
    with use_locale(rng.choice(LOCALES), obs):
        for _ in range(4):
            x = gen_float(rng)
            if not 1e-250 < abs(x) < 1e250 and x != 0:
                continue
            s = c.convert(x)
            obs.count("physical")
            expect(s == f.format(x * multiplier) + " " + units, "physical-format", "{!r} {!r}", x, s)
            back = c.convert_back(s)
            printed = float(f.format(x * multiplier))
            expect(math.isclose(back * multiplier, printed, rel_tol=1e-12, abs_tol=0), "physical-round-trip", "{!r} -> {!r} -> {!r}", x, s, back)
            if f in ("{:.12g}",):
                expect(math.isclose(back, x, rel_tol=1e-11), "physical-value", "{!r} -> {!r} -> {!r}", x, s, back)
            if f in ("{:.6g}", "{:g}", "{:e}"):
                expect(math.isclose(back, x, rel_tol=6e-6), "physical-value", "{!r} -> {!r} -> {!r}", x, s, back)
            obs.ev(s)
    if pass_none:
        obs.count("none")
        expect(c.convert(None) is None and c.convert_back(None) is None and c.convert_back("") is None, "physical-none", "pass_none")


def check_percent(rng, obs):
    c = Converter.FloatToPercentStringConverter()
    for i in [rng.randint(-150, 250) for _ in range(20)]:
        s = f"{i}%"
        obs.count("percent")
        v = c.convert_back(s)
        expect(math.isclose(v, i / 100, rel_tol=1e-12), "percent-back", "{!r} -> {!r}", s, v)
        expect(c.convert(v) == s, "percent-string-round-trip", "{!r} -> {!r} -> {!r}", s, v, c.convert(v))
        expect(c.convert(i / 100) == s, "percent-format", "{!r} -> {!r}", i / 100, c.convert(i / 100))
        obs.ev(s)
    for _ in range(5):
        x = rng.uniform(-1, 2)
        expect(abs(c.convert_back(c.convert(x)) - x) <= 0.01, "percent-resolution", "{!r} -> {!r}", x, c.convert(x))


def check_scaled(rng, obs):
    n = rng.choice([1, 2, 3, 7, 10, 29, 100, 100, 255, 1000, 65535])
    lo, hi = rng.choice([(0, 1), (0, 1), (-1, 1), (0.1, 0.7), (0, 3), (-0.3, 0.9), (5, 15), (1e-9, 1e-6)])
    c = Converter.FloatToScaledIntegerConverter(n, lo, hi) if (lo, hi) != (0, 1) else Converter.FloatToScaledIntegerConverter(n)
    step = (hi - lo) / n
    for i in [rng.randint(0, n) for _ in range(12)] + [0, n]:
        v = c.convert_back(i)
        obs.count("scaled")
        expect(math.isclose(v, lo + i * step, rel_tol=1e-9, abs_tol=abs(step) * 1e-6), "scaled-back", "{} -> {!r} (n {} range {} {})", i, v, n, lo, hi)
        j = c.convert(v)
        expect(j == i and isinstance(j, int), "scaled-int-round-trip", "{} -> {!r} -> {!r} (n {} range {} {})", i, v, j, n, lo, hi)
        obs.ev(n, i)
    for _ in range(5):
        x = rng.uniform(lo, hi)
        expect(abs(c.convert_back(c.convert(x)) - x) <= step * (1 + 1e-6), "scaled-resolution", "{!r} (n {} range {} {})", x, n, lo, hi)
    expect(c.convert(lo) == 0 and c.convert(hi) == n, "scaled-ends", "{} {}", c.convert(lo), c.convert(hi))


def check_misc(rng, obs):
    c = Converter.CheckedToCheckStateConverter()
    for b in (True, False):
        obs.count("check")
        expect(c.convert(b) == ("checked" if b else "unchecked") and c.convert_back(c.convert(b)) is b, "check-round-trip", "{}", b)
    expect(c.convert_back("partial") is False, "check-other", "")
    c = Converter.UuidToStringConverter()
    for _ in range(4):
        u = uuid.UUID(int=rng.getrandbits(128), version=4)
        s = c.convert(u)
        obs.count("uuid")
        expect(s == str(u) and c.convert_back(s) == u, "uuid-round-trip", "{} -> {!r} -> {!r}", u, s, c.convert_back(s))
        expect(c.convert_back("  " + s.upper() + " ") == u, "uuid-fuzzy", "{}", s)
        for bad in (s[:-1], s + "0", s.replace("-", ""), "z" + s[1:], "", "hello", s[:14] + "x" + s[15:], "{" + s + "}"):
            obs.count("malformed")
            expect(c.convert_back(bad) is None, "uuid-malformed", "{!r} -> {!r}", bad, c.convert_back(bad))
        obs.ev(s)
    expect(c.convert(None) is None, "uuid-none", "")
    c = Converter.PathToStringConverter()
    for _ in range(4):
        p = pathlib.Path(*[rng.choice(["/", "a", "b c", "..", "x.txt", "é", "dir.d", " lead", "trail ", "~", "%41", "a\\b", "C:", ".", "tab\t"]) for _ in range(rng.randint(1, 5))])
        s = c.convert(p)
        obs.count("path")
        expect(s == str(p) and c.convert_back(s) == p and c.convert(c.convert_back(s)) == s, "path-round-trip", "{} -> {!r}", p, s)
        obs.ev(s)
    obs.count("none")
    expect(c.convert(None) is None and c.convert_back(None) is None and c.convert_back("") is None, "path-none", "")
    c = Converter.DatetimeToStringConverter()
    for _ in range(5):
        d = datetime.datetime(rng.choice([1, 99, 1000, 1969, 1970, 2000, 2020, 2021, 9999]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 0, 1, 999999, 100000, rng.randrange(10**6)]))
        s = c.convert(d)
        obs.count("datetime")
        expect(s == d.isoformat() and c.convert_back(s) == d, "datetime-round-trip", "{} -> {!r} -> {!r}", d, s, c.convert_back(s))
        for bad in (s[:-1], s + "0", s.replace("T", " "), "x" * 19, "x" * 26, "", s[:5] + "13" + s[7:], s[:8] + "32" + s[10:], s[:10]):
            if len(bad) not in (19, 26) or bad != s:
                if bad == s[:-1] and len(bad) == 25:
                    pass
                obs.count("malformed")
                expect(c.convert_back(bad) is None, "datetime-malformed", "{!r} -> {!r}", bad, c.convert_back(bad))
        obs.ev(s)
    expect(c.convert(None) is None, "datetime-none", "")


CHECKS = dict(int=check_int, float=check_float, physical=check_physical, percent=check_percent, scaled=check_scaled, misc=check_misc)


def fam(name, quick, thorough):
    return Family(name, lambda rng: {"seed": rng.getrandbits(40)}, lambda case, obs: CHECKS[name](random.Random(case["seed"]), obs), quick, thorough)


FAMILIES = [fam("int", 10000, 60000), fam("float", 100000, 600000), fam("physical", 60000, 400000), fam("percent", 8000, 40000), fam("scaled", 45000, 300000), fam("misc", 25000, 150000)]
