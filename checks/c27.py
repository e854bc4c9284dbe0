"""C27: points, sizes and rectangles."""
import math

from mon.core import Family, expect
from nion.utils import Geometry as G

PROPERTY = "C27"
RULE = ("random points, sizes and rectangles (integers from small to large, floats exactly representable with room for exact sums, and arbitrary floats where only closeness is claimed; empty, touching, nested, overlapping and disjoint rectangles) through all operations, compared with plain numbers; "
        "containment is compared at all combinations of the edges of both rectangles, just inside and outside; non-trivial: every case")
ASSUMPTIONS = ["sizes of rectangles are not negative, but for conversions", "integers up to 2**45, floats of moderate magnitude", "rectangles to map between and to fit into have positive area"]
MUST_OBSERVE = ("containment", "overlapping", "disjoint", "touching", "nested", "empty_rects", "fit_width", "fit_height", "odd_sizes", "negative_coordinates", "maps", "rotations")


def gen_num(rng, kind):
    r = rng.random()
    if kind == "int":
        return rng.randint(-4, 4) if r < 0.5 else rng.randint(-200, 200) if r < 0.85 else rng.randint(-2**44, 2**44)
    if kind == "dyadic":
        return rng.randint(-8, 8) / 2 if r < 0.5 else rng.randint(-4000, 4000) / 8 if r < 0.85 else rng.randint(-2**30, 2**30) / 16
    return rng.uniform(-4, 4) if r < 0.5 else rng.uniform(-1000, 1000) if r < 0.85 else rng.uniform(-1, 1) * 10 ** rng.randint(-6, 6)


def gen_size(rng, kind, positive=False):
    while True:
        v = abs(gen_num(rng, kind))
        if v > 0 or not positive:
            return v


def gen_rect(rng, kind, positive=False):
    return [gen_num(rng, kind), gen_num(rng, kind), gen_size(rng, kind, positive), gen_size(rng, kind, positive)]


def coincide(rng, case, positive=()):
    """Make some of the numbers equal, equal but for the sign, zero or one: plain random numbers hardly ever coincide."""
    if rng.random() < 0.5:
        return case
    lists = [k for k, v in case.items() if isinstance(v, list) and k != "fit"]
    for _ in range(rng.randint(1, 4)):
        a, b = rng.choice(lists), rng.choice(lists)
        if rng.random() < 0.4:
            b = a
        i, j = rng.randrange(len(case[a])), rng.randrange(len(case[b]))
        v = rng.choice([case[b][j], case[b][j], case[b][j], -case[b][j], 0, 1])
        if i > 1:
            v = abs(v)
            if not v and a in positive:
                v = 1
        case[a][i] = v
    return case


def gen(rng):
    return coincide(rng, gen_exact(rng))


def gen_exact(rng):
    kind = rng.choice(["int", "dyadic"])
    r1 = gen_rect(rng, kind)
    r2 = gen_rect(rng, kind)
    r = rng.random()
    if r < 0.15:
        r2[0] = r1[0] + r1[2]
    elif r < 0.3:
        r2[1] = r1[1] + r1[3]
    elif r < 0.45:
        r2 = [r1[0] + r1[2] // 4, r1[1] + r1[3] // 4, r1[2] // 2, r1[3] // 2]
    elif r < 0.5:
        r2 = list(r1)
    return {"kind": kind, "p": [gen_num(rng, kind), gen_num(rng, kind)], "q": [gen_num(rng, kind), gen_num(rng, kind)], "s": [gen_num(rng, kind), gen_num(rng, kind)], "k": rng.choice([-3, -1, 0, 1, 2, 5, 0.5, 2.5]), "d": rng.choice([1, 2, 3, 4, 7]), "r1": r1, "r2": r2, "dx": gen_num(rng, kind), "dy": gen_num(rng, kind)}


def same(what, got, want):
    got = tuple(got)
    expect(got == tuple(want), what, "{} is {} instead of {}", what, got, want)


def types(what, *values, of):
    for v in values:
        expect(type(v) is of, what + "-type", "{} is of type {} instead of {}", what, type(v), of)


def execute(case, obs):
    if case["kind"] == "int":
        Point, Size, Rect, num = G.IntPoint, G.IntSize, G.IntRect, int
    else:
        Point, Size, Rect, num = G.FloatPoint, G.FloatSize, G.FloatRect, float
    py, px = p_ = tuple(case["p"])
    qy, qx = q_ = tuple(case["q"])
    sh, sw = s_ = tuple(case["s"])
    p, q, s = Point(y=py, x=px), Point.make(q_), Size.make(s_)
    obs.ev(case["kind"], case["p"], case["r1"])
    if min(px, py) < 0:
        obs.count("negative_coordinates")
    # tuples and constructors
    same("point", p, p_)
    same("point-items", (p[0], p[1], p.y, p.x), p_ + p_)
    same("point-make", Point.make(p), p_)
    same("point-positional", Point(py, px), p_)
    types("point", p.x, p.y, of=num)
    same("size", s, s_)
    same("size-items", (s[0], s[1], s.height, s.width), s_ + s_)
    same("size-named", Size(height=sh, width=sw), s_)
    same("size-short", Size(h=sh, w=sw), s_)
    same("size-positional", Size(sh, sw), s_)
    same("size-make", Size.make(s), s_)
    types("size", s.width, s.height, of=num)
    same("default-point", Point(), (0, 0))
    same("default-size", Size(), (0, 0))
    same("default-x", Point(y=py), (py, 0))
    same("default-width", Size(h=sh), (sh, 0))
    same("default-height", Size(width=sw), (0, sw))
    # comparison
    for a, b, a_, b_, make in ((p, q, p_, q_, Point.make), (s, Size.make(q_), s_, q_, Size.make)):
        expect((a == b) == (a_ == b_), "equality", "{} == {} is {}", a_, b_, a == b)
        expect((a != b) == (a_ != b_), "inequality", "{} != {} is {}", a_, b_, a != b)
        expect((a == b_) == (a_ == b_) and (a != b_) == (a_ != b_), "equality-tuple", "{} == {} is {}", a_, b_, a == b_)
        expect(a == make(a_) and not a != make(a_) and a == a_, "equality-self", "{} differs from itself", a_)
        expect(not a == None and a != None, "equality-none", "{} equals None", a_)  # noqa: E711
        other = (a_[0] + 1, a_[1])
        expect(not a == make(other) and a != make(other), "equality-first", "{} equals {}", a_, other)
        other = (a_[0], a_[1] + 1)
        expect(not a == make(other) and a != make(other), "equality-second", "{} equals {}", a_, other)
    # arithmetic
    same("point-plus-point", p + q, (py + qy, px + qx))
    same("point-minus-point", p - q, (py - qy, px - qx))
    same("point-plus-size", p + s, (py + sh, px + sw))
    same("point-minus-size", p - s, (py - sh, px - sw))
    same("point-negative", -p, (-py, -px))
    same("size-negative", -s, (-sh, -sw))
    t_ = q_
    t = Size.make(t_)
    same("size-plus-size", s + t, (sh + t_[0], sw + t_[1]))
    same("size-minus-size", s - t, (sh - t_[0], sw - t_[1]))
    same("size-plus-tuple", s + t_, (sh + t_[0], sw + t_[1]))
    same("size-minus-tuple", s - t_, (sh - t_[0], sw - t_[1]))
    types("point-plus-point", (p + q).x, (p - q).y, of=num)
    for o in (p + q, p - q, p + s, p - s, -p):
        types("point-arithmetic", o, of=Point)
    for o in (s + t, s - t, -s):
        types("size-arithmetic", o, of=Size)
    k, d = case["k"], case["d"]
    for got in (s * k, k * s):
        for g, w in zip(got, (sh * k, sw * k)):
            expect(abs(g - w) < 1 if num is int and w != int(w) else g == w, "size-times", "{} * {} is {} instead of {}", s_, k, tuple(got), w)
    if num is int:
        z = Size(abs(sh), abs(sw))
        same("size-floor-divided", z // d, (abs(sh) // d, abs(sw) // d))
    else:
        for got in (p * k, k * p):
            same("point-times", got, (py * k, px * k))
        same("point-divided", p / 4, (py / 4, px / 4))
        same("size-divided", s / 4, (sh / 4, sw / 4))
    close("point-abs", abs(p), math.hypot(px, py))
    close("size-abs", abs(s), math.hypot(sh, sw))
    close("distance", G.distance(p, q), math.hypot(px - qx, py - qy))
    close("distance-tuples", G.distance(p_, q_), math.hypot(px - qx, py - qy))
    same("midpoint", G.midpoint(p, q), ((py + qy) / 2, (px + qx) / 2))
    # rectangles
    check_rect(case["r1"], case, obs, Point, Size, Rect, num)
    check_two(case["r1"], case["r2"], obs, Point, Size, Rect, num)
    # operands are left alone
    same("operand-point", p, p_)
    same("operand-size", s, s_)
    same("operand-second", q, q_)
    # integers to floats
    if num is int:
        fp, fs = p.to_float_point(), s.to_float_size()
        types("to-float", fp.x, fp.y, fs.width, fs.height, of=float)
        same("to-float-point", fp, p_)
        same("to-float-size", fs, s_)


def rect_tuple(r):
    return (r.top, r.left, r.height, r.width)


def check_rect(v, case, obs, Point, Size, Rect, num):
    top, left, height, width = v
    bottom, right = top + height, left + width
    r = Rect((top, left), (height, width))
    want = ((top, left), (height, width))
    same("rect", r, want)
    same("rect-items", (r[0], r[1]), want)
    for name, other in (("make", Rect.make(want)), ("make-rect", Rect.make(r)), ("objects", Rect(Point(y=top, x=left), Size(h=height, w=width))), ("tlhw", Rect.from_tlhw(top, left, height, width)), ("tlbr", Rect.from_tlbr(top, left, bottom, right)), ("named", Rect(origin=(top, left), size=(height, width)))):
        same("rect-" + name, other, want)
        expect(other == r and not other != r, "rect-equality", "{} differs from {}", other, r)
        types("rect-" + name, other, of=Rect)
    same("rect-center-and-size", Rect.from_center_and_size(r.center, r.size), want)
    same("rect-center-and-size", Rect.from_center_and_size(tuple(r.center), tuple(r.size)), want)
    if Rect is G.FloatRect:
        u = Rect.unit_rect()
        expect((u.top, u.left, u.bottom, u.right) == (0, 0, 1, 1), "unit-rect", "unit rect is {}", u)
    for i in range(4):
        v2 = list(v)
        v2[i] += 1
        other = Rect.from_tlhw(*v2)
        expect(not r == other and r != other, "rect-inequality", "{} equals {}", r, other)
    expect(not r == None and r != None and r == want and not r != want, "rect-equality-other", "{} does not compare with tuples or None", r)  # noqa: E711
    same("edges", (r.top, r.left, r.bottom, r.right), (top, left, bottom, right))
    same("sizes", (r.height, r.width), (height, width))
    same("origin", r.origin, (top, left))
    same("size", r.size, (height, width))
    same("corners", [tuple(c) for c in (r.top_left, r.top_right, r.bottom_left, r.bottom_right)], [(top, left), (top, right), (bottom, left), (bottom, right)])
    types("rect-points", r.origin, r.top_left, r.top_right, r.bottom_left, r.bottom_right, r.center, of=Point)
    if num is int:
        if height % 2 or width % 2:
            obs.count("odd_sizes")
        expect(0 <= abs(2 * r.center.y - (top + bottom)) <= 1 and abs(2 * r.center.x - (left + right)) <= 1, "center", "center is {}", tuple(r.center))
        ys, xs = r.slice
        same("slice", (ys.start, ys.stop, ys.step, xs.start, xs.stop, xs.step), (top, bottom, None, left, right, None))
        f = r.to_float_rect()
        types("rect-to-float", f, of=G.FloatRect)
        same("rect-to-float", f, want)
    else:
        same("center", r.center, ((top + bottom) / 2, (left + right) / 2))
    for o in (r, r.size):
        close("aspect-ratio", o.aspect_ratio, width / height if height else 1.0)
    # translating and insetting, and their inverses
    dy, dx = case["dy"], case["dx"]
    moved = ((top + dy, left + dx), (height, width))
    by = Point(y=dy, x=dx)
    for name, other in (("translated", r.translated(by)), ("translated-tuple", r.translated((dy, dx))), ("translated-size", r.translated(Size(h=dy, w=dx))), ("plus", r + by), ("plus-right", by + r)):
        same("rect-" + name, other, moved)
        types("rect-" + name, other, of=Rect)
    same("rect-minus", r - by, ((top - dy, left - dx), (height, width)))
    same("rect-plus-minus", (r + by) - by, want)
    same("rect-translated-back", r.translated(by).translated(-by), want)
    mirrored = by - r
    same("point-minus-rect-size", mirrored.size, (height, width))
    if num is float:
        same("point-minus-rect-center", mirrored.center, by - r.center)
    else:
        expect(abs(mirrored.center.x - (by - r.center).x) <= 1 and abs(mirrored.center.y - (by - r.center).y) <= 1, "point-minus-rect-center", "center {} instead of {}", mirrored.center, by - r.center)
    inset = r.inset(dx, dy)
    same("inset", inset, ((top + dy, left + dx), (height - 2 * dy, width - 2 * dx)))
    same("inset-back", inset.inset(-dx, -dy), want)
    same("inset-one", r.inset(dx), ((top + dx, left + dx), (height - 2 * dx, width - 2 * dx)))
    same("inset-zero", r.inset(dx, 0), ((top, left + dx), (height, width - 2 * dx)))
    same("inset-rect", G.inset_rect(want, dx), ((top + dx, left + dx), (height - 2 * dx, width - 2 * dx)))
    same("inset-rect-object", G.inset_rect(r, dx), ((top + dx, left + dx), (height - 2 * dx, width - 2 * dx)))
    same("operand-rect", r, want)
    if not height or not width:
        obs.count("empty_rects")


def inside(v, y, x):
    return v[0] <= y < v[0] + v[2] and v[1] <= x < v[1] + v[3]


def check_two(a, b, obs, Point, Size, Rect, num):
    ra, rb = Rect.from_tlhw(*a), Rect.from_tlhw(*b)
    i1, i2, u1, u2 = ra.intersect(rb), rb.intersect(ra), ra.union(rb), rb.union(ra)
    e = 1 if num is int else 0.0625
    ys = sorted({y + d for v in (a, b) for y in (v[0], v[0] + v[2], v[0] + v[2] // 2) for d in (-e, 0, e)})
    xs = sorted({x + d for v in (a, b) for x in (v[1], v[1] + v[3], v[1] + v[3] // 2) for d in (-e, 0, e)})
    for y in ys:
        for x in xs:
            wa, wb = inside(a, y, x), inside(b, y, x)
            p = Point(y=y, x=x)
            obs.count("containment")
            expect(bool(ra.contains_point(p)) == wa, "contains", "{} contains {} is {}", ra, p, not wa)
            expect(bool(ra.contains_point((y, x))) == wa, "contains-tuple", "{} contains {} is {}", ra, p, not wa)
            expect(bool(i1.contains_point(p)) == (wa and wb), "intersection", "intersection {} of {} and {} contains {} is {}", i1, ra, rb, p, not (wa and wb))
            expect(bool(i2.contains_point(p)) == (wa and wb), "intersection-symmetric", "intersection {} of {} and {} contains {} is {}", i2, rb, ra, p, not (wa and wb))
    top, left, bottom, right = min(a[0], b[0]), min(a[1], b[1]), max(a[0] + a[2], b[0] + b[2]), max(a[1] + a[3], b[1] + b[3])
    for u in (u1, u2):
        same("union", (u.top, u.left, u.bottom, u.right), (top, left, bottom, right))
    gap = max(a[0] - (b[0] + b[2]), b[0] - (a[0] + a[2]), a[1] - (b[1] + b[3]), b[1] - (a[1] + a[3]))
    if gap > 0:
        obs.count("disjoint")
        expect(not ra.intersects_rect(rb) and not rb.intersects_rect(ra), "intersects-disjoint", "disjoint {} and {} intersect", ra, rb)
    elif gap < 0 and a[2] and a[3] and b[2] and b[3]:
        obs.count("overlapping")
        expect(ra.intersects_rect(rb) and rb.intersects_rect(ra), "intersects-overlapping", "overlapping {} and {} do not intersect", ra, rb)
        same("intersection-edges", (i1.top, i1.left, i1.bottom, i1.right), (max(a[0], b[0]), max(a[1], b[1]), min(a[0] + a[2], b[0] + b[2]), min(a[1] + a[3], b[1] + b[3])))
        if tuple(i1) == tuple(rb):
            obs.count("nested")
    else:
        obs.count("touching")
    types("two", i1, i2, u1, u2, of=Rect)
    # sizes may be negative there
    same("rect-converted", Rect.make(i1), i1)
    same("rect-converted", Rect.from_tlbr(i1.top, i1.left, i1.bottom, i1.right), i1)
    if num is int:
        same("rect-to-float", i1.to_float_rect(), i1)
    same("self-union", ra.union(ra), ra)
    same("self-intersection", ra.intersect(ra), ra)
    same("operand-first", rect_tuple(ra), a)
    same("operand-second", rect_tuple(rb), b)


def close(what, got, want, scale=0.0):
    expect(math.isclose(got, want, rel_tol=1e-9, abs_tol=1e-9 * scale + 1e-12), what, "{} is {} instead of {}", what, got, want)


# closeness: rotating, mapping, fitting

def gen_close(rng):
    case = gen_floats(rng)
    if rng.random() < 0.25:  # the same center, corner or size
        a, b = rng.sample("ftr", 2)
        v, w = case[a], case[b]
        how = rng.randrange(4)
        if how == 0:
            case[b] = [v[0] + (v[2] - w[2]) / 2, v[1] + (v[3] - w[3]) / 2, w[2], w[3]]
        elif how == 1:
            case[b] = [v[0], v[1], w[2], w[3]]
        elif how == 2:
            case[b] = [w[0], w[1], v[2], v[3]]
        else:
            case[b] = [v[0] + v[2] - w[2], v[1] + v[3] - w[3], w[2], w[3]]
        return case
    return coincide(rng, case, "ftr")


def gen_floats(rng):
    return {"p": [gen_num(rng, "float"), gen_num(rng, "float")], "o": [gen_num(rng, "float"), gen_num(rng, "float")], "a": rng.choice([0.0, math.pi / 2, math.pi, -math.pi / 3, rng.uniform(-10, 10)]), "b": rng.uniform(-10, 10),
            "f": gen_rect(rng, "float", True), "t": gen_rect(rng, "float", True), "r": gen_rect(rng, "float", True), "aspect": rng.choice([1.0, 2.0, 0.5, rng.uniform(0.05, 20)]), "fit": [rng.randint(1, 500), rng.randint(1, 500)], "exact": rng.random() < 0.15, "int": rng.random() < 0.3}


def execute_close(case, obs):
    obs.ev(case["p"], case["a"])
    py, px = case["p"]
    oy, ox = case["o"]
    p, o = G.FloatPoint(y=py, x=px), G.FloatPoint(y=oy, x=ox)
    a, b = case["a"], case["b"]
    scale = abs(px) + abs(py) + abs(ox) + abs(oy)

    def near(what, got, want):
        for g, w in zip(got, want):
            close(what, g, w, scale)
    for origin in (None, o):
        c = origin or G.FloatPoint()
        rot = p.rotate(a) if origin is None else p.rotate(a, origin)
        near("rotate-back", rot.rotate(-a, origin), p)
        near("rotate-sum", rot.rotate(b, origin), p.rotate(a + b, origin))
        close("rotate-distance", G.distance(rot, c), G.distance(p, c), scale)
        near("rotate-full", p.rotate(2 * math.pi, origin), p)
        near("rotate-quarter", p.rotate(math.pi / 2, origin), (c.y + (px - c.x), c.x - (py - c.y)))
        near("rotate-none", p.rotate(0.0, origin), p)
        near("rotate-origin", c.rotate(a, origin), c)
        # on the circle
        z = complex(px - c.x, py - c.y) * complex(math.cos(a), math.sin(a))
        near("rotate", rot, (c.y + z.imag, c.x + z.real))
        obs.count("rotations")
    s = G.FloatSize(h=py, w=px)
    near("rotate-size", s.rotate(a), p.rotate(a))
    near("rotate-size-back", s.rotate(a).rotate(-a), s)
    # mapping
    f, t, r = (G.FloatRect.from_tlhw(*case[k]) for k in "ftr")

    def ratio(x, y):
        return max(x / y, 1.0)
    m = G.map_point(p, f, t)
    mscale = (abs(px) + abs(f.left) + abs(f.right)) * ratio(t.width, f.width) + (abs(py) + abs(f.top) + abs(f.bottom)) * ratio(t.height, f.height) + abs(t.left) + abs(t.top) + t.width + t.height
    bscale = scale + sum(map(abs, case["f"])) + mscale * max(f.width / t.width, f.height / t.height, 1.0)
    for g, w in zip(G.map_point(m, t, f), p):
        close("map-point-back", g, w, bscale)
    for corner in ("top_left", "top_right", "bottom_left", "bottom_right", "center"):
        for g, w in zip(G.map_point(getattr(f, corner), f, t), getattr(t, corner)):
            close("map-corner", g, w, mscale)
    close("map-x", (m.x - t.left) * f.width, (px - f.left) * t.width, mscale * f.width)
    close("map-y", (m.y - t.top) * f.height, (py - f.top) * t.height, mscale * f.height)
    for g, w in zip(G.map_point(p, f, f), p):
        close("map-same", g, w, bscale)
    ms = G.map_size(s, f, t)
    close("map-size-width", ms.width * f.width, s.width * t.width, abs(s.width) * t.width)
    close("map-size-height", ms.height * f.height, s.height * t.height, abs(s.height) * t.height)
    for g, w in zip(G.map_size(ms, t, f), s):
        close("map-size-back", g, w, abs(w))
    mr = G.map_rect(r, f, t)
    rscale = (sum(map(abs, case["r"])) + sum(map(abs, case["f"]))) * max(t.width / f.width, t.height / f.height, 1.0) + sum(map(abs, case["t"]))
    for corner in ("top_left", "top_right", "bottom_left", "bottom_right", "center"):
        for g, w in zip(getattr(mr, corner), G.map_point(getattr(r, corner), f, t)):
            close("map-rect-corner", g, w, rscale)
    for g, w in zip(rect_tuple(G.map_rect(f, f, t)), rect_tuple(t)):
        close("map-rect-whole", g, w, rscale + mscale)
    obs.count("maps")
    # fitting
    rect = r
    if case["int"]:
        rect = G.IntRect.from_tlhw(*[int(v) + (1 if i > 1 else 0) for i, v in enumerate(case["r"])])
    aspect = case["aspect"]
    if case["exact"]:
        aspect = rect.width / rect.height
    check_fit("fit", G.fit_to_aspect_ratio(rect, aspect), rect, aspect, obs)
    check_fit("fit-tuple", G.fit_to_aspect_ratio(tuple(rect), aspect), rect, aspect, obs)
    h, w = case["fit"]
    check_fit("fit-size", G.fit_to_size(rect, (h, w)), rect, w / h, obs)
    check_fit("fit-size-object", G.fit_to_size(rect, G.IntSize(h, w)), rect, w / h, obs)


def check_fit(what, fit, rect, aspect, obs):
    scale = abs(rect.top) + abs(rect.left) + rect.height + rect.width
    types(what, fit, of=G.FloatRect)
    close(what + "-aspect", fit.width, fit.height * aspect, scale * 1e-3)
    close(what + "-center-x", fit.left + fit.right, rect.left + rect.right, scale)
    close(what + "-center-y", fit.top + fit.bottom, rect.top + rect.bottom, scale)
    tol = 1e-9 * scale
    expect(fit.width <= rect.width + tol and fit.height <= rect.height + tol, what + "-outside", "{} fitted into {}", fit, rect)
    full_width, full_height = abs(fit.width - rect.width) <= tol, abs(fit.height - rect.height) <= tol
    expect(full_width or full_height, what + "-small", "{} fitted into {} is not the largest", fit, rect)
    obs.count("fit_width" if full_width else "fit_height")


FAMILIES = [Family("exact", gen, execute, 42000, 250000), Family("close", gen_close, execute_close, 42000, 250000)]
