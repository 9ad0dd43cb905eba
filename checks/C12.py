"""C12 - intersections of segments."""

import numpy as np
from hypothesis import strategies as st

from harness import exact
from harness.core import Violation, subcheck

TITLE = "Segments are reported to meet exactly where they do"
ASSUMPTIONS = ["coordinates of order one; gaps and angles far larger than the 1e-10 tolerance"]
TOL = 1e-9


def flat(out):
    """The reported points, whatever the nesting of the result."""
    if out is None:
        return np.empty((0, 3))
    if isinstance(out, tuple):
        out = out[0]
    out = np.asarray(out, dtype=float)
    return out.reshape(-1, 3)


def contains(points, p):
    return len(points) and np.abs(points - p).max(axis=1).min() < TOL


def check_points(got, want, contained, what):
    """got: reported points; want: exact intersection [] / [p] / [p, q] (images).
    An overlap is reported by points of it: both ends when the tool lies on the
    object, at least one otherwise (the existing tests settle both)."""
    if len(want) == 0:
        if len(got):
            raise Violation("%s: disjoint segments reported to meet at %s" % (what, got.tolist()))
        return
    if len(got) == 0:
        raise Violation("%s: meet at %s but nothing is reported" % (what, want.tolist()))
    if len(want) == 1:
        for g in got:
            if np.abs(g - want[0]).max() > TOL:
                raise Violation("%s: reported %s, the only common point is %s" % (what, g, want[0]))
        return
    d = want[1] - want[0]
    for g in got:
        t = (g - want[0]) @ d / (d @ d)
        if np.abs(want[0] + t * d - g).max() > TOL or not -TOL < t < 1 + TOL:
            raise Violation("%s: reported %s is not on the overlap %s" % (what, g, want.tolist()))
    if contained and not all(contains(got, w) for w in want):
        raise Violation("%s: the first lies on the second, overlap %s, reported %s" % (what, want.tolist(), got.tolist()))


@st.composite
def segments(draw, base=None):
    """Segments that often touch, cross, overlap or are parallel to earlier ones."""
    planar = draw(st.booleans())
    lift = (lambda p: tuple(p) + (0,)) if planar else tuple
    point = exact.point2() if planar else exact.point3()
    n = draw(st.integers(2, 4))
    out = []
    for i in range(n):
        kind = draw(st.sampled_from(["free", "free", "meet", "meet", "collinear", "parallel", "twin"])) if out else "free"
        a, b = lift(draw(point)), lift(draw(point))
        if kind != "free":
            p, q = out[draw(st.integers(0, len(out) - 1))]
            u = exact.sub(q, p)
            at = lambda k: exact.add(p, exact.mul(exact.F(k, 4), u))
            if kind == "meet":
                x = at(draw(st.integers(-1, 5)))
                d = exact.mul(exact.F(1, 2), exact.sub(b, a))
                k = draw(st.sampled_from([0, 1, 2, 3]))
                a = exact.sub(x, exact.mul(exact.F(k, 2), d))
                b = exact.add(x, exact.mul(exact.F(3 - k, 2), d))
            elif kind == "collinear":
                k, l = draw(st.integers(-3, 7)), draw(st.integers(-3, 7))
                a, b = at(k), at(l)
            elif kind == "parallel":
                o = exact.mul(exact.F(1, 2), exact.vec(a))
                a, b = exact.add(p, o), exact.add(at(draw(st.integers(-3, 7))), o)
            elif kind == "twin":
                a, b = (p, q) if draw(st.booleans()) else (q, p)
            if draw(st.integers(0, 3)) == 0:
                # a near miss: off by a little, or turned by a little
                e = exact.F(1, 2 ** draw(exact.fineness(3, 4)))
                da, db = lift(draw(point)), lift(draw(point))
                a = exact.add(a, exact.mul(e, da))
                b = exact.add(b, exact.mul(e, draw(st.sampled_from([da, db]))))
        a, b = exact.vec(a), exact.vec(b)
        if a == b:
            b = exact.add(a, (1, 1, 0))
        out.append((a, b))
    ser = lambda p: [str(x) for x in p]
    return {"segments": [[ser(a), ser(b)] for a, b in out], "frame": draw(exact.frames())}


def load(case):
    segs = [tuple(exact.vec(exact.F(x) for x in p) for p in s) for s in case["segments"]]
    img = exact.apply_frame(case["frame"], [p for s in segs for p in s]).reshape(-1, 2, 3)
    return segs, img


def gap(a, b, c, d):
    """Distance of two segments that do not meet."""
    def to(p, x, y):
        u = y - x
        return np.linalg.norm(p - x - np.clip((p - x) @ u / (u @ u), 0, 1) * u)

    near = [to(a, c, d), to(b, c, d), to(c, a, b), to(d, a, b)]
    w = np.cross(b - a, d - c)
    if w @ w > 0:
        s = np.cross(c - a, d - c) @ w / (w @ w)
        t = np.cross(c - a, b - a) @ w / (w @ w)
        if 0 <= s <= 1 and 0 <= t <= 1:
            near.append(abs((c - a) @ w) / np.sqrt(w @ w))
    return min(near)


def near_tie(segs, img):
    """Whether two segments miss each other by less than can be told from a meeting."""
    for i in range(len(segs)):
        for j in range(i):
            if not exact.segment_segment(*segs[i], *segs[j]) and gap(*img[i], *img[j]) < 1e-7:
                return True
    return False


def reference(s, t):
    """Tool s, object t."""
    x = exact.segment_segment(*s, *t)
    inside = len(x) == 2 and set(x) == set(s)
    return x, inside


@subcheck(
    "C12",
    "pair",
    segments(),
    quick=3000,
    thorough=80000,
    rule="line_line_intersection in both argument orders and with reversed segments on crossing, touching, overlapping, parallel, skew and disjoint segments in space, exact rational reference; non-trivial: some pair meets",
)
def pair(case, ctx):
    from geometry.operations.line_geometry_operations import line_line_intersection

    segs, img = load(case)
    fr = case["frame"]
    if near_tie(segs, img):
        ctx.event("near tie")
        return
    for i in range(len(segs)):
        for j in range(len(segs)):
            if i == j:
                continue
            x, inside = reference(segs[i], segs[j])
            want = exact.apply_frame(fr, x)
            ctx.mark(bool(x))
            ctx.event("%d common" % len(x))
            for r in (1, -1):
                out = line_line_intersection(*img[i][::r].copy(), *img[j].copy())
                check_points(flat(out), want, inside, "segments %s and %s" % (img[i].tolist(), img[j].tolist()))


def as_set(points):
    out = []
    for p in points:
        if not any(np.abs(p - q).max() < TOL for q in out):
            out.append(p)
    return out


@subcheck(
    "C12",
    "bulk",
    segments(),
    quick=2500,
    thorough=60000,
    rule="lines_line_intersection and lines_lines_intersection (with and without deduplication) on families of segments, exact reference; a segment is not intersected with itself; non-trivial: some pair meets",
)
def bulk(case, ctx):
    from geometry.operations.line_geometry_operations import (
        lines_line_intersection, lines_lines_intersection,
    )

    segs, img = load(case)
    fr = case["frame"]
    if near_tie(segs, img):
        ctx.event("near tie")
        return
    n = len(segs)
    tools = np.array(img[1:])
    got = flat(lines_line_intersection(tools.copy(), *img[0].copy()))
    expected = [reference(segs[k], segs[0]) for k in range(1, n)]
    ctx.mark(any(x for x, _ in expected))
    check_family(got, [(exact.apply_frame(fr, x), c) for x, c in expected], "segments on a segment")

    outs = lines_lines_intersection(img.copy(), img.copy())
    if len(outs) != n:
        raise Violation("%d objects but %d results" % (n, len(outs)))
    everything = []
    for j in range(n):
        exp = []
        for k in range(n):
            if segs[k] == segs[j]:
                continue
            x, c = reference(segs[k], segs[j])
            exp.append((exact.apply_frame(fr, x), c))
        got = flat(outs[j]) if len(outs[j]) else np.empty((0, 3))
        check_family(got, exp, "segments %s on segment %d" % (img.tolist(), j))
        everything += list(got)
    ctx.mark(len(everything) > 0)
    unique = np.asarray(lines_lines_intersection(img.copy(), img.copy(), deduplicate_points_q=True))
    if unique.ndim != 2 or unique.shape[1] != 3:
        raise Violation("deduplicated points have shape %s" % (unique.shape,))
    want = as_set(everything)
    if len(as_set(unique)) != len(unique) or len(unique) != len(want) or not all(contains(unique, w) for w in want):
        raise Violation("deduplicated points %s, expected the set %s" % (unique.tolist(), want))


def check_family(got, expected, what):
    """Every meeting is represented, and every reported point is explained."""
    for want, contained in expected:
        if len(want) == 0:
            continue
        if len(want) == 1:
            if not contains(got, want[0]):
                raise Violation("%s: the common point %s is missing from %s" % (what, want[0], got.tolist()))
        else:
            near = [g for g in got if on_overlap(g, want)]
            if not near or (contained and not all(contains(np.array(near), w) for w in want)):
                raise Violation("%s: the overlap %s is missing from %s" % (what, want.tolist(), got.tolist()))
    for g in got:
        if not any(
            (len(w) == 1 and np.abs(g - w[0]).max() < TOL) or (len(w) == 2 and on_overlap(g, w))
            for w, _ in expected
        ):
            raise Violation("%s: %s is not a common point" % (what, g))


def on_overlap(g, want):
    d = want[1] - want[0]
    t = (g - want[0]) @ d / (d @ d)
    return np.abs(want[0] + t * d - g).max() < TOL and -TOL < t < 1 + TOL
