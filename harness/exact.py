"""Exact (rational) planar and spatial predicates: the geometry oracle.

Cases are drawn on small integer lattices and mapped to space by an integer
affine frame, so that whether two things touch is decided exactly; only the
image under a float rigid motion is handed to the code under test.
"""

import math
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st


# -- rational vectors ------------------------------------------------------


def vec(p):
    return tuple(F(x) for x in p)


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def mul(s, a):
    return tuple(s * x for x in a)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    )


def cross2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def orient2(a, b, c):
    return cross2(sub(b, a), sub(c, a))


def zero(a):
    return all(x == 0 for x in a)


# -- segments in space -----------------------------------------------------


def on_segment(p, a, b):
    """p on the closed segment ab (a != b), any dimension 2 or 3."""
    d, e = sub(b, a), sub(p, a)
    if len(d) == 2:
        if cross2(d, e) != 0:
            return False
    elif not zero(cross(d, e)):
        return False
    t = dot(e, d)
    return 0 <= t <= dot(d, d)


def line_param(p, a, b):
    d = sub(b, a)
    return dot(sub(p, a), d) / F(dot(d, d))


def segment_segment(a, b, c, d):
    """Intersection of two closed non-degenerate segments in 3D (or 2D padded):
    [] , [p] or [p, q] (overlap, ordered along ab)."""
    u, v, w = sub(b, a), sub(d, c), sub(c, a)
    n = cross(u, v)
    if zero(n):
        if not zero(cross(u, w)):
            return []
        tc, td = line_param(c, a, b), line_param(d, a, b)
        lo, hi = max(F(0), min(tc, td)), min(F(1), max(tc, td))
        if lo > hi:
            return []
        if lo == hi:
            return [add(a, mul(lo, u))]
        return [add(a, mul(lo, u)), add(a, mul(hi, u))]
    if dot(w, n) != 0:
        return []
    nn = dot(n, n)
    t = F(dot(cross(w, v), n)) / nn
    s = F(dot(cross(w, u), n)) / nn
    if 0 <= t <= 1 and 0 <= s <= 1:
        return [add(a, mul(t, u))]
    return []


# -- polygons in the plane -------------------------------------------------


def area2(poly):
    n = len(poly)
    return sum(cross2(poly[i], poly[(i + 1) % n]) for i in range(n))


def in_polygon(p, poly):
    """0 outside, 1 boundary, 2 interior (simple polygon, exact)."""
    n = len(poly)
    inside = False
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        if on_segment(p, a, b):
            return 1
        if (a[1] > p[1]) != (b[1] > p[1]):
            x = a[0] + F(p[1] - a[1]) * F(b[0] - a[0]) / F(b[1] - a[1])
            if p[0] < x:
                inside = not inside
    return 2 if inside else 0


def is_simple(poly):
    n = len(poly)
    if n < 3 or len(set(poly)) != n or area2(poly) == 0:
        return False
    pad = lambda p: (p[0], p[1], 0)
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        for j in range(i + 1, n):
            c, d = poly[j], poly[(j + 1) % n]
            x = segment_segment(pad(a), pad(b), pad(c), pad(d))
            if j == i + 1 or (i == 0 and j == n - 1):
                if len(x) != 1:
                    return False
            elif x:
                return False
    return True


def strictly_convex(poly):
    n = len(poly)
    s = {
        (orient2(poly[i], poly[(i + 1) % n], poly[(i + 2) % n]) > 0)
        - (orient2(poly[i], poly[(i + 1) % n], poly[(i + 2) % n]) < 0)
        for i in range(n)
    }
    return len(s) == 1 and 0 not in s


def has_flat_vertex(poly):
    n = len(poly)
    return any(
        orient2(poly[i], poly[(i + 1) % n], poly[(i + 2) % n]) == 0 for i in range(n)
    )


def hull(points):
    pts = sorted(set(points))
    if len(pts) < 3:
        return []

    def half(ps):
        out = []
        for p in ps:
            while len(out) > 1 and orient2(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]

    h = half(pts) + half(pts[::-1])
    return h if len(h) >= 3 and area2(h) != 0 else []


def segment_polygon(p, q, poly):
    """Extremes of segment pq (3D, parameter space) with the polygon in z=0:
    [] / [t] / [t0, t1], parameters along pq, plus whether the set between the
    extremes is connected."""
    zp, zq = p[2], q[2]
    d = sub(q, p)
    if zp == 0 and zq == 0:
        ts = {F(0), F(1)}
        n = len(poly)
        for i in range(n):
            a, b = poly[i] + (0,), poly[(i + 1) % n] + (0,)
            for x in segment_segment(p, q, vec(a), vec(b)):
                ts.add(line_param(x, p, q))
        ts = sorted(ts)
        pt = lambda t: add(p, mul(t, d))[:2]
        hit = [t for t in ts if in_polygon(pt(t), poly)]
        if not hit:
            return []
        return [hit[0]] if hit[0] == hit[-1] else [hit[0], hit[-1]]
    if zp == zq or zp * zq > 0:
        return []
    t = F(zp) / F(zp - zq)
    x = add(p, mul(t, d))[:2]
    return [t] if in_polygon(x, poly) else []


# -- strategies ------------------------------------------------------------

coord = st.integers(-4, 4)


def fineness(*coarse):
    """Exponents of a power of two: features of order one, or just not touching."""
    return st.sampled_from(list(coarse or (1, 1)) * 2 + [6, 10, 14])


def point2():
    return st.tuples(coord, coord)


def point3():
    return st.tuples(coord, coord, coord)


@st.composite
def convex_polygons(draw):
    kind = draw(st.sampled_from(["hull", "rect", "para", "rhombus", "trapezoid", "triangle"]))
    if kind == "rect":
        x, y, w, h = draw(st.tuples(st.integers(-4, 0), st.integers(-4, 0), st.integers(1, 4), st.integers(1, 4)))
        p = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
    elif kind == "para":
        o = draw(st.tuples(st.integers(-2, 1), st.integers(-2, 1)))
        e = draw(st.tuples(st.integers(-2, 3), st.integers(-2, 3)))
        f = draw(st.tuples(st.integers(-2, 3), st.integers(-2, 3)))
        p = [o, add(o, e), add(add(o, e), f), add(o, f)]
    elif kind == "rhombus":
        o = draw(st.tuples(st.integers(-1, 1), st.integers(-1, 1)))
        a, b = draw(st.integers(1, 3)), draw(st.integers(1, 3))
        p = [(o[0] + a, o[1]), (o[0], o[1] + b), (o[0] - a, o[1]), (o[0], o[1] - b)]
    elif kind == "trapezoid":
        x0, x1, x2, x3 = sorted(draw(st.lists(coord, min_size=4, max_size=4)))
        p = [(x0, 0), (x3, 0), (x2, 2), (x1, 2)]
    else:
        n = 3 if kind == "triangle" else draw(st.integers(4, 7))
        p = hull(draw(st.lists(point2(), min_size=n, max_size=n, unique=True)))
    if not p or len(set(p)) != len(p) or area2(p) == 0 or not strictly_convex(p):
        p = [(-2, -1), (3, -1), (1, 2)]
    if draw(st.booleans()):
        p = p[::-1]
    k = draw(st.integers(0, len(p) - 1))
    return [tuple(int(x) for x in v) for v in p[k:] + p[:k]]


@st.composite
def simple_polygons(draw, convex=None):
    """Strictly convex, star-shaped or rectilinear ("histogram") polygons."""
    kind = draw(st.sampled_from(["convex", "star", "star", "histogram", "flat", "arms"]))
    if convex or kind == "convex":
        return draw(convex_polygons())
    p = []
    if kind == "star":
        pts = draw(st.lists(point2(), min_size=4, max_size=8, unique=True))
        best = {}
        for q in pts:
            if q == (0, 0):
                continue
            g = math.gcd(abs(q[0]), abs(q[1]))
            best.setdefault((q[0] // g, q[1] // g), q)
        p = [best[d] for d in sorted(best, key=lambda d: math.atan2(d[1], d[0]))]
    elif kind == "histogram":
        hs = draw(st.lists(st.integers(1, 6), min_size=2, max_size=4))
        x0 = draw(st.integers(-4, -1))
        p = [(x0, -3)]
        p += [(x0 + 2 * len(hs), -3)]
        x = x0 + 2 * len(hs)
        for h in hs[::-1]:
            p += [(x, -3 + h), (x - 2, -3 + h)]
            x -= 2
        q = []
        for v in p:
            if v not in q:
                q.append(v)
        p = q
    elif kind == "arms":
        # thin arms reaching past each other: Delaunay edges leave the polygon
        a, b, c = draw(st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 3)))
        p = [(-4, -4), (4, -4), (4, -4 + b), (4 - c, -3), (-3, -3), (-4 + c - 1, 4 - a + 1), (-4, 4)]
    else:
        base = draw(convex_polygons())
        p = []
        for i, v in enumerate(base):
            w = base[(i + 1) % len(base)]
            p.append(v)
            if (v[0] + w[0]) % 2 == 0 and (v[1] + w[1]) % 2 == 0 and draw(st.booleans()):
                p.append(((v[0] + w[0]) // 2, (v[1] + w[1]) // 2))
        return p
    if not is_simple(p):
        p = [(-3, -3), (3, -3), (3, 3), (0, -1), (-3, 3)]
    if draw(st.booleans()):
        p = p[::-1]
    k = draw(st.integers(0, len(p) - 1))
    return [tuple(int(x) for x in v) for v in p[k:] + p[:k]]


@st.composite
def frames(draw):
    """Integer affine frame o + x u + y v + z w, float rotation, scale, shift."""
    kind = draw(st.sampled_from(["xy", "xy", "axes", "shear"]))
    if kind == "xy":
        m = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    elif kind == "axes":
        perm = draw(st.permutations([0, 1, 2]))
        sg = draw(st.tuples(*[st.sampled_from([1, -1])] * 3))
        m = [[0, 0, 0] for _ in range(3)]
        for i, j in enumerate(perm):
            m[i][j] = sg[i]
    else:
        m = [list(draw(st.tuples(*[st.integers(-1, 1)] * 3))) for _ in range(3)]
        d = dot(cross(m[0], m[1]), m[2])
        if d == 0:
            m = [[1, 0, 1], [0, 1, 1], [0, 0, 1]]
    if kind == "axes" and draw(st.integers(0, 2)) == 0:
        # far from the origin, exact in floating point
        return {"m": m, "angles": None, "scale": 0.25, "shift": [1024, 768, -512]}
    return {
        "m": m,
        "angles": draw(st.sampled_from([None, None, [0.3, 0.0, 0.0], [0.7, -0.4, 1.1], [2.0, 1.0, 0.2]])),
        "scale": draw(st.sampled_from([0.25, 0.25, 0.125, 0.5])),
        "shift": draw(st.sampled_from([[0, 0, 0], [0, 0, 0], [1, 2, 3], [-0.3, 0.7, 0.1]])),
    }


def apply_frame(fr, pts):
    """Float images of (exact) points with 2 or 3 parameter coordinates."""
    pts = [tuple(p) + (0,) * (3 - len(p)) for p in pts]
    x = np.array([[float(c) for c in p] for p in pts], dtype=float).reshape(-1, 3)
    y = x @ np.array(fr["m"], dtype=float) * fr["scale"]
    if fr["angles"] is not None:
        y = y @ rotation(fr["angles"]).T
    return y + np.array(fr["shift"], dtype=float)


def pull_back(fr, y):
    """Parameter coordinates (floats) of points in space."""
    x = np.asarray(y, dtype=float) - np.array(fr["shift"], dtype=float)
    if fr["angles"] is not None:
        x = x @ rotation(fr["angles"])
    return (x / fr["scale"]) @ np.linalg.inv(np.array(fr["m"], dtype=float))


def rotation(angles):
    a, b, c = angles
    rx = np.array([[1, 0, 0], [0, math.cos(a), -math.sin(a)], [0, math.sin(a), math.cos(a)]])
    ry = np.array([[math.cos(b), 0, math.sin(b)], [0, 1, 0], [-math.sin(b), 0, math.cos(b)]])
    rz = np.array([[math.cos(c), -math.sin(c), 0], [math.sin(c), math.cos(c), 0], [0, 0, 1]])
    return rx @ ry @ rz
