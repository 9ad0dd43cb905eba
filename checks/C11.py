"""C11 - point incidence with segments, triangles and polygons."""

import numpy as np
from hypothesis import strategies as st

from harness import exact
from harness.core import Violation, subcheck

TITLE = "A point is reported on a segment, triangle or polygon exactly when it is"
ASSUMPTIONS = ["coordinates of order one; features and gaps far larger than the 1e-10 tolerance; simple planar polygons"]
TOL = 1e-9


def point_case(p, out, expected, what):
    if expected:
        if not isinstance(out, np.ndarray) or out.shape != (3,):
            raise Violation("%s: a point on it is not reported (got %r)" % (what, out))
        if np.abs(out - p).max() > TOL:
            raise Violation("%s: reported at %s, the point is %s" % (what, out, p))
    elif out is not None:
        raise Violation("%s: a point off it is reported as %r" % (what, out))


def bulk_case(points, result, expected, what):
    hits, mask = result
    mask = np.asarray(mask)
    if mask.shape != (len(points),) or mask.dtype != bool:
        raise Violation("%s: mask %r for %d points" % (what, mask, len(points)))
    if [bool(m) for m in mask] != [bool(e) for e in expected]:
        raise Violation("%s: mask %s, expected %s" % (what, mask.tolist(), expected))
    want = points[np.array(expected, dtype=bool)]
    if len(want) != len(hits) or (len(want) and np.abs(np.asarray(hits) - want).max() > TOL):
        raise Violation("%s: hits %s are not the points of the mask in order" % (what, hits))


def same_tolerance(single, bulk, P, shape, eps=1.0e-2):
    """A tolerance given by the caller reaches the bulk form as well."""
    one = [single(p.copy(), *shape, eps=eps) is not None for p in P]
    mask = np.asarray(bulk(P.copy(), *shape, eps=eps)[1]).tolist()
    if one != mask:
        raise Violation("with eps=%g the points one by one are %s, all at once %s" % (eps, one, mask))


@st.composite
def segment_cases(draw):
    a = draw(exact.point3())
    d = draw(st.tuples(*[st.integers(-4, 4)] * 3).filter(any))
    # lattice points a+2k d/.. on and around the carrier line, and anything else
    k = draw(st.lists(st.integers(-3, 7), min_size=0, max_size=4))
    off = draw(st.lists(st.tuples(st.integers(0, 4), exact.point3(), exact.fineness()), min_size=0, max_size=3))
    return {
        "a": a, "d": d, "k": k, "off": off,
        "others": draw(st.lists(exact.point3(), min_size=1, max_size=2)),
        "frame": draw(exact.frames()), "ba": draw(st.booleans()),
    }


@subcheck(
    "C11",
    "segment",
    segment_cases(),
    quick=3000,
    thorough=60000,
    rule="point_line_intersection, its bulk form and points_line_argsort for lattice points on, beyond, beside and off a segment in space, exact rational reference; non-trivial: at least one point on and one off",
)
def segment(case, ctx):
    from geometry.operations.point_geometry_operations import (
        point_line_intersection, points_line_argsort, points_line_intersection,
    )

    a, d = exact.vec(case["a"]), exact.vec(case["d"])
    b = exact.add(a, d)
    pts = [exact.add(a, exact.mul(exact.F(k, 4), d)) for k in case["k"]]
    pts += [exact.add(exact.add(a, exact.mul(exact.F(k, 4), d)), exact.mul(exact.F(1, 2**e), o)) for k, o, e in case["off"]]
    pts += [exact.vec(p) for p in case["others"]]
    expected = [exact.on_segment(p, a, b) for p in pts]
    fr = case["frame"]
    A, B = exact.apply_frame(fr, [a, b])
    P = exact.apply_frame(fr, pts)
    ctx.mark(any(expected) and not all(expected))
    for p, x in zip(P, expected):
        for s, t in ((A, B), (B, A)):
            point_case(p, point_line_intersection(p.copy(), s.copy(), t.copy()), x, "segment")
    bulk_case(P, points_line_intersection(P.copy(), A.copy(), B.copy()), expected, "points on a segment")
    same_tolerance(point_line_intersection, points_line_intersection, P, (A, B))
    # ordering along the segment
    on = P[np.array(expected, dtype=bool)]
    if len(on):
        t = [exact.line_param(p, a, b) for p, x in zip(pts, expected) if x]
        idx = np.asarray(points_line_argsort(on.copy(), A, B, case["ba"]))
        if sorted(idx.tolist()) != list(range(len(on))):
            raise Violation("argsort along a segment is not a permutation: %s" % idx)
        s = [t[i] for i in idx]
        if case["ba"]:
            s = [-x for x in s]
        if any(x > y for x, y in zip(s, s[1:])):
            raise Violation("points are not ordered along the segment (from %s): %s" % ("b" if case["ba"] else "a", [float(x) for x in s]))


@st.composite
def polygon_cases(draw, triangle=False):
    if triangle:
        poly = draw(exact.convex_polygons())[:3]
    else:
        poly = draw(exact.simple_polygons())
    n = len(poly)
    return {
        "poly": poly,
        "edge": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(-2, 6)), max_size=3)),
        "diag": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.integers(-1, 5)), max_size=2)),
        "free": draw(st.lists(st.tuples(st.integers(-13, 13), st.integers(-13, 13)), min_size=1, max_size=3)),
        "z": draw(st.lists(st.sampled_from([0, 0, 0, 0, 1, -1, 2]), min_size=8, max_size=8)),
        "nudge": draw(st.lists(st.tuples(st.integers(-1, 1), st.integers(-1, 1)), min_size=8, max_size=8)),
        "fine": draw(exact.fineness(1, 2)), "zfine": draw(exact.fineness(0)),
        "centre": draw(st.booleans()),
        "frame": draw(exact.frames()),
    }


def query_points(case):
    poly = [exact.vec(p) for p in case["poly"]]
    n = len(poly)
    q = []
    for i, k in case["edge"]:
        a, b = poly[i], poly[(i + 1) % n]
        q.append(exact.add(a, exact.mul(exact.F(k, 4), exact.sub(b, a))))
    for i, j, k in case["diag"]:
        q.append(exact.add(poly[i], exact.mul(exact.F(k, 4), exact.sub(poly[j], poly[i]))))
    q += [exact.mul(exact.F(1, 3), p) for p in case["free"]]
    if case["centre"]:
        q.append(tuple(sum(c) / exact.F(n) for c in zip(*poly)))
    # some points lie just beside the spot drawn, in the plane or off it
    q = [exact.add(p, exact.mul(exact.F(i % 2, 2 ** case["fine"]), case["nudge"][i % 8])) for i, p in enumerate(q)]
    pts = [p + (exact.F(case["z"][i % 8], 2 ** case["zfine"]),) for i, p in enumerate(q)]
    expected = [p[2] == 0 and exact.in_polygon(p[:2], poly) > 0 for p in pts]
    return poly, pts, expected


@subcheck(
    "C11",
    "triangle",
    polygon_cases(triangle=True),
    quick=2500,
    thorough=50000,
    rule="point_triangle_intersection and its bulk form: points on vertices, edges, edge extensions, in the interior, in the plane and off it, exact reference; non-trivial: at least one point on and one off",
)
def triangle(case, ctx):
    from geometry.operations.point_geometry_operations import (
        point_triangle_intersection, points_triangle_intersection,
    )

    poly, pts, expected = query_points(case)
    fr = case["frame"]
    T = exact.apply_frame(fr, poly)
    P = exact.apply_frame(fr, pts)
    ctx.mark(any(expected) and not all(expected))
    for p, x in zip(P, expected):
        for r in range(3):
            a, b, c = np.roll(T, r, axis=0)
            point_case(p, point_triangle_intersection(p.copy(), a, b, c), x, "triangle")
    bulk_case(P, points_triangle_intersection(P.copy(), *T), expected, "points on a triangle")
    same_tolerance(point_triangle_intersection, points_triangle_intersection, P, tuple(T))


@subcheck(
    "C11",
    "polygon",
    polygon_cases(),
    quick=2500,
    thorough=50000,
    rule="point_polygon_intersection and its bulk form on convex, star-shaped, rectilinear and flat-vertex polygons in any plane, exact even-odd reference; non-trivial: at least one point on and one off",
)
def polygon(case, ctx):
    from geometry.operations.point_geometry_operations import (
        point_polygon_intersection, points_polygon_intersection,
    )

    poly, pts, expected = query_points(case)
    fr = case["frame"]
    G = exact.apply_frame(fr, poly)
    P = exact.apply_frame(fr, pts)
    ctx.mark(any(expected) and not all(expected))
    ctx.event("convex" if exact.strictly_convex(poly) else "not convex")
    for p, x in zip(P, expected):
        point_case(p, point_polygon_intersection(p.copy(), G.copy()), x, "polygon %s" % (case["poly"],))
    bulk_case(P, points_polygon_intersection(P.copy(), G.copy()), expected, "points on a polygon")
    same_tolerance(point_polygon_intersection, points_polygon_intersection, P, (G,))
