"""C13 - polygons: normal, convexity, triangulation, intersections with segments."""

import numpy as np
from hypothesis import strategies as st

from checks.C12 import as_set, flat
from harness import exact
from harness.core import Violation, subcheck

TITLE = "Polygons are triangulated exactly and cut segments where they should"
ASSUMPTIONS = ["simple planar polygons with coordinates of order one; features far larger than the 1e-10 tolerance"]
TOL = 1e-9


@st.composite
def polygon_cases(draw):
    poly = draw(exact.simple_polygons())
    return {
        "poly": poly,
        "probe": draw(st.lists(st.tuples(st.integers(-4000, 4000), st.integers(-4000, 4000)), min_size=3, max_size=8)),
        "frame": draw(exact.frames()),
        "pow": draw(st.integers(-30, 12)),
    }


@subcheck(
    "C13",
    "triangulation",
    polygon_cases(),
    quick=3000,
    thorough=60000,
    rule="polygon_normal, convex_q, winding_number, triangulate_polygon and triangulate_convex_polygon on convex, star-shaped, rectilinear and flat-vertex polygons of both orientations in any plane: areas add up, random points are covered once, no triangle leaves the polygon; the polygon scaled by a power of two has the same normal, convexity and triangles; non-trivial: every case",
)
def triangulation(case, ctx):
    from geometry.operations import polygon_geometry_operations as ops

    poly = [exact.vec(p) for p in case["poly"]]
    fr = case["frame"]
    G = exact.apply_frame(fr, poly)
    ctx.mark()
    convex = exact.strictly_convex(poly)
    ctx.event("convex" if convex else "not convex")
    normal = np.asarray(ops.polygon_normal(G.copy()), dtype=float)
    u, v = exact.apply_frame(fr, [(0, 0), (1, 0), (0, 1)])[1:] - exact.apply_frame(fr, [(0, 0)])
    ref = np.cross(u, v)
    area_scale = np.linalg.norm(ref)
    ref /= area_scale
    if normal.shape != (3,) or min(np.abs(normal - ref).max(), np.abs(normal + ref).max()) > 1e-9:
        raise Violation("polygon_normal of %s is %s, the plane has normal %s" % (case["poly"], normal, ref))
    if not exact.has_flat_vertex(poly):
        q = ops.convex_q(G.copy())
        if bool(q) != convex:
            raise Violation("convex_q of %s is %s" % (case["poly"], q))
    # scaling by a power of two is exact: nothing may change but the scale
    big = 2.0 ** case["pow"]
    scaled = np.asarray(ops.polygon_normal(G * big), dtype=float)
    if scaled.shape != (3,) or np.abs(scaled - normal).max() > 1e-9:
        raise Violation("polygon_normal of %s is %s, scaled by 2^%d %s" % (case["poly"], normal, case["pow"], scaled))
    if not exact.has_flat_vertex(poly):
        if bool(ops.convex_q(G * big)) != bool(ops.convex_q(G.copy())):
            raise Violation("convex_q of %s scaled by 2^%d changes" % (case["poly"], case["pow"]))
        a, b = (np.asarray(ops.triangulate_polygon(x), dtype=float) for x in (G * big, G.copy()))
        if a.shape != b.shape or np.abs(a / big - b).max() > 1e-9 * (1 + np.abs(b).max()):
            raise Violation("triangles of %s scaled by 2^%d change" % (case["poly"], case["pow"]))
    # planar winding number (only the first two coordinates count)
    W = np.array([[float(x) for x in p] for p in poly])
    for p in case["probe"]:
        x = (exact.F(2 * p[0] + 1, 1501), exact.F(2 * p[1] + 1, 1499))
        where = exact.in_polygon(x, poly)
        if where == 1:
            continue
        sign = 1 if exact.area2(poly) > 0 else -1
        w = ops.winding_number(np.array([float(c) for c in x]), W.copy())
        if w != (sign if where else 0):
            raise Violation("winding number of %s around a point %s it is %d" % (case["poly"], "inside" if where else "outside", w))

    runs = [("triangulate_polygon", ops.triangulate_polygon)]
    if convex:
        runs.append(("triangulate_convex_polygon", ops.triangulate_convex_polygon))
    for name, f in runs:
        T = np.asarray(f(G.copy()), dtype=float)
        if T.ndim != 3 or T.shape[1:] != (3, 3):
            raise Violation("%s returns an array of shape %s" % (name, T.shape))
        X = exact.pull_back(fr, T.reshape(-1, 3)).reshape(-1, 3, 3)
        if np.abs(X[:, :, 2]).max() > 1e-8:
            raise Violation("%s: triangles leave the plane of the polygon" % name)
        # lattice vertices or the mean of the vertices: recover them exactly
        n = len(poly)
        cen = tuple(sum(c) / exact.F(n) for c in zip(*poly))
        tris = []
        for t in X:
            tri = []
            for x in t:
                best = min(poly + [cen], key=lambda p: abs(float(p[0]) - x[0]) + abs(float(p[1]) - x[1]))
                if abs(float(best[0]) - x[0]) + abs(float(best[1]) - x[1]) > 1e-7:
                    raise Violation("%s: %s is neither a vertex nor the centre" % (name, x))
                tri.append(best)
            tris.append(tri)
        areas = [abs(exact.area2(t)) for t in tris]
        if any(a == 0 for a in areas):
            raise Violation("%s of %s has a flat triangle" % (name, case["poly"]))
        if sum(areas) != abs(exact.area2(poly)):
            raise Violation("%s of %s covers area %s of %s" % (name, case["poly"], float(sum(areas)), float(abs(exact.area2(poly)))))
        for t in tris:
            c = tuple(sum(x) / exact.F(3) for x in zip(*t))
            if not exact.in_polygon(c, poly):
                raise Violation("%s of %s has a triangle outside" % (name, case["poly"]))
        for p in case["probe"]:
            x = (exact.F(2 * p[0] + 1, 1501), exact.F(2 * p[1] + 1, 1499))
            inside = [exact.in_polygon(x, t) for t in tris]
            if 1 in inside or exact.in_polygon(x, poly) == 1:
                continue
            if sum(i == 2 for i in inside) != (1 if exact.in_polygon(x, poly) else 0):
                raise Violation("%s of %s covers a point %d times" % (name, case["poly"], sum(i == 2 for i in inside)))


@st.composite
def line_cases(draw, triangle=False):
    poly = draw(exact.convex_polygons())[:3] if triangle else draw(exact.simple_polygons())
    n = len(poly)
    V = [exact.vec(p) for p in poly]
    anchors = V + [exact.mul(exact.F(1, 2), exact.add(V[i], V[(i + 1) % n])) for i in range(n)]
    anchors.append(tuple(sum(c) / exact.F(n) for c in zip(*V)))
    lines = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["plane", "plane", "plane", "cross", "cross", "touch", "free", "parallel", "edge"]))
        anc = lambda: (
            anchors[draw(st.integers(0, len(anchors) - 1))]
            if draw(st.booleans())
            else exact.mul(exact.F(1, 3), exact.vec(draw(st.tuples(st.integers(-14, 14), st.integers(-14, 14)))))
        )
        if kind == "edge":
            i = draw(st.integers(0, n - 1))
            d = exact.sub(V[(i + 1) % n], V[i])
            k, l = draw(st.integers(-2, 6)), draw(st.integers(-2, 6))
            p, q = exact.add(V[i], exact.mul(exact.F(k, 4), d)), exact.add(V[i], exact.mul(exact.F(l, 4), d))
        else:
            p, q = anc(), anc()
        if p == q:
            q = exact.add(p, (exact.F(1), exact.F(2)))
        z = {"plane": (0, 0), "edge": (0, 0), "touch": (0, 1), "parallel": (1, 1)}.get(kind)
        if kind == "cross":
            z = (draw(st.sampled_from([-2, -1])), draw(st.sampled_from([1, 2])))
            if draw(st.booleans()):
                # through an anchor point
                x = p
                # from far away to just beyond, or just before, the plane
                far, near = draw(st.sampled_from([(1, 1), (1, 1), (1, 1), (512, 1), (64, exact.F(1, 1024)), (256, exact.F(1, 8192)), (64, exact.F(-1, 512))]))
                d = exact.sub(q, p) + (exact.F(1, 2 ** draw(exact.fineness(0)) if far == 1 else 1),)
                p, q = exact.sub(x + (exact.F(0),), exact.mul(far, d)), exact.add(x + (exact.F(0),), exact.mul(near, d))
                lines.append((p, q))
                continue
        elif kind == "free":
            z = (draw(exact.coord), draw(exact.coord))
        # nearly parallel to the plane, or just off it
        fine = draw(exact.fineness(0))
        if draw(st.integers(0, 3)) == 0:
            near = draw(exact.fineness(2, 3))
            # close to an edge and nearly parallel: within the tolerance of that edge
            fine = min(fine, 20 - near)
            p = exact.add(p, exact.mul(exact.F(1, 2 ** near), draw(exact.point2())))
            if p == q:
                q = exact.add(p, (exact.F(1), exact.F(2)))
        fine = exact.F(1, 2**fine)
        p, q = p + (fine * z[0],), q + (fine * z[1],)
        if draw(st.booleans()):
            p, q = q, p
        lines.append((p, q))
    ser = lambda p: [str(x) for x in p]
    return {"poly": poly, "lines": [[ser(p), ser(q)] for p, q in lines], "frame": draw(exact.frames())}


def load(case):
    poly = [exact.vec(p) for p in case["poly"]]
    lines = [tuple(exact.vec(exact.F(x) for x in p) for p in l) for l in case["lines"]]
    fr = case["frame"]
    G = exact.apply_frame(fr, poly)
    L = exact.apply_frame(fr, [p for l in lines for p in l]).reshape(-1, 2, 3)
    want = []
    for p, q in lines:
        ts = exact.segment_polygon(p, q, poly)
        d = exact.sub(q, p)
        want.append(exact.apply_frame(fr, [exact.add(p, exact.mul(t, d)) for t in ts]) if ts else np.empty((0, 3)))
    return poly, lines, G, L, want


def same_set(got, want):
    got = as_set(got)
    return len(got) == len(want) and all(min(np.abs(g - w).max() for g in got) < TOL for w in want)


@subcheck(
    "C13",
    "segment_triangle",
    line_cases(triangle=True),
    quick=3000,
    thorough=60000,
    rule="line_triangle_intersection (all vertex orders) and its bulk form for segments in, across, touching, parallel to and off the plane, exact reference of the common point or the two ends of the common segment; non-trivial: some segment meets the triangle",
)
def segment_triangle(case, ctx):
    from geometry.operations.line_geometry_operations import (
        line_triangle_intersection, lines_triangle_intersection,
    )

    poly, lines, G, L, want = load(case)
    ctx.mark(any(len(w) for w in want))
    hits, mask = lines_triangle_intersection(L.copy(), *G)
    check_bulk(hits, mask, L, want, lambda l: line_triangle_intersection(l, *G))
    for i in order(poly, lines):
        l, w = L[i], want[i]
        ctx.event("%d common" % len(w))
        for r in range(3):
            out = line_triangle_intersection(l.copy(), *np.roll(G, r, axis=0))
            check_line(out, l, w, "triangle %s" % G.tolist(), ends_inside(poly, lines[i]), G)


def check_bulk(hits, mask, L, want, single):
    """The bulk form returns what the segments that meet the polygon return one by one."""
    check_mask(mask, want)
    if len(hits) != int(np.sum(mask)):
        raise Violation("%d results for the mask %s" % (len(hits), list(mask)))
    for hit, l in zip(hits, L[np.array(mask, dtype=bool)]):
        one = single(l.copy())
        if np.shape(hit) != np.shape(one) or np.abs(np.asarray(hit, dtype=float) - one).max(initial=0.0) > TOL:
            raise Violation("bulk result %s for segment %s, alone %s" % (hit, l.tolist(), one))


def check_mask(mask, want):
    if [bool(m) for m in mask] != [len(w) > 0 for w in want]:
        raise Violation("mask %s, expected %s" % (list(mask), [len(w) > 0 for w in want]))


def ends_inside(poly, line):
    """A coplanar segment with an end strictly inside of the polygon, or along
    an edge with an end strictly inside of that edge."""
    if any(p[2] != 0 for p in line):
        return False
    p, q = (x[:2] for x in line)
    if any(exact.in_polygon(x, poly) == 2 for x in (p, q)):
        return True
    for a, b in zip(poly, poly[1:] + poly[:1]):
        if exact.orient2(a, b, p) == 0 == exact.orient2(a, b, q):
            if any(x not in (a, b) and exact.in_polygon(x, poly) for x in (p, q)):
                return True
    return False


def order(poly, lines):
    return sorted(range(len(lines)), key=lambda i: ends_inside(poly, lines[i]))


def check_line(out, l, w, what, inside, G):
    if inside:
        # the reported points are at least common points
        if not isinstance(out, np.ndarray) or not len(out):
            raise Violation("%s: segment %s meets it at %s, reported %r" % (what, l.tolist(), w.tolist(), out))
        for x in flat(out):
            lo, hi = w[0], w[-1]
            d = hi - lo
            t = np.dot(x - lo, d) / np.dot(d, d) if len(w) > 1 else 0.0
            if len(G) == 3 and (np.abs(lo + t * d - x).max() > TOL or not -TOL < t < 1 + TOL):
                raise Violation("%s: segment %s meets it at %s, reported %s" % (what, l.tolist(), w.tolist(), out.tolist()))
            m = l[1] - l[0]
            t = np.dot(x - l[0], m) / np.dot(m, m)
            if np.abs(l[0] + t * m - x).max() > TOL or not -TOL < t < 1 + TOL:
                raise Violation("%s: segment %s, reported %s" % (what, l.tolist(), out.tolist()))
        if not same_set(flat(out), w):
            raise Violation(
                "%s: segment %s meets it at %s, reported %s" % (what, l.tolist(), w.tolist(), out.tolist()),
                key="coplanar-end-inside-%s" % what.split()[0],
            )
    if len(w) == 0:
        if out is not None:
            raise Violation("%s: segment %s does not meet it, reported %r" % (what, l.tolist(), out))
        return
    if not isinstance(out, np.ndarray):
        raise Violation("%s: segment %s meets it at %s, reported %r" % (what, l.tolist(), w.tolist(), out))
    if not same_set(flat(out), w):
        raise Violation("%s: segment %s meets it at %s, reported %s" % (what, l.tolist(), w.tolist(), out.tolist()))


@subcheck(
    "C13",
    "segment_polygon",
    line_cases(),
    quick=2500,
    thorough=50000,
    rule="line_polygon_intersection and its bulk form on polygons of every kind in any plane: the first and last common point in order along the segment, or None; non-trivial: some segment meets the polygon",
)
def segment_polygon(case, ctx):
    from geometry.operations.line_geometry_operations import (
        line_polygon_intersection, lines_polygon_intersection,
    )

    poly, lines, G, L, want = load(case)
    ctx.mark(any(len(w) for w in want))
    inside = [ends_inside(poly, x) for x in lines]
    for i in order(poly, lines):
        l, w = L[i], want[i]
        ctx.event("%d common" % len(w))
        out = line_polygon_intersection(l.copy(), G.copy())
        check_line(out, l, w, "polygon %s" % (case["poly"],), inside[i], G)
        if len(w):
            if out.shape != w.shape:
                raise Violation("polygon %s: %s reported for segment %s" % (case["poly"], out.tolist(), l.tolist()))
            if np.abs(out - w).max() > TOL:
                raise Violation("points %s are not in order along the segment %s" % (out.tolist(), l.tolist()))
    hits, mask = lines_polygon_intersection(L.copy(), G.copy())
    check_bulk(hits, mask, L, want, lambda l: line_polygon_intersection(l, G.copy()))
