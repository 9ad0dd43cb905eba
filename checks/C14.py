"""C14 - fracture networks."""

import itertools

import numpy as np
from hypothesis import strategies as st

from harness import exact
from harness.core import Violation, subcheck

TITLE = "Fracture networks are split at every crossing and nowhere else"
ASSUMPTIONS = [
    "coordinates of order one, distinct features far apart compared with the tolerance",
    "no two planar fractures overlap in more than a point; fracture quadrilaterals are convex and in general position",
]
TOL = 1e-9


@st.composite
def networks(draw):
    n = draw(st.integers(1, 6))
    segs = []
    for _ in range(n):
        kind = draw(st.sampled_from(["free", "free", "cross", "cross", "tee", "join", "hub"]))
        a, b = exact.vec(draw(exact.point2())), exact.vec(draw(exact.point2()))
        if segs and kind != "free":
            p, q = segs[draw(st.integers(0, len(segs) - 1))]
            x = exact.add(p, exact.mul(exact.F(draw(st.integers(1, 3)), 4), exact.sub(q, p)))
            d = exact.sub(b, a)
            if kind == "tee":
                a, b = (x, b) if draw(st.booleans()) else (b, x)
            elif kind == "join":
                e = p if draw(st.booleans()) else q
                a, b = (e, b) if draw(st.booleans()) else (b, e)
            elif kind == "cross":
                a, b = exact.sub(x, exact.mul(exact.F(1, 2), d)), exact.add(x, exact.mul(exact.F(1, 4), d))
            else:
                a, b = exact.sub(exact.vec((0, 0)), d), d
        if a == b:
            continue
        pad = lambda r: r + (exact.F(0),)
        xs = [exact.segment_segment(pad(a), pad(b), pad(p), pad(q)) for p, q in segs]
        if any(len(x) == 2 for x in xs):
            continue
        # collinear fractures that touch in an end point are not crossings
        if any(
            len(x) == 1 and exact.cross2(exact.sub(b, a), exact.sub(q, p)) == 0
            for x, (p, q) in zip(xs, segs)
        ):
            continue
        segs.append((a, b))
    if not segs:
        segs = [(exact.vec((0, 0)), exact.vec((1, 1)))]
    ser = lambda p: [str(x) for x in p]
    return {
        "segments": [[ser(a), ser(b)] for a, b in segs],
        "plane": draw(st.sampled_from([[0, 1], [0, 1], [1, 2], [0, 2]])),
        "scale": draw(st.sampled_from([0.25, 0.1, 1.0])),
        "angle": draw(st.sampled_from([0.0, 0.0, 0.4, 2.1])),
        "offset": draw(st.sampled_from([0.0, 0.7])),
        "shift": draw(st.sampled_from([1, 10, 57])),
        # the plane named in the call (it only selects what is drawn), and a skew plane
        "named": draw(st.sampled_from([None, 0, 1])),
        "tilt": draw(st.sampled_from([None, None, None, 0.3, 1.1])),
    }


@subcheck(
    "C14",
    "planar",
    networks(),
    quick=1500,
    thorough=30000,
    rule="intersect_1D_fractures and build_grahp on random families of planar segments with crossings, several fractures through one point, T and shared end points, in each coordinate plane, exact reference; non-trivial: some fractures meet",
)
def planar(case, ctx):
    from geometry.fracture_network import FractureNetwork

    segs = [tuple(exact.vec(exact.F(x) for x in p) for p in s) for s in case["segments"]]
    n = len(segs)
    c, s = np.cos(case["angle"]), np.sin(case["angle"])
    rot = np.array([[c, -s], [s, c]]) * case["scale"]

    tilt = np.eye(3)
    if case.get("tilt"):
        c, s = np.cos(case["tilt"]), np.sin(case["tilt"])
        tilt = np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]]) @ np.array([[1, 0, 0], [0, s, c], [0, -c, s]])
        ctx.event("skew plane")

    def image(p):
        x = np.full(3, case["offset"])
        x[case["plane"]] = rot @ np.array([float(p[0]), float(p[1])])
        return tilt @ x

    pad = lambda r: r + (exact.F(0),)
    meets = {i: set() for i in range(n)}
    pairs = {}
    for i, j in itertools.combinations(range(n), 2):
        x = exact.segment_segment(*map(pad, segs[i]), *map(pad, segs[j]))
        if x:
            p = x[0][:2]
            meets[i].add(p)
            meets[j].add(p)
            pairs[(i, j)] = p
    ctx.mark(bool(pairs))
    ctx.event("%d meetings" % len(pairs))
    fractures = [np.array([image(a), image(b)]) for a, b in segs]
    net = FractureNetwork(dimension=2, physical_tag_shift=case["shift"])
    named = case.get("named", 1)
    if named is None:
        net.intersect_1D_fractures([f.copy() for f in fractures])
    else:
        net.intersect_1D_fractures([f.copy() for f in fractures], np.array(case["plane"] if named else [0, 1]))
    if list(net.fracture_tags) != [i + case["shift"] for i in range(n)]:
        raise Violation("fracture tags %s" % net.fracture_tags)
    cells = net.cells
    for k, cell in enumerate(cells):
        if cell.id != k:
            raise Violation("cell %d has id %d" % (k, cell.id))
    point = lambda v: net.points[v.point_id]
    immersed = {e.id for cell in cells if cell.dimension == 1 for e in cell.immersed_cells}
    tops = [cell for cell in cells if cell.dimension == 1 and cell.id not in immersed]
    if len(tops) != n:
        raise Violation("%d fracture edges for %d fractures" % (len(tops), n))
    shared = {}
    for i, top in enumerate(tops):
        if top.physical_tag != i + case["shift"]:
            raise Violation("fracture %d is tagged %s" % (i, top.physical_tag))
        ends = [point(v) for v in top.boundary_cells]
        if np.abs(np.array(ends) - fractures[i]).max() > TOL:
            raise Violation("fracture %d does not end where it was placed" % i)
        a, b = segs[i]
        stops = sorted({exact.F(0), exact.F(1)} | {exact.line_param(p, a, b) for p in meets[i]})
        want = [image(exact.add(a, exact.mul(t, exact.sub(b, a)))) for t in stops]
        pieces = list(top.immersed_cells)
        if not meets[i]:
            if pieces:
                raise Violation("fracture %d meets no other one but is split" % i)
            continue
        if len(pieces) != len(want) - 1:
            raise Violation(
                "fracture %d meets others in %d points (pieces expected: %d) but has %d pieces"
                % (i, len(meets[i]), len(want) - 1, len(pieces))
            )
        for e, (x, y) in zip(pieces, zip(want, want[1:])):
            if e.dimension != 1 or e.physical_tag != top.physical_tag or len(e.boundary_cells) != 2:
                raise Violation("piece of fracture %d: tag %s, %d ends" % (i, e.physical_tag, len(e.boundary_cells)))
            got = [point(v) for v in e.boundary_cells]
            if np.abs(np.array(got) - np.array([x, y])).max() > TOL:
                raise Violation("fracture %d: a piece runs from %s to %s, expected %s to %s" % (i, got[0], got[1], x, y))
        for e, f in zip(pieces, pieces[1:]):
            if e.boundary_cells[1] is not f.boundary_cells[0]:
                raise Violation("consecutive pieces of fracture %d do not share a vertex" % i)
        for p in meets[i]:
            x = image(p)
            vs = [v for e in pieces for v in e.boundary_cells if np.abs(point(v) - x).max() < TOL]
            shared.setdefault(p, []).append((i, vs))
    for p, uses in shared.items():
        ids = {v.id for _, vs in uses for v in vs}
        if len(ids) != 1:
            raise Violation("fractures %s meet at %s through different vertices %s" % ([i for i, _ in uses], p, sorted(ids)))
        v = cells[ids.pop()]
        first = min(k for k, q in pairs.items() if q == p)
        ends = {k for k in range(n) if p in segs[k]}
        tags = {net.pair_intergers(i + case["shift"], j + case["shift"]) for (i, j), q in pairs.items() if q == p}
        if ends:
            tags |= {k + case["shift"] for k in ends}
        if v.physical_tag not in tags:
            raise Violation("the vertex at %s is tagged %s, expected one of %s" % (p, v.physical_tag, sorted(tags)))
    # the graph lists every edge with its vertices and pieces
    for flag in (True, False):
        net.build_grahp(all_fixed_d_cells_q=flag)
        want = set()
        for cell in cells:
            if cell.dimension == 1 and (flag or len(cell.immersed_cells) == 0):
                want |= {(cell.id, x.id) for x in cell.boundary_cells}
                want |= {(cell.id, x.id) for x in cell.immersed_cells}
        if set(net.graph.edges()) != want:
            raise Violation("graph edges %s, expected %s" % (sorted(net.graph.edges()), sorted(want)))


@subcheck(
    "C14",
    "pairing",
    st.fixed_dictionaries(
        {"xy": st.lists(st.tuples(st.integers(0, 2**20), st.integers(0, 2**20)) | st.tuples(st.integers(0, 40), st.integers(0, 40)), min_size=1, max_size=6)}
    ),
    quick=1500,
    thorough=30000,
    rule="pair_intergers / unpair_intergers on pairs of tags: the code is an exact non-negative integer, decoding returns the pair, different pairs have different codes; non-trivial: every case",
    shards=2,
)
def pairing(case, ctx):
    from geometry.fracture_network import FractureNetwork

    net = FractureNetwork(dimension=2)
    ctx.mark()
    seen = {}
    for x, y in case["xy"]:
        z = net.pair_intergers(x, y)
        if z != int(z) or z < 0:
            raise Violation("the code of (%d, %d) is %r" % (x, y, z))
        if seen.setdefault(z, (x, y)) != (x, y):
            raise Violation("%s and %s share the code %d" % (seen[z], (x, y), z))
        back = net.unpair_intergers(z)
        if list(back) != [x, y]:
            raise Violation("code %d of (%d, %d) decodes to %s" % (z, x, y, list(back)))


@st.composite
def quad_cases(draw):
    """Pairs of planar convex quadrilaterals on integer frames."""
    quads = []
    for i in range(draw(st.integers(2, 3))):
        u = draw(st.tuples(*[st.integers(-3, 3)] * 3).filter(any))
        v = draw(st.tuples(*[st.integers(-3, 3)] * 3).filter(any))
        k = draw(st.sampled_from([(1, 1), (1, 1), (2, 1), (1, 2), (2, 3)]))
        if exact.zero(exact.cross(u, v)):
            v = (u[1] + 1, u[2] - 1, u[0] + 2)
            if exact.zero(exact.cross(u, v)):
                v = (1, 0, 0) if u[1] or u[2] else (0, 1, 0)
        o = exact.vec(draw(exact.point3()))
        if quads and draw(st.integers(0, 3)):
            # through a point near the middle of an earlier one
            s, t, a, b = draw(st.tuples(*[st.integers(1, 6)] * 4))
            q = [exact.vec(exact.F(x) for x in y) for y in quads[0]]
            x = exact.add(q[0], exact.add(exact.mul(exact.F(s, 7), exact.sub(q[1], q[0])), exact.mul(exact.F(t, 7), exact.sub(q[3], q[0]))))
            o = exact.sub(x, exact.add(exact.mul(exact.F(a, 5), u), exact.mul(exact.F(b, 5), v)))
        p = [o, exact.add(o, u), exact.add(exact.add(o, exact.mul(k[0], u)), exact.mul(k[1], v)), exact.add(o, v)]
        if draw(st.booleans()):
            p = p[::-1]
        quads.append([[str(c) for c in x] for x in p])
    return {"quads": quads, "frame": draw(exact.frames())}


def quad_reference(P, Q):
    """Exact intersection of two convex planar quads in general position:
    None when degenerate, else [] or the two end points."""
    nP = exact.cross(exact.sub(P[1], P[0]), exact.sub(P[3], P[0]))
    nQ = exact.cross(exact.sub(Q[1], Q[0]), exact.sub(Q[3], Q[0]))
    if exact.zero(exact.cross(nP, nQ)):
        return None
    hits = []
    for A, B, n in ((P, Q, nQ), (Q, P, nP)):
        d = [exact.dot(exact.sub(a, B[0]), n) for a in A]
        if any(x == 0 for x in d):
            return None
        for i, j in ((0, 1), (1, 2), (2, 3), (3, 0), (1, 3)):
            if d[i] * d[j] > 0:
                continue
            t = exact.F(d[i]) / (d[i] - d[j])
            x = exact.add(A[i], exact.mul(t, exact.sub(A[j], A[i])))
            # position in B, margins from its edges and its diagonal
            drop = max(range(3), key=lambda k: abs(n[k]))
            pos = [k for k in range(3) if k != drop]
            two = lambda p: (p[pos[0]], p[pos[1]])
            poly = [two(b) for b in B]
            for k, l in ((0, 1), (1, 2), (2, 3), (3, 0), (1, 3)):
                if exact.orient2(poly[k], poly[l], two(x)) == 0:
                    return None
            if (i, j) != (1, 3) and exact.in_polygon(two(x), poly) == 2:
                hits.append(x)
    hits = list(dict.fromkeys(hits))
    if len(hits) not in (0, 2):
        return None
    return hits


@subcheck(
    "C14",
    "quads",
    quad_cases(),
    quick=2500,
    thorough=50000,
    rule="polygon_polygon_intersection on pairs of convex planar quadrilaterals in general position (no vertex in the other plane, no edge through an edge), exact rational reference of the common segment; degenerate pairs are skipped; non-trivial: some pair crosses",
)
def quads(case, ctx):
    from geometry.operations.polygon_polygon_intersection_test import PolygonPolygonIntersectionTest

    Q = [[exact.vec(exact.F(x) for x in p) for p in q] for q in case["quads"]]
    fr = case["frame"]
    for i, j in itertools.permutations(range(len(Q)), 2):
        ref = quad_reference(Q[i], Q[j])
        if ref is None:
            ctx.event("degenerate")
            continue
        A, B = exact.apply_frame(fr, Q[i]), exact.apply_frame(fr, Q[j])
        out = PolygonPolygonIntersectionTest().polygon_polygon_intersection(A.copy(), B.copy())
        what = "quadrilaterals %s and %s" % (A.tolist(), B.tolist())
        if bool(out[0]) != bool(ref):
            raise Violation("%s: intersection reported %s" % (what, out[0]))
        ctx.event("crossing" if ref else "apart")
        if not ref:
            continue
        ctx.mark()
        want = exact.apply_frame(fr, ref)
        got = np.array([out[1], out[2]], dtype=float)
        if got.shape != (2, 3) or min(np.abs(got - want).max(), np.abs(got - want[::-1]).max()) > 1e-8:
            raise Violation("%s: common segment %s, reported %s" % (what, want.tolist(), got.tolist()))


@subcheck(
    "C14",
    "spatial",
    quad_cases(),
    quick=800,
    thorough=15000,
    rule="intersect_2D_fractures on two or three quadrilaterals in general position: the faces are the given ones, every crossing pair shares one immersed edge that is the common segment, other pairs share none; non-trivial: some pair crosses",
)
def spatial(case, ctx):
    from geometry.fracture_network import FractureNetwork

    Q = [[exact.vec(exact.F(x) for x in p) for p in q] for q in case["quads"]]
    n = len(Q)
    refs = {}
    for i, j in itertools.combinations(range(n), 2):
        refs[(i, j)] = quad_reference(Q[i], Q[j])
        if refs[(i, j)] is None:
            return
    ctx.mark(any(refs.values()))
    ctx.event("%d crossings" % sum(bool(r) for r in refs.values()))
    fr = case["frame"]
    G = [exact.apply_frame(fr, q) for q in Q]
    net = FractureNetwork(dimension=3)
    net.intersect_2D_fractures([g.copy() for g in G])
    faces = [c for c in net.cells if c.dimension == 2]
    if len(faces) != n:
        raise Violation("%d faces for %d fractures" % (len(faces), n))
    for k, cell in enumerate(net.cells):
        if cell.id != k:
            raise Violation("cell %d has id %d" % (k, cell.id))
    for g, f in zip(G, faces):
        loop = [[net.points[v.point_id] for v in e.boundary_cells] for e in f.boundary_cells]
        want = [[g[k], g[(k + 1) % 4]] for k in range(4)]
        if np.shape(loop) != (4, 2, 3) or np.abs(np.array(loop) - np.array(want)).max() > TOL:
            raise Violation("a fracture is bounded by %s, placed at %s" % (loop, g.tolist()))
    for (i, j), ref in refs.items():
        common = [e for e in faces[i].immersed_cells if any(e is x for x in faces[j].immersed_cells)]
        if len(common) != (1 if ref else 0):
            raise Violation("fractures %d and %d: common segment %s, shared edges %d" % (i, j, bool(ref), len(common)))
        if ref:
            want = exact.apply_frame(fr, ref)
            got = np.array([net.points[v.point_id] for v in common[0].boundary_cells])
            if got.shape != (2, 3) or min(np.abs(got - want).max(), np.abs(got - want[::-1]).max()) > 1e-8:
                raise Violation("fractures %d and %d share the edge %s, common segment %s" % (i, j, got.tolist(), want.tolist()))
    for i in range(n):
        m = sum(bool(r) for k, r in refs.items() if i in k)
        if len(faces[i].immersed_cells) != m:
            raise Violation("fracture %d crosses %d others and has %d immersed edges" % (i, m, len(faces[i].immersed_cells)))
