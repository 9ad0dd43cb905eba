"""C21 - shapes, wires and domains."""

import numpy as np
from hypothesis import strategies as st

from harness import exact
from harness.core import Violation, subcheck

TITLE = "Shapes compare by structure, wires follow their edges, domains find their shapes"
ASSUMPTIONS = [
    "shapes of one kind have different tags",
    "vertices at different points differ by more than the tolerance of numpy.isclose",
]


@st.composite
def complexes(draw):
    n = draw(st.integers(1, 6))
    closed = n > 2 and draw(st.booleans())
    nv = n if closed else n + 1
    return {
        "edges": n,
        "closed": closed,
        "vtags": draw(st.permutations(list(range(nv)))),
        "etags": draw(st.permutations(list(range(n)))),
        "start": draw(st.integers(0, 5)),
        "flip": draw(st.booleans()),
        "pieces": draw(st.lists(st.sampled_from([0, 0, 0, 1, 2]), min_size=n, max_size=n)),
        "inner": draw(st.sampled_from([0, 0, 1, 2])),
        "vertex": draw(st.booleans()),
        "ptags": draw(st.lists(st.sampled_from([None, 1, 2]), min_size=4, max_size=4)),
        "mutation": draw(st.sampled_from(["none", "point", "vtag", "etag", "inner", "inner tag", "wire tag", "face tag", "other edge", "drop"])),
        "at": draw(st.integers(0, 5)),
    }


class Complex:
    """Face of one wire of a chain of edges, some of them split, with edges and
    a vertex inside."""

    def __init__(self, case, mutation=None):
        from topology.edge import Edge
        from topology.face import Face
        from topology.vertex import Vertex
        from topology.wire import Wire

        n, at = case["edges"], case["at"]
        vtags, etags = list(case["vtags"]), list(case["etags"])
        nv = len(vtags)
        points = [np.array([np.cos(2 * np.pi * i / (nv + 1)), np.sin(2 * np.pi * i / (nv + 1)), 0.25 * i]) for i in range(nv)]
        if mutation == "point":
            points[at % nv] = points[at % nv] + [0.0, 0.0, 0.125]
        if mutation == "vtag":
            vtags[at % nv] += 40
        if mutation == "etag":
            etags[at % n] += 40
        V = [Vertex(t, p) for t, p in zip(vtags, points)]
        order = list(range(n))
        s = case["start"] % n if case["closed"] else 0
        order = order[s:] + order[:s]
        if case["flip"]:
            order = order[::-1]
        self.E, self.walk, self.extra = [None] * n, [], []
        tag = 100
        for i in order:
            a, b = V[i], V[(i + 1) % nv]
            if mutation == "other edge" and i == at % n and not case["closed"] and n > 2:
                b = V[(i + 2) % nv]
            e = Edge(etags[i], np.array([a, b]))
            self.E[i] = e
            chain = [(a, b)]
            if case["pieces"][i] and mutation != "other edge":
                k = case["pieces"][i]
                mid = [Vertex(tag + j, a.point + (j + 1) / (k + 1) * (b.point - a.point)) for j in range(k)]
                chain = list(zip([a] + mid, mid + [b]))
                pieces = [Edge(tag + 10 + j, np.array([x, y])) for j, (x, y) in enumerate(chain)]
                e.immersed_shapes = np.array(pieces)
                self.extra += mid + pieces
                tag += 20
            if case["flip"]:
                # the pieces of a split edge are listed from its first point
                if len(chain) > 1:
                    e.immersed_shapes = e.immersed_shapes[::-1]
                chain = [(y, x) for x, y in chain[::-1]]
            self.walk += chain
        self.V = V
        self.order = [self.E[i] for i in order]
        self.wire = Wire(200 + (mutation == "wire tag"), np.array(self.order), np.array([V[0]]))
        self.face = Face(300 + (mutation == "face tag"), np.array([self.wire]))
        inner = []
        for j in range(case["inner"]):
            x, y = (Vertex(400 + 10 * j + k + (mutation == "inner") , points[0] * (0.1 * (2 * j + k))) for k in (0, 1))
            inner.append(Edge(450 + j + 20 * (mutation == "inner tag"), np.array([x, y])))
            self.extra += [x, y, inner[-1]]
        if case["vertex"]:
            inner.append(Vertex(450, points[0] * 0.01))
            self.extra.append(inner[-1])
        if mutation == "drop" and inner:
            inner = inner[:-1]
        self.face.immersed_shapes = np.array(inner, dtype=object)
        self.all = V + self.order + self.extra + [self.wire, self.face]
        for i, x in enumerate(self.all):
            x.physical_tag = case["ptags"][i % 4]


def canonical(s):
    if s.dimension == 0:
        return (0, s.tag, tuple(np.round(s.point, 9)))
    return (s.dimension, s.tag, tuple(map(canonical, s.boundary_shapes)), tuple(map(canonical, s.immersed_shapes)))


@subcheck(
    "C21",
    "equality",
    complexes(),
    quick=700,
    thorough=20000,
    rule="faces with wires of split edges and inner shapes, and the same complex built again with one change: ==, != and `in` between all pairs of shapes against a recursive structural comparison; assignment makes equal; non-trivial: a change was made",
)
def equality(case, ctx):
    a, b = Complex(case), Complex(case, case["mutation"])
    ctx.mark(case["mutation"] != "none")
    same = canonical(a.face) == canonical(b.face)
    ctx.event("same" if same else case["mutation"])
    A, B = [[(x, canonical(x)) for x in c.all] for c in (a, b)]
    for x, cx in A:
        for y, cy in B:
            want = cx == cy
            for p, q in ((x, y), (y, x)):
                if bool(p == q) != want or bool(p != q) == want:
                    raise Violation("%s %d == %s %d is %s" % (type(p).__name__, p.tag, type(q).__name__, q.tag, bool(p == q)))
    for x, cx in A:
        for y, cy in B:
            want = y.dimension > 0 and any(sum(canonical(z) == cx for z in part) == 1 for part in (y.boundary_shapes, y.immersed_shapes))
            if bool(x in y) != want:
                raise Violation("%s %d in %s %d is %s" % (type(x).__name__, x.tag, type(y).__name__, y.tag, bool(x in y)))
    for x, y in ((a.V[0], b.V[-1]), (a.order[0], b.order[-1]), (a.wire, b.wire), (a.face, b.face)):
        x.shape_assignment(y)
        if not x == y or x.physical_tag != y.physical_tag:
            raise Violation("%s %d is assigned but differs" % (type(x).__name__, y.tag))
    if list(a.wire.orientation) != list(b.wire.orientation):
        raise Violation("an assigned wire has orientation %s instead of %s" % (a.wire.orientation, b.wire.orientation))


@subcheck(
    "C21",
    "wire",
    complexes(),
    quick=1500,
    thorough=40000,
    rule="wires of open and closed chains of 1-6 edges (any vertex tags, hence directions; any start; split edges): orientation, order of vertices, end points; non-trivial: at least two pieces",
)
def wire(case, ctx):
    c = Complex(case)
    ctx.mark(len(c.walk) > 1)
    ctx.event("closed" if case["closed"] else "open")
    w = c.wire
    edges = list(w.immersed_shapes)
    if len(edges) != len(c.walk) or len(w.orientation) != len(edges):
        raise Violation("%d edges and %d orientations for %d pieces" % (len(edges), len(w.orientation), len(c.walk)))
    walk = list(c.walk)
    vertices = list(w.orient_immersed_vertices())
    if len(walk) == 1:
        # one edge: either direction
        if vertices[0] is walk[0][1]:
            walk = [walk[0][::-1]]
    for e, o, v, (x, y) in zip(edges, w.orientation, vertices, walk):
        got = list(e.boundary_shapes)[:: int(o)]
        if abs(o) != 1 or got[0] is not x or got[1] is not y:
            raise Violation("edge %d is walked from %s to %s, expected %s to %s" % (e.tag, got[0].tag, got[1].tag, x.tag, y.tag))
        if v is not x:
            raise Violation("the wire lists vertex %d, expected %d" % (v.tag, x.tag))
    if len(vertices) != len(walk):
        raise Violation("%d vertices of %d edges" % (len(vertices), len(walk)))
    want = np.array([walk[0][0].point, walk[-1][1].point])
    if not np.array_equal(w.boundary_points(), want):
        raise Violation("the wire goes from %s to %s" % tuple(w.boundary_points()))
    # after splitting an edge of the wire
    e = edges[case["at"] % len(edges)]
    before = w.orientation[case["at"] % len(edges)]
    from topology.edge import Edge
    from topology.vertex import Vertex

    a, b = e.boundary_shapes
    m = Vertex(900, 0.5 * (a.point + b.point))
    pair = [Edge(901, np.array([a, m])), Edge(902, np.array([m, b]))]
    if not any(e is x for x in c.order):
        return
    e.immersed_shapes = np.array(pair if before > 0 else pair[::-1])
    w.orient_immersed_edges()
    if len(w.orientation) != len(walk) + 1:
        raise Violation("%d orientations after a split of %d edges" % (len(w.orientation), len(walk)))
    if len(walk) > 1:
        seq = [list(e.boundary_shapes)[:: int(o)] for e, o in zip(w.immersed_shapes, w.orientation)]
        for x, y in zip(seq, seq[1:]):
            if x[1] is not y[0]:
                raise Violation("the wire jumps from %d to %d after a split" % (x[1].tag, y[0].tag))


@st.composite
def embeddings(draw):
    return {
        "a": draw(exact.point3()),
        "b": draw(exact.point3()),
        "frame": draw(exact.frames()),
        "at": draw(st.lists(st.tuples(st.sampled_from(["on", "on", "on", "end", "beyond", "behind", "off", "twice"]), st.integers(1, 15)).map(list), min_size=1, max_size=6)),
        "shift": draw(st.integers(0, 9)),
        "flip": draw(st.booleans()),
    }


@subcheck(
    "C21",
    "embed",
    embeddings(),
    quick=1500,
    thorough=40000,
    rule="embed_vertex_in_edge of vertices on the edge, at its ends, beyond either end, off it and repeated: the vertices returned, the pieces in order with their tags, ends replaced; non-trivial: a vertex inside",
)
def embed(case, ctx):
    from topology.edge import Edge
    from topology.shape_manipulation import embed_vertex_in_edge
    from topology.vertex import Vertex

    F = exact.F
    a, b = (exact.vec(F(x) for x in case[k]) for k in "ab")
    if a == b:
        b = exact.add(a, (F(1), F(2), F(0)))
    img = lambda p: exact.apply_frame(case["frame"], [p])[0]
    d = exact.sub(b, a)
    side = exact.cross(d, (F(1), F(0), F(0)))
    if exact.zero(side):
        side = exact.cross(d, (F(0), F(1), F(0)))
    params, points, inside = [], [], {}
    for kind, k in case["at"]:
        t = F(k, 16)
        if kind == "end":
            t = F(k % 2)
        if kind == "beyond":
            t = t + 1
        if kind == "behind":
            t = -t
        x = exact.add(a, exact.mul(t, d))
        if kind == "off":
            n = sum(float(y) ** 2 for y in side) ** 0.5
            x = exact.add(x, exact.mul(F(k, 8) / F(n).limit_denominator(64), side))
        if kind == "twice" and params:
            x, t = points[-1], params[-1]
        elif x in points:
            continue
        params.append(t if kind != "off" else None)
        points.append(x)
    tags = list(range(10, 10 + len(points)))
    ends = [Vertex(0, img(a)), Vertex(1, img(b))]
    if case["flip"]:
        ends[0].tag, ends[1].tag = 1, 0
    edge = Edge(5, np.array(ends))
    first = edge.boundary_shapes[0]
    V = np.array([Vertex(t, img(x)) for t, x in zip(tags, points)])
    for t, x, v in zip(params, points, V):
        if t is not None and 0 < t < 1:
            inside.setdefault(x, []).append(v)
    ctx.mark(bool(inside))
    before = [v.point.copy() for v in V]
    out = embed_vertex_in_edge(V, edge, tag_shift=case["shift"])
    for v, p in zip(V, before):
        if not np.allclose(v.point, p, rtol=0, atol=1e-12 * (1 + np.abs(p).max())):
            raise Violation("vertex %d moved" % v.tag)
    got = sorted(v.tag for v in out)
    if len(got) != len(inside) or any(sum(v.tag in got for v in vs) != 1 for vs in inside.values()):
        raise Violation("embedded %s, expected one each of %s" % (got, [[v.tag for v in vs] for vs in inside.values()]))
    for k, x in enumerate((a, b)):
        near = [v for v, p in zip(V, points) if p == x]
        if near and not any(v is y for v in near for y in edge.boundary_shapes):
            raise Violation("the vertex at an end of the edge did not become its end")
    pieces = list(edge.immersed_shapes)
    if not inside:
        if pieces:
            raise Violation("%d pieces of an edge without vertices" % len(pieces))
        return
    chain = [x for x in sorted(inside, key=lambda x: exact.line_param(x, a, b))]
    ends = [img(a)] + [img(x) for x in chain] + [img(b)]
    if not np.allclose(edge.boundary_shapes[0].point, ends[0], atol=1e-12 * (1 + np.abs(ends[0]).max()), rtol=0):
        ends = ends[::-1]
    if len(pieces) != len(ends) - 1 or [e.tag for e in pieces] != [case["shift"] + i for i in range(len(pieces))]:
        raise Violation("%d pieces tagged %s" % (len(pieces), [e.tag for e in pieces]))
    for e, x, y in zip(pieces, ends, ends[1:]):
        q = e.boundary_points()
        if not any(np.allclose(q, np.array(r), rtol=0, atol=1e-9) for r in ((x, y), (y, x))):
            raise Violation("piece %d runs from %s to %s, expected %s to %s" % (e.tag, q[0], q[1], x, y))


@subcheck(
    "C21",
    "domain",
    complexes(),
    quick=700,
    thorough=20000,
    rule="domains of these shapes: lookup by point and by physical tag, largest tags, retagging; non-trivial: shapes inside of the face",
)
def domain(case, ctx):
    from topology.domain import Domain

    c = Complex(case)
    ctx.mark(len(c.extra) > 0)
    d = Domain(dimension=2)
    for k in range(3):
        d.append_shapes(np.array([s for s in c.all if s.dimension == k], dtype=object))
    if [len(x) for x in d.shapes] != [sum(s.dimension == k for s in c.all) for k in range(3)]:
        raise Violation("%s shapes by dimension" % [len(x) for x in d.shapes])
    for v in d.shapes[0]:
        if d.lookup_vertex(v.point.copy()) is not v:
            raise Violation("vertex %d is not found at its point" % v.tag)
        for k in range(3):
            step = np.zeros(3)
            step[k] = (-1.0) ** case["at"] * 2.0 ** -(11 + (case["edges"] + case["at"]) % 5)
            if all(np.abs(v.point + step - w.point).max() > 1e-6 for w in d.shapes[0]) and d.lookup_vertex(v.point + step) is not None:
                raise Violation("a vertex is found at a distance %g from vertex %d" % (abs(step[k]), v.tag))
    if d.lookup_vertex(np.array([5.0, 5.0, 5.0])) is not None:
        raise Violation("a vertex is found where there is none")
    for t in (None, 1, 2, 3):
        if sorted(map(id, d.shapes_with_physical_tag(t))) != sorted(id(s) for s in c.all if s.physical_tag == t):
            raise Violation("shapes with physical tag %s" % t)
    if d.max_tag() != max(s.tag for s in c.all):
        raise Violation("the largest tag is %s" % d.max_tag())
    if any(s.physical_tag for s in c.all) and d.max_physical_tag() != max(s.physical_tag or 0 for s in c.all):
        raise Violation("the largest physical tag is %s" % d.max_physical_tag())
    d.retag_shapes()
    for k in range(3):
        tags = [s.tag for s in d.shapes[k]]
        if len(set(tags)) != len(tags):
            raise Violation("shapes of dimension %d share tags after retagging: %s" % (k, tags))

    # pieces and parts that are known to their shape only, of any dimension
    # and in any order
    from topology.edge import Edge
    from topology.face import Face
    from topology.vertex import Vertex

    c = Complex(case)
    parts = {1: [], 2: []}
    for i, e in enumerate(c.E):
        extra = [Vertex(0, e.boundary_points().mean(0) + 0.01 * j) for j in range(1 + i % 2)]
        parts[1] += list(e.immersed_shapes)
        e.immersed_shapes = mixed(list(e.immersed_shapes) + extra, case["at"] + i)
    faces = [Face(7, np.array([c.wire])) for _ in range(case["start"] % 3)]
    parts[2] += faces
    c.face.immersed_shapes = mixed(list(c.face.immersed_shapes) + faces, case["at"])
    d = Domain(dimension=2)
    for k, shapes in enumerate((c.V, c.order, [c.face])):
        d.append_shapes(np.array(shapes, dtype=object))
    d.retag_shapes()
    for k in range(3):
        tags = [s.tag for s in list(d.shapes[k]) + parts.get(k, [])]
        if sorted(tags) != list(range(len(tags))):
            raise Violation("shapes of dimension %d and the parts they hold have the tags %s after retagging" % (k, tags))


def mixed(shapes, by):
    by %= max(1, len(shapes))
    return np.array((shapes[by:] + shapes[:by])[:: (-1) ** by], dtype=object)
