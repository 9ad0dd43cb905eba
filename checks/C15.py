"""C15 - operations on vertices, edges and one-dimensional domains."""

import itertools

import numpy as np
from hypothesis import strategies as st

from harness import exact
from harness.core import Violation, subcheck

TITLE = "Subtracting and uniting vertices splits edges exactly where they lie"
ASSUMPTIONS = [
    "edges of a domain do not overlap; distinct features far apart compared with the tolerance",
    "tags handed to the operations are free",
]
TOL = 1e-9


@st.composite
def graphs(draw):
    """Edges in the plane z=0 of the frame (plus off-plane ones) meeting in
    crossings, T's and ends, and points on and off them."""
    segs = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["free", "free", "cross", "cross", "tee", "join", "out"]))
        a, b = exact.vec(draw(exact.point2())), exact.vec(draw(exact.point2()))
        z = (exact.F(0), exact.F(0))
        if segs and kind in ("cross", "tee", "join", "out"):
            p, q = segs[draw(st.integers(0, len(segs) - 1))]
            x = exact.add(p, exact.mul(exact.F(draw(st.integers(1, 3)), 4), exact.sub(q, p)))
            d = exact.sub(b, a)
            if kind == "tee":
                a, b, z = x[:2], b, (x[2], exact.F(0))
            elif kind == "join":
                e = p if draw(st.booleans()) else q
                a, z = e[:2], (e[2], exact.F(0))
            elif kind == "cross":
                a, b = exact.sub(x[:2], exact.mul(exact.F(1, 2), d)), exact.add(x[:2], exact.mul(exact.F(1, 4), d))
                z = (x[2], x[2])
            else:
                a, b, z = x[:2], x[:2], (x[2] - 1, x[2] + draw(st.sampled_from([0, 1])))
        a, b = a + z[:1], b + z[1:]
        if draw(st.booleans()):
            a, b = b, a
        if a == b:
            continue
        xs = [exact.segment_segment(a, b, p, q) for p, q in segs]
        if any(len(x) == 2 for x in xs):
            continue
        segs.append((a, b))
    if not segs:
        segs = [(exact.vec((0, 0, 0)), exact.vec((2, 1, 0)))]
    ser = lambda p: [str(x) for x in p]
    frame = draw(exact.frames())
    if draw(st.integers(0, 4)) == 0:
        # far from the origin (exact in floating point)
        frame = {"m": [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "angles": None, "scale": 0.25, "shift": [1024, 768, -512]}
    pick = []
    for i in range(len(segs)):
        for t in draw(st.lists(st.integers(-1, 9), max_size=3)):
            pick.append([i, t])
    # close to a point of an edge: along the edge or away from it
    near = draw(
        st.lists(
            st.tuples(
                st.integers(0, len(segs) - 1), st.sampled_from([0, 8, 0, 8, 3]), st.sampled_from(["along", "back", "off"]), st.integers(7, 9)
            ).map(list),
            max_size=2,
        )
    )
    return {
        "segments": [[ser(a), ser(b)] for a, b in segs],
        "meets": draw(st.sampled_from(["all", "all", "all", "some", "none"])),
        "pick": pick,
        "near": near,
        "off": draw(st.lists(exact.point3(), max_size=2)),
        "share": draw(st.booleans()),
        "own": draw(st.integers(0, 3)),
        "perm": draw(st.integers(0, 2**31)),
        "tags": draw(st.lists(st.sampled_from([None, 1, 2, 7]), min_size=6, max_size=6)),
        "gap": draw(st.sampled_from([1, 1, 5])),
        "frame": frame,
    }


def key(x):
    return tuple(np.round(np.asarray(x, dtype=float), 7) + 0.0)


class Case:
    """Topological objects and exact reference of a generated case."""

    def __init__(self, case):
        from topology.edge import Edge
        from topology.vertex import Vertex

        self.segs = [tuple(exact.vec(exact.F(x) for x in p) for p in s) for s in case["segments"]]
        fr = case["frame"]
        self.point = lambda p: exact.apply_frame(fr, [p])[0]
        n = len(self.segs)
        rng = np.random.default_rng(case["perm"])
        self.meets = set()
        for (a, b), (c, d) in itertools.combinations(self.segs, 2):
            self.meets |= set(exact.segment_segment(a, b, c, d))
        tools = []
        if case["meets"] != "none":
            m = sorted(self.meets)
            tools += m if case["meets"] == "all" else m[::2]
        for i, t in case["pick"]:
            a, b = self.segs[i]
            tools.append(exact.add(a, exact.mul(exact.F(t, 8), exact.sub(b, a))))
        for i, t, way, n in case.get("near", []):
            a, b = self.segs[i]
            d = exact.sub(b, a)
            x = exact.add(a, exact.mul(exact.F(t, 8), d))
            step = exact.mul(exact.F(1, 4), d)
            if way == "off":
                step = exact.cross(d, (1, 0, 0))
                if exact.zero(step):
                    step = exact.cross(d, (0, 1, 0))
            if way == "back":
                step = exact.mul(-1, step)
            tools.append(exact.add(x, exact.mul(exact.F(1, 2**n), step)))
        tools += [exact.vec(p) for p in case["off"]]
        self.tools = list(dict.fromkeys(tools))
        rng.shuffle(self.tools)
        # tags: vertices and edges in any order, with gaps
        tags = list(case["gap"] * np.arange(3 * n + len(self.tools)))
        head, tail = tags[: 3 * n], tags[3 * n :]
        rng.shuffle(head)
        self.vertices, self.edges = [], []
        known = {}
        for i, (a, b) in enumerate(self.segs):
            ends = []
            for p in (a, b):
                v = known.get(p) if case["share"] else None
                if v is None:
                    v = Vertex(int(head.pop()), self.point(p))
                    v.physical_tag = 90
                    known[p] = v
                    self.vertices.append(v)
                ends.append(v)
            e = Edge(int(head.pop()), np.array(ends))
            e.physical_tag = case["tags"][i]
            self.edges.append(e)
        self.tool_vertices = []
        for p in self.tools:
            if case["share"] and case["own"] == 0 and p in known:
                # an end of the domain itself
                self.tool_vertices.append(known[p])
                continue
            v = Vertex(int(tail.pop(0)), self.point(p))
            v.physical_tag = 50
            self.tool_vertices.append(v)
        self.next_tag = int(tags[-1]) + 1
        self.on = [[p for p in self.tools if exact.on_segment(p, a, b)] for a, b in self.segs]
        # exact lookup of points by coordinates
        self.index = {}
        for p in set(self.tools) | {p for s in self.segs for p in s}:
            self.index[key(self.point(p))] = p

    def exact_point(self, x):
        x = np.asarray(x, dtype=float)
        if x.shape != (3,):
            raise Violation("a vertex with the point %r" % (x,))
        for p in self.index.values():
            if np.abs(self.point(p) - x).max() < TOL:
                return p
        raise Violation("a vertex at %s, which is neither an end nor a given vertex" % x)

    def stops(self, i):
        a, b = self.segs[i]
        return sorted({a, b} | set(self.on[i]), key=lambda p: exact.line_param(p, a, b))


def snapshot(shapes):
    out = []
    for s in shapes:
        row = [s.dimension, s.tag, s.physical_tag, len(s.immersed_shapes)]
        row += [tuple(np.asarray(s.point).tolist())] if s.dimension == 0 else [
            (b.tag, tuple(np.asarray(b.point).tolist())) for b in s.boundary_shapes
        ]
        out.append(row)
    return out


def check_domain(domain, what):
    for d, shapes in enumerate(domain.shapes):
        tags = [s.tag for s in shapes]
        if len(set(tags)) != len(tags):
            raise Violation("%s: shapes of dimension %d share tags: %s" % (what, d, sorted(tags)))
        for s in shapes:
            if s.dimension != d:
                raise Violation("%s: a shape of dimension %d among dimension %d" % (what, s.dimension, d))
            for b in s.boundary_shapes:
                if not any(b is x for x in domain.shapes[0]):
                    raise Violation("%s: end %d of edge %d is not part of the domain" % (what, b.tag, s.tag))
    used = {b.tag for e in domain.shapes[1] for b in e.boundary_shapes}
    return used


@subcheck(
    "C15",
    "domains",
    graphs(),
    quick=2000,
    thorough=40000,
    rule="domain_difference and domain_union of segments in space (shared or separate ends, crossings, T's) with vertices on and off them, against the exact chain of every edge; tags unique, physical tags kept, inputs unchanged; non-trivial: some edge is split",
)
def domains(case, ctx):
    from topology.operations.domain_operations import create_domain, domain_difference, domain_union

    c = Case(case)
    ctx.mark(any(len(c.stops(i)) > 2 for i in range(len(c.segs))))
    ctx.event("%d split edges" % sum(len(c.stops(i)) > 2 for i in range(len(c.segs))))
    domain = create_domain(1, np.array(c.vertices + c.edges))
    tools = create_domain(1, np.array(c.tool_vertices))
    check_domain(domain, "the given domain")
    before = snapshot(c.vertices + c.edges + c.tool_vertices)
    c0 = domain_difference(domain, tools, c.next_tag)
    if snapshot(c.vertices + c.edges + c.tool_vertices) != before:
        raise Violation("domain_difference changed its arguments")
    used = check_domain(c0, "the difference")
    if used != {v.tag for v in c0.shapes[0]}:
        raise Violation("the difference has vertices that bound no edge")
    pieces(c, c0, "the difference", merged=False)
    middle = snapshot(list(c0.shapes[0]) + list(c0.shapes[1]))
    md = domain_union(c0, tools)
    if snapshot(c.vertices + c.edges + c.tool_vertices) != before:
        raise Violation("domain_union changed the vertices it was given")
    if snapshot(list(c0.shapes[0]) + list(c0.shapes[1])) != middle:
        raise Violation("domain_union changed the domain it was given")
    used = check_domain(md, "the union")
    for v in md.shapes[0]:
        if v.tag not in used and v.tag not in {t.tag for t in c.tool_vertices}:
            raise Violation("the union has a vertex %d that bounds no edge" % v.tag)
    pieces(c, md, "the union", merged=True)
    md.build_grahp()
    want = {((0, e.tag), (1, v.tag)) for e in md.shapes[1] for v in e.boundary_shapes}
    if set(md.graph.edges()) != want:
        raise Violation("graph of the union %s, expected %s" % (sorted(md.graph.edges()), sorted(want)))


def pieces(c, domain, what, merged):
    todo = {}
    for i in range(len(c.segs)):
        s = c.stops(i)
        for a, b in zip(s, s[1:]):
            todo.setdefault(frozenset((a, b)), []).append((c.edges[i].physical_tag, i, a, b))
    tool_at = dict(zip(c.tools, c.tool_vertices))
    own = {e.tag: i for i, e in enumerate(c.edges)}
    for e in domain.shapes[1]:
        if len(e.boundary_shapes) != 2:
            raise Violation("%s: edge %d has %d ends" % (what, e.tag, len(e.boundary_shapes)))
        ends = [c.exact_point(v.point) for v in e.boundary_shapes]
        cand = todo.pop(frozenset(ends), None)
        if cand is None:
            raise Violation("%s: the edge %s-%s is not a piece of a given edge (or occurs twice)" % (what, ends[0], ends[1]))
        ptag, i, a, b = cand[0]
        if e.physical_tag != ptag:
            raise Violation("%s: a piece of edge %d is tagged %s, the edge %s" % (what, i, e.physical_tag, ptag))
        if not c.on[i] and e.tag != c.edges[i].tag:
            raise Violation("%s: edge %d carries no vertex but was replaced" % (what, i))
        if c.on[i] and e.tag in own:
            raise Violation("%s: a piece of a split edge has the tag %d of a given edge" % (what, e.tag))
        for v, p in zip(e.boundary_shapes, ends):
            t = tool_at.get(p)
            if t is not None and (merged or p in c.segs[i]):
                if v.tag != t.tag or v.physical_tag != t.physical_tag:
                    raise Violation(
                        "%s: edge %d ends at %s in vertex %d (tag %s), the given vertex there is %d (tag %s)"
                        % (what, i, p, v.tag, v.physical_tag, t.tag, t.physical_tag)
                    )
            elif t is not None:
                if v.tag in {x.tag for x in c.tool_vertices + c.vertices}:
                    raise Violation("%s: the cut at %s uses the existing vertex %d" % (what, p, v.tag))
                if v.physical_tag != ptag:
                    raise Violation("%s: the cut at %s is tagged %s, the edge %s" % (what, p, v.physical_tag, ptag))
            else:
                x = [y for y in c.edges[i].boundary_shapes if np.array_equal(y.point, v.point)]
                if not x or v.tag != x[0].tag or v.physical_tag != x[0].physical_tag:
                    raise Violation("%s: end %s of edge %d became vertex %d" % (what, p, i, v.tag))
    if todo:
        raise Violation("%s: pieces %s are missing" % (what, [sorted(k) for k in todo]))
    if merged:
        for p, t in tool_at.items():
            at = {v.tag for v in domain.shapes[0] if np.abs(v.point - t.point).max() < TOL}
            if any(p in on for on in c.on) and at != {t.tag}:
                raise Violation("%s: vertices %s at the given vertex %d" % (what, sorted(at), t.tag))


@subcheck(
    "C15",
    "intersections",
    graphs(),
    quick=2000,
    thorough=40000,
    rule="vertex/vertex, vertex/edge, edge/edge, bulk and domain intersections against exact predicates; the result carries the requested tag unless it is the shape itself; non-trivial: some vertex on an edge or two edges that meet",
)
def intersections(case, ctx):
    from topology.operations.domain_operations import create_domain, domain_intersection
    from topology.operations.edge_operations import edge_edge_intersection, edge_with_same_geometry_q
    from topology.operations.vertex_operations import (
        vertex_edge_boundary_intersection, vertex_edge_intersection, vertex_vertex_intersection,
        vertex_with_same_geometry_q, vertices_edges_intersection,
    )

    c = Case(case)
    ctx.mark(any(c.on) or bool(c.meets))
    free = c.next_tag + 5

    def check(out, v, want, what, same=None, key=None):
        if want is None:
            if out is not None:
                raise Violation("%s: nothing in common, got a vertex at %s" % (what, out.point))
            return
        if out is None:
            raise Violation("%s: common point %s is not reported" % (what, want))
        x = np.asarray(out.point, dtype=float)
        if x.shape != (3,) or np.abs(x - c.point(want)).max() > TOL:
            raise Violation("%s: common point %s, reported %s" % (what, c.point(want), x))
        if same is not None:
            if out is not same and out.tag != same.tag:
                raise Violation("%s: the shape itself is not returned" % what)
        elif out.tag != free:
            raise Violation("%s: requested tag %d, got %s" % (what, free, out.tag), key=key)

    before = snapshot(c.vertices + c.edges + c.tool_vertices)
    ends = {v.tag: p for i, s in enumerate(c.segs) for p in s for v in c.edges[i].boundary_shapes if np.array_equal(v.point, c.point(p))}
    for t, p in zip(c.tool_vertices, c.tools):
        for v in c.vertices:
            q = ends[v.tag]
            out = vertex_vertex_intersection(t, v, free)
            check(out, t, p if p == q else None, "vertices %s and %s" % (p, q), same=v if t is v else None)
            if vertex_with_same_geometry_q(t, v) != (p == q):
                raise Violation("vertices %s and %s: same geometry misjudged" % (p, q))
            check(vertex_vertex_intersection(v, v, free), v, q, "vertex with itself", same=v)
        for i, e in enumerate(c.edges):
            same = t if any(t is v for v in e.boundary_shapes) else None
            out = vertex_edge_intersection(t, e, free)
            check(out, t, p if p in c.on[i] else None, "vertex %s and edge %s" % (p, c.segs[i]), same)
            out = vertex_edge_boundary_intersection(t, e, free)
            check(out, t, p if p in c.segs[i] else None, "vertex %s and ends of %s" % (p, c.segs[i]), same)
    for i, e in enumerate(c.edges):
        for v in e.boundary_shapes:
            check(vertex_edge_intersection(v, e, free), v, ends[v.tag], "end and its edge", same=v)
    if snapshot(c.vertices + c.edges + c.tool_vertices) != before:
        raise Violation("an intersection changed its arguments")
    # bulk
    if c.tool_vertices:
        output = vertices_edges_intersection(np.array(c.tool_vertices), np.array(c.edges), free)
        if len(output) != len(c.edges):
            raise Violation("%d results for %d edges" % (len(output), len(c.edges)))
        tags = []
        for i, (e, intx, tool) in enumerate(output):
            if e is not c.edges[i]:
                raise Violation("result %d belongs to another edge" % i)
            if [t.tag for t in tool] != [t.tag for t, p in zip(c.tool_vertices, c.tools) if p in c.on[i]]:
                raise Violation("edge %s is hit by vertices %s" % (c.segs[i], [t.tag for t in tool]))
            for x, t in zip(intx, tool):
                if np.abs(x.point - t.point).max() > TOL:
                    raise Violation("edge %s: vertex %d reported at %s" % (c.segs[i], t.tag, x.point))
                if t not in e.boundary_shapes:
                    tags.append(x.tag)
                elif x.tag != t.tag:
                    raise Violation("edge %s: its own vertex %d is reported as %s" % (c.segs[i], t.tag, x.tag))
        if len(set(tags)) != len(tags) or (tags and min(tags) < free):
            raise Violation("vertices of the intersection are tagged %s, first free tag %d" % (tags, free))
        dom = domain_intersection(create_domain(1, np.array(c.tool_vertices)), create_domain(1, np.array(c.vertices + c.edges)), free)
        want = sum(len(on) for on in c.on)
        if want == 0:
            if dom is not None and len(dom.shapes[0]):
                raise Violation("the intersection has %d vertices, expected none" % len(dom.shapes[0]))
        else:
            # a vertex of the edges themselves occurs once
            got = sorted(key(v.point) for v in dom.shapes[0])
            hits = {(p if any(t is v for v in e.boundary_shapes) else (p, i)) for i, e in enumerate(c.edges) for p, t in zip(c.tools, c.tool_vertices) if p in c.on[i]}
            want = [h[0] if len(h) == 2 else h for h in hits]
            if got != sorted(key(c.point(p)) for p in want):
                raise Violation("domain intersection at %s" % (got,))
    if snapshot(c.vertices + c.edges + c.tool_vertices) != before:
        raise Violation("an intersection changed its arguments")
    # edges last: some of their tags are a listed finding
    found = None
    for (i, e), (j, f) in itertools.permutations(enumerate(c.edges), 2):
        x = exact.segment_segment(*c.segs[i], *c.segs[j])
        out = edge_edge_intersection(e, f, free)
        same = [v for v in e.boundary_shapes if any(v is w for w in f.boundary_shapes)]
        what = "edges %s and %s" % (c.segs[i], c.segs[j])
        try:
            # an end of the first edge on the second one
            k = "edge-edge-tag" if x and x[0] in c.segs[i] else None
            check(out, None, x[0] if x else None, what, same=same[0] if same else None, key=k)
        except Violation as v:
            if v.key is None:
                raise
            found = found or v
        if edge_with_same_geometry_q(e, f) and set(c.segs[i]) != set(c.segs[j]):
            raise Violation("%s: taken for the same segment" % what)
    if found is not None:
        raise found
