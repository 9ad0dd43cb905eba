"""C16 - mixed-dimensional boxes and the meshes of domains."""

import itertools
import os

import numpy as np
from hypothesis import strategies as st

from harness import exact
from harness.core import Violation, subcheck

TITLE = "Boxes with fractures are partitioned exactly and meshed with their tags"
ASSUMPTIONS = [
    "fracture lines do not overlap each other or the boundary; distinct features far apart compared with the tolerance",
    "the tags of the four sides and of the fractures are different",
]
TOL = 1e-9
AREA, SIDES, LINE, ENDS, POINT = 1, [2, 3, 4, 5], 10, 20, 30


@st.composite
def boxes(draw, frame=True, small=False, closed=False):
    lx, ly = draw(st.integers(4, 8)), draw(st.integers(4, 8))
    shear = draw(st.sampled_from([0, 0, 0, 1, 2]))
    F = exact.F
    box = [(F(0), F(0)), (F(lx), F(0)), (F(lx + shear), F(ly)), (F(shear), F(ly))]
    if draw(st.booleans()):
        k = draw(st.integers(0, 3))
        box = box[k:] + box[:k]
    sides = list(zip(box, box[1:] + box[:1]))
    inner = st.tuples(st.integers(1, 15), st.integers(1, 15))

    def place(s):
        x = exact.add(box[0], exact.mul(F(s[0], 16), exact.sub(box[1], box[0])))
        return exact.add(x, exact.mul(F(s[1], 16), exact.sub(box[3], box[0])))

    lines = []
    pad = lambda r: tuple(r) + (F(0),)
    kinds = ["inner", "inner", "through", "through", "boundary", "tee", "cross", "join", "out", "corner", "meet"]
    if closed:
        kinds = ["inner", "boundary", "boundary", "tee", "tee", "cross", "cross", "join", "corner", "meet"]
    for _ in range(draw(st.sampled_from([0, 1, 2, 2] if small else [1, 2, 3, 4, 6] if closed else [0, 1, 1, 2, 2, 3, 4]))):
        kind = draw(st.sampled_from(kinds))
        a, b = place(draw(inner)), place(draw(inner))
        if a == b:
            continue
        s = sides[draw(st.integers(0, 3))]
        on = lambda s: exact.add(s[0], exact.mul(F(draw(st.integers(1, 7)), 8), exact.sub(s[1], s[0])))
        if kind == "through":
            d = exact.sub(b, a)
            a, b = exact.sub(a, exact.mul(F(3), d)), exact.add(b, exact.mul(F(2), d))
        elif kind == "boundary":
            a = on(s)
            if draw(st.booleans()):
                b = on(sides[draw(st.integers(0, 3))])
        elif kind == "corner":
            a = s[0]
        elif kind == "out":
            c = exact.sub(exact.mul(F(3), a), exact.mul(F(2), b))
            a = c
        elif lines and kind in ("tee", "cross", "join", "meet"):
            p, q = lines[draw(st.integers(0, len(lines) - 1))]
            x = exact.add(p, exact.mul(F(draw(st.integers(1, 3)), 4), exact.sub(q, p)))
            if kind == "tee":
                a = x
            elif kind == "join":
                a = p if draw(st.booleans()) else q
            elif kind == "meet":
                # meets the other line on the boundary
                for t in sides:
                    y = exact.segment_segment(pad(p), pad(q), pad(t[0]), pad(t[1]))
                    if len(y) == 1:
                        a = y[0][:2]
                        break
            else:
                d = exact.sub(b, a)
                a, b = exact.sub(x, exact.mul(F(1, 2), d)), exact.add(x, exact.mul(F(1, 4), d))
        if draw(st.booleans()):
            a, b = b, a
        if a == b:
            continue
        others = lines + sides
        if any(len(exact.segment_segment(pad(a), pad(b), pad(p), pad(q))) == 2 for p, q in others):
            continue
        lines.append((a, b))
    ser = lambda p: [str(x) for x in p]
    return {
        "box": [ser(p) for p in box],
        "lines": [[ser(a), ser(b)] for a, b in lines],
        "frame": draw(exact.frames()) if frame else None,
        "scale": draw(st.sampled_from([0.125, 0.2, 1.0])),
        "h": draw(st.sampled_from([0.3, 0.6, 5.0])),
        "refine": draw(st.sampled_from([0, 0, 0, 1])),
        "curve": draw(st.sampled_from([0, 0, 3, 4])),
        "same": draw(st.sampled_from([None, None, None, "area", "area-side", "ends", "point"])),
    }


def numbers(case):
    """The tags of the area, of ends and of crossings; physical tags are numbered
    per dimension, so that they may be those of the edges."""
    same = case.get("same")
    return (
        {"area": LINE, "area-side": SIDES[0]}.get(same, AREA),
        LINE if same == "ends" else ENDS,
        LINE if same == "point" else POINT,
    )


class Box:
    def __init__(self, case):
        F = exact.F
        self.box = [exact.vec(F(x) for x in p) for p in case["box"]]
        self.lines = [tuple(exact.vec(F(x) for x in p) for p in l) for l in case["lines"]]
        self.sides = list(zip(self.box, self.box[1:] + self.box[:1]))
        self.area, self.ends, self.point = numbers(case)
        scale = case["scale"]
        if case["frame"]:
            self.image = lambda p: exact.apply_frame(case["frame"], [tuple(p) + (F(0),)])[0]
        else:
            self.image = lambda p: np.array([float(p[0]), float(p[1]), 0.0]) * scale
        pad = lambda r: tuple(r) + (F(0),)
        meet = lambda l, m: {x[:2] for x in exact.segment_segment(*map(pad, l), *map(pad, m))}
        inside = lambda p: exact.in_polygon(p, self.box) > 0
        self.crossings = set().union(*[meet(l, m) for l, m in itertools.combinations(self.lines, 2)]) if self.lines else set()
        self.landings = {}
        for k, s in enumerate(self.sides):
            for l in self.lines:
                for x in meet(l, s):
                    self.landings.setdefault(x, set()).add(k)
        # exact pieces: frozenset of ends -> tag
        self.pieces = {}
        allx = self.crossings | set(self.landings)
        for l, tag, keep in [(l, LINE, False) for l in self.lines] + [(s, SIDES[k], True) for k, s in enumerate(self.sides)]:
            on = {x for x in allx if exact.on_segment(pad(x), pad(l[0]), pad(l[1]))} | set(l)
            on = sorted(on, key=lambda p: exact.line_param(p, *l))
            for a, b in zip(on, on[1:]):
                mid = exact.mul(F(1, 2), exact.add(a, b))
                if keep or inside(mid):
                    self.pieces[frozenset((a, b))] = (tag, l)
        self.points = set().union(*self.pieces)

    def tags_of(self, p):
        """Admissible physical tags of the vertex at p."""
        out = set()
        if p in self.landings:
            out |= {SIDES[k] for k in self.landings[p]}
        if p in self.crossings:
            out.add(self.point)
        if not out:
            if p in self.box:
                return {None}
            out.add(self.ends)
        return out


def build(c, ctx):
    from topology.domain_market import create_md_box_2D

    box = np.array([c.image(p) for p in c.box])
    lines = np.array([[c.image(p) for p in l] for l in c.lines]) if c.lines else None
    tags = {"area": c.area, "bc_0": 2, "bc_1": 3, "bc_2": 4, "bc_3": 5}
    return create_md_box_2D(box, tags, lines, {"line": LINE, "internal_bc": c.ends, "point": c.point} if c.lines else None)


def locate(c, x, tol=TOL):
    x = np.asarray(x, dtype=float)
    for p in c.points:
        if x.shape == (3,) and np.abs(c.image(p) - x).max() < tol:
            return p
    raise Violation("a vertex at %s, which is no corner, end or crossing" % (x,))


@subcheck(
    "C16",
    "box",
    boxes(),
    quick=1200,
    thorough=25000,
    rule="create_md_box_2D on quadrilaterals in any plane with fractures that end inside, land on, cross or leave the boundary, cross each other, share ends or meet on the boundary, against the exact partition; non-trivial: at least one fracture inside",
)
def box(case, ctx):
    c = Box(case)
    ctx.mark(any(t == LINE for t, _ in c.pieces.values()))
    ctx.event("%d lines, %d crossings, %d landings" % (len(c.lines), len(c.crossings), len(c.landings)))
    dom = build(c, ctx)
    if dom.dimension != 2:
        raise Violation("a domain of dimension %d" % dom.dimension)
    for d in range(3):
        tags = [s.tag for s in dom.shapes[d]]
        if len(set(tags)) != len(tags):
            raise Violation("shapes of dimension %d share tags: %s" % (d, sorted(tags)))
    vertices = list(dom.shapes[0])
    at = {}
    for v in vertices:
        p = locate(c, v.point)
        if p in at:
            raise Violation("two vertices at %s" % (p,))
        at[p] = v
        if v.physical_tag not in c.tags_of(p):
            raise Violation("the vertex at %s is tagged %s, expected one of %s" % (p, v.physical_tag, c.tags_of(p)))
    if set(at) != c.points:
        raise Violation("no vertex at %s" % (c.points - set(at),))
    edges = [e for e in dom.shapes[1] if not e.composite]
    todo = dict(c.pieces)
    where = {}
    for e in edges:
        for v in e.boundary_shapes:
            if not any(v is x for x in vertices):
                raise Violation("edge %d ends in a vertex that is not part of the domain" % e.tag)
        ends = [locate(c, v.point) for v in e.boundary_shapes]
        want = todo.pop(frozenset(ends), None)
        if want is None or len(ends) != 2:
            raise Violation("edge %s is not a piece of the partition (or occurs twice)" % (ends,))
        if e.physical_tag != want[0]:
            raise Violation("edge %s is tagged %s, expected %d" % (ends, e.physical_tag, want[0]))
        where[id(e)] = ends
    if todo:
        raise Violation("pieces %s are missing" % [sorted(x) for x in todo])
    wires = [w for w in dom.shapes[1] if w.composite]
    faces = list(dom.shapes[2])
    if len(wires) != 1 or len(faces) != 1 or faces[0].physical_tag != c.area or list(faces[0].boundary_shapes) != wires:
        raise Violation("%d wires and %d faces" % (len(wires), len(faces)))
    loop(c, wires[0], where)
    immersed = {id(e) for e in faces[0].immersed_shapes}
    if not {id(e) for e in edges if e.physical_tag == LINE} <= immersed or not immersed <= set(where):
        raise Violation("the face holds %d of %d edges" % (len(immersed), len(edges)))


def loop(c, wire, where):
    """The wire walks around the box once."""
    sides = [x for x, (t, _) in c.pieces.items() if t != LINE]
    edges = list(wire.immersed_shapes)
    if sorted(map(sorted, (where[id(e)] for e in edges))) != sorted(map(sorted, sides)):
        raise Violation("the wire has %d edges, the boundary %d" % (len(edges), len(sides)))
    if len(wire.orientation) != len(edges):
        raise Violation("%d orientations for %d edges" % (len(wire.orientation), len(edges)))
    walk = []
    for e, o in zip(edges, wire.orientation):
        ends = where[id(e)]
        walk.append(tuple(ends if o > 0 else ends[::-1]))
    for x, y in zip(walk, walk[1:] + walk[:1]):
        if x[1] != y[0]:
            raise Violation("the wire jumps from %s to %s" % (x[1], y[0]), key="wire-orientation")


@st.composite
def boxes_with_lines(draw):
    case = draw(boxes(frame=draw(st.booleans()), closed=True))
    c = Box(case)
    pad = lambda r: tuple(r) + (exact.F(0),)
    edge = lambda p: any(exact.on_segment(pad(p), pad(s[0]), pad(s[1])) for s in c.sides)
    keep = [i for i, l in enumerate(c.lines) if all(edge(p) or exact.in_polygon(p, c.box) > 0 for p in l)]
    case["lines"] = [case["lines"][i] for i in keep]
    case["order"] = draw(st.permutations(range(6, 11)))
    return case


def from_file(case, c, ctx):
    """The domain that build_box_2D_with_lines makes of a file of the lines."""
    from topology.domain_market import build_box_2D_with_lines

    path = os.path.join(ctx.tmp, "lines.csv")
    rows = [(*c.image(a), *c.image(b)) for a, b in c.lines]
    with open(path, "w") as f:
        f.write("\n".join(", ".join("%.17g" % x for x in r) for r in rows))
    o = case["order"]
    tags = {"area": o[4], "bc_0": o[0], "bc_1": o[1], "bc_2": o[2], "bc_3": o[3]}
    return build_box_2D_with_lines(np.array([c.image(p) for p in c.box]), path, tags), rows, path


@subcheck(
    "C16",
    "lines",
    boxes_with_lines(),
    quick=700,
    thorough=15000,
    rule="build_box_2D_with_lines reading the fractures from a file: the pieces of every side and fracture in order, one vertex per point, unique tags, the wire walking around the box, the links of the graph; non-trivial: a fracture that crosses or touches something",
)
def lines(case, ctx):
    from topology.domain_market import read_fractures_file

    c = Box(case)
    ctx.mark(bool(c.crossings or c.landings))
    ctx.event("%d lines, %d crossings, %d landings" % (len(c.lines), len(c.crossings), len(c.landings)))
    dom, rows, path = from_file(case, c, ctx)
    read = read_fractures_file(2, path)
    if read.shape != (len(rows), 2, 3) or not np.array_equal(read.reshape(len(rows), 6), np.array(rows).reshape(len(rows), 6)):
        raise Violation("the file of fractures is read as %s" % read.tolist())
    o = case["order"]
    for d in range(3):
        t = [s.tag for s in dom.shapes[d]]
        if len(set(t)) != len(t):
            raise Violation("shapes of dimension %d share tags: %s" % (d, sorted(t)))
    at = {}
    for v in dom.shapes[0]:
        p = locate(c, v.point)
        if p in at:
            raise Violation("two vertices at %s" % (p,), key="two-vertices")
        at[p] = v
    if set(at) != c.points:
        raise Violation("no vertex at %s" % (c.points - set(at),))
    wires = [w for w in dom.shapes[1] if w.composite]
    faces = list(dom.shapes[2])
    if len(wires) != 1 or len(faces) != 1 or faces[0].physical_tag != o[4] or not (len(faces[0].boundary_shapes) == 1 and faces[0].boundary_shapes[0] is wires[0]):
        raise Violation("%d wires and %d faces" % (len(wires), len(faces)))
    inside = list(faces[0].immersed_shapes)
    if len(inside) != len(c.lines):
        raise Violation("the face holds %d edges, %d fractures were given" % (len(inside), len(c.lines)))
    first = max(o[:5]) + 1
    parents = [(e, l, first + k) for k, (e, l) in enumerate(zip(inside, c.lines))]
    parents += [(e, l, o[k]) for k, (e, l) in enumerate(zip(dom.shapes[1][:4], c.sides))]
    todo = set(c.pieces)
    where, leaves, used = {}, [], set()
    for e, l, tag in parents:
        if e.composite or e.physical_tag != tag:
            raise Violation("the edge of %s is tagged %s, expected %s" % (l, e.physical_tag, tag))
        pieces = list(e.immersed_shapes) if len(e.immersed_shapes) else [e]
        for x in pieces:
            where[id(x)] = [locate(c, v.point) for v in x.boundary_shapes]
            leaves.append(x)
            for v in x.boundary_shapes:
                if not any(v is y for y in dom.shapes[0]):
                    raise Violation("a piece of %s ends in a vertex that is not part of the domain" % (l,))
            if frozenset(where[id(x)]) not in todo:
                raise Violation("edge %s is not a piece of the partition (or occurs twice)" % (where[id(x)],), key="pieces")
            todo.discard(frozenset(where[id(x)]))
            if not any(x is y for y in dom.shapes[1]):
                raise Violation("the piece %s is not part of the domain" % (where[id(x)],))
        along = [where[id(x)] for x in pieces]
        t = [exact.line_param(p, *l) + exact.line_param(q, *l) for p, q in along]
        if t != sorted(t) and t != sorted(t, reverse=True):
            raise Violation("the pieces of %s are out of order: %s" % (l, along))
    if todo:
        raise Violation("pieces %s are missing" % [sorted(x) for x in todo], key="pieces")
    loop(c, wires[0], where)
    if len(wires[0].boundary_shapes) == 0 or any(v is not at[where_start(c, wires[0], where)] for v in wires[0].boundary_shapes):
        raise Violation("the wire is not closed where it starts")
    # crossings and landings carry a tag of their own
    new = [at[p].physical_tag for p in c.points if p in c.crossings or (p in c.landings and p not in c.box)]
    if None in new or len(set(new)) != len(new) or set(new) & {t for _, _, t in parents}:
        raise Violation("the vertices where fractures meet are tagged %s" % new)
    nodes = set(dom.graph.nodes())
    want = {(0, faces[0].tag), (1, wires[0].tag)} | {(1, e.tag) for e in leaves} | {(1, e.tag) for e, _, _ in parents[: len(c.lines)]} | {(2, v.tag) for v in dom.shapes[0]}
    if nodes != want:
        raise Violation("the graph holds %s" % sorted(nodes ^ want))


def where_start(c, wire, where):
    e, o = list(wire.immersed_shapes)[0], wire.orientation[0]
    return where[id(e)][0 if o > 0 else 1]


def gmsh_mesh(ctx, write, dim, name="m.msh"):
    """Run the mesher and read its file back; gmsh is quiet and always left
    finalized."""
    import gmsh
    from mesh.mesh import Mesh

    if not hasattr(gmsh, "_initialize"):
        gmsh._initialize = gmsh.initialize

        def initialize(*args, **kwargs):
            gmsh._initialize(*args, **kwargs)
            gmsh.option.setNumber("General.Terminal", 0)

        gmsh.initialize = initialize
    path = os.path.join(ctx.tmp, name)
    try:
        write(path)
    finally:
        if gmsh.isInitialized():
            gmsh.finalize()
    m = Mesh(dimension=dim, file_name=path)
    m.build_conformal_mesh()
    return m


def measure(m, cell):
    x = np.array([m.points[i] for i in cell.node_tags], dtype=float)
    if cell.dimension == 0:
        return 1.0
    e = x[1:] - x[0]
    return np.sqrt(max(np.linalg.det(e @ e.T), 0.0)) / [1, 1, 2, 6][cell.dimension]


def by_tag(m, dim):
    out = {}
    for c in m.cells:
        if c is not None and c.dimension == dim and c.material_id is not None:
            out.setdefault(int(c.material_id), []).append(c)
    return out


def conform(m, dim, boundary, interior):
    """Every facet bounds one or two cells; those with one are the boundary."""
    count = {}
    for c in m.cells:
        if c.dimension == dim and c.material_id is not None:
            for f in c.sub_cells_ids[dim - 1]:
                count[int(f)] = count.get(int(f), 0) + 1
    if count and max(count.values()) > 2:
        raise Violation("a facet bounds %d cells" % max(count.values()))
    for t, cells in by_tag(m, dim - 1).items():
        for f in cells:
            n = count.get(int(f.id), 0)
            if n != (1 if t in boundary else 2):
                if n == 0 and t in interior:
                    raise Violation("facet %s with tag %d bounds no cell" % (m.points[f.node_tags].tolist(), t), key="lost")
                raise Violation("facet %s with tag %d bounds %d cells" % (m.points[f.node_tags].tolist(), t, n))
    lost = [f for f, n in count.items() if n == 1 and m.cells[f].material_id not in boundary]
    if lost:
        raise Violation("%d facets on the boundary carry no boundary tag" % len(lost))


@subcheck(
    "C16",
    "mesh",
    boxes(small=True),
    quick=120,
    thorough=3000,
    rule="DiscreteDomain + gmsh + build_conformal_mesh of a fractured box: area, lengths per tag and side, vertex tags, facets of one and two cells, refinement and prescribed points per curve; non-trivial: a fracture inside",
)
def mesh(case, ctx):
    from mesh.discrete_domain import DiscreteDomain

    c = Box(case)
    ctx.mark(any(t == LINE for t, _ in c.pieces.values()))
    dom = build(c, ctx)
    img = c.image
    size = np.linalg.norm(img(c.box[1]) - img(c.box[0]))
    args = {"lc": case["h"] * size, "n_refinements": case["refine"]}
    n = case["curve"]
    if n:
        args["curves_refinement"] = ([LINE, SIDES[0]], {"n_points": n, "meshType": "Bump", "coef": 1.0})

    def write(path):
        d = DiscreteDomain(dimension=2)
        d.domain = dom
        d.generate_mesh(args)
        d.write_mesh(path)

    m = gmsh_mesh(ctx, write, 2)
    tris = by_tag(m, 2)
    e = [img(p) - img(c.box[0]) for p in c.box[1:]]
    area = 0.5 * np.linalg.norm(np.cross(e[0], e[1]) + np.cross(e[1], e[2]))
    tol = 1e-7 * area
    if set(tris) != {c.area} or abs(sum(measure(m, t) for t in tris[c.area]) - area) > tol:
        raise Violation("triangles %s, area %s expected %s" % ({t: len(v) for t, v in tris.items()}, sum(measure(m, t) for v in tris.values() for t in v), area))
    if min(measure(m, t) for t in tris[c.area]) < 1e-6 * area / len(tris[c.area]):
        ctx.event("flat triangle by gmsh")
    ctx.event("%d triangles" % len(tris[c.area]))
    # every edge of a tag lies on one piece of that tag and they cover it
    edges = by_tag(m, 1)
    cover = {k: [] for k in c.pieces}
    for t, cells in edges.items():
        for f in cells:
            x = m.points[f.node_tags]
            hits = [k for k, (u, _) in c.pieces.items() if u == t and all(near(y, *map(img, sorted(k)), 1e-7 * size) for y in x)]
            if len(hits) != 1:
                raise Violation("an edge of tag %d at %s lies on %d pieces of that tag" % (t, x.tolist(), len(hits)))
            cover[hits[0]].append(measure(m, f))
    for k, v in cover.items():
        a, b = map(img, sorted(k))
        if abs(sum(v) - np.linalg.norm(b - a)) > 1e-7 * size:
            raise Violation("piece %s has edges of length %s, expected %s" % (sorted(k), sum(v), np.linalg.norm(b - a)))
        if n and c.pieces[k][0] in (LINE, SIDES[0]) and len(v) != (n - 1) * 2 ** case["refine"]:
            raise Violation("piece %s has %d edges, %d points and %d refinements were asked for" % (sorted(k), len(v), n, case["refine"]))
    try:
        conform(m, 2, set(SIDES), {LINE})
    except Violation as v:
        # gmsh itself now and then loses an embedded edge on strongly graded meshes
        if v.key != "lost":
            raise
        ctx.event("lost edge")
        args = {"lc": 0.11 * size, "n_refinements": 0}
        conform(gmsh_mesh(ctx, write, 2), 2, set(SIDES), {LINE})
    points = {}
    for t, cells in by_tag(m, 0).items():
        for v in cells:
            p = locate(c, m.points[v.node_tags[0]], 1e-7 * size)
            points[p] = t
    want = {p: c.tags_of(p) for p in c.points}
    for p, t in want.items():
        if points.get(p) not in t:
            raise Violation("the vertex at %s has tag %s, expected one of %s" % (p, points.get(p), t))


def near(x, a, b, tol):
    d = b - a
    t = np.clip(np.dot(x - a, d) / np.dot(d, d), 0.0, 1.0)
    return np.linalg.norm(x - a - t * d) < tol


@st.composite
def meshed_lines(draw):
    case = draw(boxes_with_lines())
    # few enough for a small mesh
    case["lines"] = case["lines"][: draw(st.integers(1, 3))]
    case["mesher"] = draw(st.sampled_from(["discrete", "conformal"]))
    return case


@subcheck(
    "C16",
    "lines_mesh",
    meshed_lines(),
    quick=200,
    thorough=2000,
    rule="both meshers on build_box_2D_with_lines: area, the edges of every side and of every fracture (its tag over its whole length, whether cut or not), facets of one and two cells, the tagged vertices; non-trivial: a fracture that crosses or touches something",
)
def lines_mesh(case, ctx):
    from mesh.conformal_mesher import ConformalMesher
    from mesh.discrete_domain import DiscreteDomain

    c = Box(case)
    ctx.mark(bool(c.crossings or c.landings))
    ctx.event("%d lines, %d crossings, %d landings" % (len(c.lines), len(c.crossings), len(c.landings)))
    dom, _, _ = from_file(case, c, ctx)
    img, o = c.image, case["order"]
    size = np.linalg.norm(img(c.box[1]) - img(c.box[0]))
    h = [min(case["h"], 0.6)]

    def write(path):
        if case["mesher"] == "conformal":
            d = ConformalMesher(dimension=2)
            d.domain = dom
            d.generate_from_domain(h[0] * size, case["refine"])
        else:
            d = DiscreteDomain(dimension=2)
            d.domain = dom
            d.generate_mesh({"lc": h[0] * size, "n_refinements": case["refine"]})
        d.write_mesh(path)

    m = gmsh_mesh(ctx, write, 2)
    tris = by_tag(m, 2)
    e = [img(p) - img(c.box[0]) for p in c.box[1:]]
    area = 0.5 * np.linalg.norm(np.cross(e[0], e[1]) + np.cross(e[1], e[2]))
    if set(tris) != {o[4]} or abs(sum(measure(m, t) for t in tris[o[4]]) - area) > 1e-7 * area:
        raise Violation("triangles %s fill another area than %s" % ({t: len(v) for t, v in tris.items()}, area))
    first = max(o[:5]) + 1
    of = {o[k]: s for k, s in enumerate(c.sides)}
    of.update({first + k: l for k, l in enumerate(c.lines)})
    edges = by_tag(m, 1)
    if set(edges) != set(of):
        raise Violation("edges are tagged %s, expected %s" % (sorted(edges), sorted(of)), key="edges")
    for t, l in of.items():
        a, b = map(img, l)
        got = sum(measure(m, f) for f in edges[t])
        if abs(got - np.linalg.norm(b - a)) > 1e-7 * size or not all(near(y, a, b, 1e-7 * size) for f in edges[t] for y in m.points[f.node_tags]):
            raise Violation("edges with tag %d cover %s of the %s from %s to %s" % (t, got, "side" if t in o[:4] else "fracture", a, b), key="edges")
    try:
        conform(m, 2, set(o[:4]), set(of) - set(o[:4]))
    except Violation as v:
        # see mesh
        if v.key != "lost":
            raise
        ctx.event("lost edge")
        h[0] = 0.11
        conform(gmsh_mesh(ctx, write, 2), 2, set(o[:4]), set(of) - set(o[:4]))
    points = {}
    for t, cells in by_tag(m, 0).items():
        for v in cells:
            points.setdefault(locate(c, m.points[v.node_tags[0]], 1e-7 * size), set()).add(t)
    for v in dom.shapes[0]:
        p = locate(c, v.point)
        if v.physical_tag is not None and points.get(p) != {v.physical_tag}:
            raise Violation("the vertex at %s has tags %s, expected %s" % (p, points.get(p), v.physical_tag), key="points")


def geometry_cells(dom, pts, loops, tags, sides, name):
    """The cells of a GeometryBuilder box bound each other as the box does."""
    dim = dom.dimension
    if not np.array_equal(dom.points, pts):
        raise Violation("the points of the box changed")
    for i, c in enumerate(dom.cells):
        if c.id != i:
            raise Violation("cell %d has id %d" % (i, c.id))

    def corners(c):
        if c.dimension == 0:
            return {c.point_id}
        return set().union(*(corners(b) for b in c.boundary_cells))

    of = {d: [c for c in dom.cells if c.dimension == d] for d in range(4)}
    want = [[{i} for i in range(len(pts))], [], []]
    quads = loops if dim == 3 else [list(range(4))] if dim == 2 else []
    want[1] = [{0, 1}] if dim == 1 else [set(x) for x in {frozenset((q[k], q[(k + 1) % 4])) for q in quads for k in range(4)}]
    want[2] = [set(q) for q in quads]
    for d in range(dim):
        if sorted(map(sorted, map(corners, of[d]))) != sorted(map(sorted, want[d])):
            raise Violation("the cells of dimension %d have corners %s" % (d, sorted(map(sorted, map(corners, of[d])))))
        for c in of[d + 1]:
            inside = [x for x in want[d] if x <= corners(c)]
            got = [corners(b) for b in c.boundary_cells]
            if any(b.dimension != d for b in c.boundary_cells) or sorted(map(sorted, got)) != sorted(map(sorted, inside)):
                raise Violation("the cell with corners %s is bounded by %s" % (sorted(corners(c)), got))
    by_corners = {tuple(sorted(corners(c))): c for c in of[dim - 1]}
    for x, l in zip(sides, loops):
        if by_corners[tuple(sorted(l))].physical_tag != tags[x]:
            raise Violation("side %s is tagged %s" % (x, by_corners[tuple(sorted(l))].physical_tag))
    if [c.physical_tag for c in of[dim]] != [tags[name]]:
        raise Violation("the box is tagged %s" % [c.physical_tag for c in of[dim]])
    edges = {(c.id, b.id) for c in dom.cells for b in c.boundary_cells}
    if set(dom.graph.edges()) != edges:
        raise Violation("the graph links %s" % sorted(set(dom.graph.edges()) ^ edges))


@st.composite
def plain(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    return {
        "dim": dim,
        "size": [draw(st.sampled_from([0.5, 1.0, 1.5, 3.0])) for _ in range(3)],
        "shear": [draw(st.sampled_from([0, 0, 0.25, -0.5])) for _ in range(3)],
        "frame": draw(exact.frames()),
        "h": draw(st.sampled_from([0.4, 0.7, 3.0])),
        "refine": draw(st.sampled_from([0, 0, 1])),
        "tags": draw(st.permutations([1, 2, 3, 4, 5, 6, 9])),
        "none": draw(st.sampled_from([None, None, 0, 1])),
        "mesher": draw(st.sampled_from(["conformal", "discrete", "builder"])),
    }


@subcheck(
    "C16",
    "plain",
    plain(),
    quick=80,
    thorough=2000,
    rule="build_box_1D/2D/3D meshed by both meshers: measures of the box and of every tagged side, no tag where none is asked for, conformity; non-trivial: two or three dimensions",
)
def plain_box(case, ctx):
    from geometry.geometry_builder import GeometryBuilder
    from mesh.conformal_mesher import ConformalMesher
    from mesh.discrete_domain import DiscreteDomain
    from topology.domain_market import build_box_1D, build_box_2D, build_box_3D

    dim = case["dim"]
    ctx.mark(dim > 1)
    (a, b, h), (s, t, u) = case["size"], case["shear"]
    base = [(0, 0, 0), (a, 0, 0), (a + s, b, 0), (s, b, 0)]
    pts = [base[:2], base, base + [(x + t, y + u, h) for x, y, _ in base]][dim - 1]
    pts = np.array([exact.apply_frame(case["frame"], [p])[0] for p in pts])
    name = ["line", "area", "solid"][dim - 1]
    sides = ["bc_%d" % i for i in range(2 * dim)]
    legacy = case["mesher"] == "builder"
    if legacy and dim == 3:
        name = "volume"
    tags = dict(zip([name] + sides, case["tags"]))
    untagged = case["none"] is not None and not legacy
    if untagged:
        tags.pop(sides[case["none"]])
    if legacy:
        dom = GeometryBuilder(dimension=dim)
        dom.set_physical_tags(tags)
        [dom.build_box_1D, dom.build_box_2D, dom.build_box][dim - 1](pts)
    else:
        dom = [build_box_1D, build_box_2D, build_box_3D][dim - 1](pts, tags)
    loops = [
        [[0], [1]],
        [[0, 1], [1, 2], [2, 3], [3, 0]],
        [[0, 1, 2, 3], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]],
    ][dim - 1]
    if legacy and dim == 3:
        loops = loops[2:] + loops[:2]
    cells = [x for x in dom.cells if x.dimension == dim - 1] if legacy else dom.shapes[dim - 1]
    got = {s.physical_tag for s in cells if s.physical_tag is not None}
    if got != {tags[x] for x in sides if x in tags}:
        raise Violation("sides are tagged %s" % sorted(got))
    if legacy:
        geometry_cells(dom, pts, loops, tags, sides, name)
    size = np.linalg.norm(pts[1] - pts[0])

    def write(path):
        if legacy:
            c = ConformalMesher(dimension=dim)
            c.set_geometry_builder(dom)
            c.set_points()
            c.generate(case["h"] * size, case["refine"])
            c.write_mesh(path)
        elif case["mesher"] == "conformal":
            c = ConformalMesher(dimension=dim)
            c.domain = dom
            c.generate_from_domain(case["h"] * size, case["refine"])
            c.write_mesh(path)
        else:
            d = DiscreteDomain(dimension=dim)
            d.domain = dom
            d.generate_mesh({"lc": case["h"] * size, "n_refinements": case["refine"]})
            d.write_mesh(path)

    m = gmsh_mesh(ctx, write, dim)
    cells = by_tag(m, dim)
    full = abs(np.linalg.det(pts[[1, 3, 4]] - pts[0])) if dim == 3 else size
    if dim == 2:
        full = np.linalg.norm(np.cross(pts[1] - pts[0], pts[3] - pts[0]))
    if set(cells) != {tags[name]} or abs(sum(measure(m, x) for x in cells[tags[name]]) - full) > 1e-7 * full:
        raise Violation("cells %s fill %s, expected %s" % ({k: len(v) for k, v in cells.items()}, [sum(measure(m, x) for x in v) for v in cells.values()], full))
    facets = by_tag(m, dim - 1)
    if set(facets) != {tags[x] for x in sides if x in tags}:
        raise Violation("facets are tagged %s" % sorted(facets))
    for x, l in zip(sides, loops):
        if x not in tags:
            continue
        q = pts[l]
        want = 1.0 if dim == 1 else np.linalg.norm(q[1] - q[0]) if dim == 2 else np.linalg.norm(np.cross(q[1] - q[0], q[3] - q[0]))
        if abs(sum(measure(m, f) for f in facets[tags[x]]) - want) > 1e-7 * want:
            raise Violation("side %s measures %s, expected %s" % (x, sum(measure(m, f) for f in facets[tags[x]]), want))
        e = (q[1:] - q[0]).reshape(-1, 3)
        for f in facets[tags[x]]:
            for y in m.points[f.node_tags] - q[0]:
                r = y - (e.T @ np.linalg.lstsq(e.T, y, rcond=None)[0] if dim > 1 else 0)
                if np.linalg.norm(r) > 1e-7 * size:
                    raise Violation("a facet of side %s lies off it" % x)
    if not untagged:
        conform(m, dim, {tags[x] for x in sides}, set())
