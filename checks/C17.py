"""C17 - cutting meshes along fractures."""

import itertools
import os

import numpy as np
from hypothesis import strategies as st

from checks.C16 import LINE, SIDES, Box, boxes, build, by_tag, gmsh_mesh, measure, near, numbers
from harness import exact
from harness.core import Violation, subcheck

TITLE = "Cutting a mesh along fractures opens exactly the fractures"
ASSUMPTIONS = [
    "fractures in the plane z=0, cut in an order in which none ends on a later one",
    "every fracture has at least one mesh vertex between its ends",
]
LINE_CLONES, POINT_CLONES = 50, 100


@st.composite
def cuts(draw):
    case = draw(boxes(frame=False))
    case["curve"] = draw(st.sampled_from([0, 3, 3, 4, 5]))
    case["refine"] = 0 if case["curve"] else 1
    case["free"] = draw(st.sampled_from([None, None, LINE])) if case["same"] != "ends" else None
    F = exact.F
    box = [exact.vec(F(x) for x in p) for p in case["box"]]
    pad = lambda r: tuple(r) + (F(0),)
    lines = []
    for l in case["lines"]:
        a, b = (exact.vec(F(x) for x in p) for p in l)
        ok = True
        for p, q in lines:
            for x in exact.segment_segment(pad(a), pad(b), pad(p), pad(q)):
                # ends inside of the box on a later fracture
                ok = ok and not (x[:2] in (p, q) and exact.in_polygon(x[:2], box) == 2)
        if ok:
            lines.append((a, b))
    case["lines"] = [[[str(x) for x in p] for p in l] for l in lines]
    if not lines:
        mid = [str(sum(p[k] for p in box) / 4) for k in (0, 1)]
        case["lines"] = [[mid, [str(F(mid[0]) + 1), str(F(mid[1]) + F(1, 2))]]]
    return case


class Before:
    """What the mesh was: cells with their nodes, and the parts of the ring of
    triangles around every vertex that a cut along `fracture` edges leaves."""

    def __init__(self, m, fracture):
        self.n = len(m.cells)
        self.points = m.points.copy()
        self.triangles = {c.id: (list(c.node_tags), c.material_id, [int(e) for e in c.sub_cells_ids[1]]) for c in m.cells if c.dimension == 2}
        self.edges = {c.id: (list(c.node_tags), c.material_id) for c in m.cells if c.dimension == 1}
        self.tags = {c.node_tags[0]: c.material_id for c in m.cells if c.dimension == 0}
        self.fracture = set(fracture)
        around, of_edge = {}, {}
        for t, (nodes, _, edges) in self.triangles.items():
            for v in nodes:
                around.setdefault(int(v), []).append(t)
            for e in edges:
                of_edge.setdefault(e, []).append(t)
        self.of_edge = of_edge
        self.part = {}
        for v, ts in around.items():
            root = {t: t for t in ts}

            def find(t):
                while root[t] != t:
                    t = root[t]
                return t

            for e, (a, b) in ((e, self.edges[e][0]) for t in ts for e in self.triangles[t][2]):
                if v in (a, b) and e not in self.fracture and len(of_edge[e]) == 2:
                    x, y = map(find, of_edge[e])
                    root[x] = y
            for t in ts:
                self.part[(v, t)] = find(t)
        self.split = {v for v, ts in around.items() if len({self.part[(v, t)] for t in ts}) > 1}


def consistent(m):
    for i, c in enumerate(m.cells):
        if c is None or c.id != i:
            raise Violation("cell %d has id %s" % (i, None if c is None else c.id))
        if [int(x) for x in c.sub_cells_ids[c.dimension]] != [i]:
            raise Violation("cell %d of dimension %d lists %s as itself" % (i, c.dimension, list(c.sub_cells_ids[c.dimension])))
        if max(c.node_tags) >= len(m.points):
            raise Violation("cell %d uses node %d of %d" % (i, max(c.node_tags), len(m.points)))
        if c.dimension == 0:
            if len(c.node_tags) != 1:
                raise Violation("vertex %d has nodes %s" % (i, c.node_tags))
            continue
        verts = [m.cells[v] for v in c.sub_cells_ids[0]]
        if any(v.dimension != 0 for v in verts) or [int(v.node_tags[0]) for v in verts] != [int(x) for x in c.node_tags]:
            raise Violation("cell %d has nodes %s, its vertices %s" % (i, list(c.node_tags), [list(v.node_tags) for v in verts]))
        if c.dimension == 2:
            for k, e in enumerate(c.sub_cells_ids[1]):
                e = m.cells[e]
                if e.dimension != 1 or set(map(int, e.sub_cells_ids[0])) != {int(v) for j, v in enumerate(c.sub_cells_ids[0]) if j != k}:
                    raise Violation("edge %d of triangle %d has vertices %s, the triangle %s" % (k, i, list(e.sub_cells_ids[0]), list(c.sub_cells_ids[0])))


def verify(m, b):
    """The mesh m is the mesh b opened along its fracture edges."""
    consistent(m)
    for t, (nodes, mat, edges) in b.triangles.items():
        c = m.cells[t]
        if c.dimension != 2 or c.material_id != mat or not np.array_equal(m.points[c.node_tags], b.points[nodes]):
            raise Violation("triangle %d moved or changed" % t)
        for k, e in enumerate(edges):
            new = int(c.sub_cells_ids[1][k])
            if (new == e) != (e not in b.fracture):
                raise Violation("edge %d of triangle %d is %s a fracture edge and became edge %d" % (e, t, "not" if e not in b.fracture else "", new))
    if sum(c.dimension == 2 for c in m.cells) != len(b.triangles):
        raise Violation("the number of triangles changed")
    use, place = {}, {}
    for t, (nodes, _, _) in b.triangles.items():
        c = m.cells[t]
        for e in c.sub_cells_ids[1]:
            use.setdefault(int(e), []).append(t)
        for k, v in enumerate(nodes):
            place.setdefault((int(v), b.part[(int(v), t)]), set()).add((int(c.sub_cells_ids[0][k]), int(c.node_tags[k])))
    for e, (_, mat) in b.edges.items():
        if e in b.fracture:
            if e in use:
                raise Violation("the fracture edge %d still bounds triangle %s" % (e, use[e]))
        elif m.cells[e].material_id != mat or use.get(e) != b.of_edge.get(e):
            raise Violation("edge %d off the fractures changed" % e)
    new = [c for c in m.cells[b.n :] if c.dimension == 1]
    for c in new:
        if len(use.get(c.id, [])) > 1:
            raise Violation("the cloned edge %d bounds %d triangles" % (c.id, len(use[c.id])))
    seen = {}
    for (v, part), ids in place.items():
        if len(ids) != 1:
            raise Violation("triangles joined at node %d (%s) see vertices %s" % (v, b.points[v], sorted(ids)))
        i = ids.pop()
        if i in seen or i[1] in {x[1] for x in seen}:
            raise Violation("sides separated at node %d (%s) share vertex %s" % (v, b.points[v], i))
        seen[i] = v
        if (v not in b.split) != (i[1] == v):
            raise Violation("node %d, %s, became %d" % (v, "split" if v in b.split else "not split", i[1]))
    return use



def cut_tags(case):
    _, ends, point = numbers(case)
    return {"line": LINE, "internal_bc": ends, "point": point, "line_clones": LINE_CLONES, "point_clones": POINT_CLONES}


def prepare(case, ctx):
    """The mesh of a fractured box, what it is before the cut, the fractures."""
    from mesh.discrete_domain import DiscreteDomain

    c = Box(case)
    inner = [l for l in c.lines if any(t == LINE and o == l for t, o in c.pieces.values())]
    dom = build(c, ctx)
    size = np.linalg.norm(c.image(c.box[1]) - c.image(c.box[0]))
    args = {"lc": case["h"] * size, "n_refinements": case["refine"]}
    if case["curve"]:
        args["curves_refinement"] = ([LINE], {"n_points": case["curve"], "meshType": "Bump", "coef": 1.0})

    def write(path):
        d = DiscreteDomain(dimension=2)
        d.domain = dom
        d.generate_mesh(args)
        d.write_mesh(path)

    m = gmsh_mesh(ctx, write, 2)
    fracture = [int(e.id) for e in by_tag(m, 1).get(LINE, [])]
    # ConformalMesher gives the vertices of a fracture without a tag that of the fracture
    for v in {int(v) for e in fracture for v in m.cells[e].sub_cells_ids[0]}:
        if case.get("free") and m.cells[v].material_id is None:
            m.cells[v].set_material_id(case["free"])
    b = Before(m, fracture)
    if any(len(b.of_edge.get(e, [])) != 2 for e in fracture):
        ctx.event("edge lost by gmsh")
        return None
    areas = [measure(m, t) for t in m.cells if t.dimension == 2]
    if min(areas) < 1e-6 * sum(areas) / len(areas):
        ctx.event("flat triangle by gmsh")
        return None
    ctx.mark(len(fracture) > 1)
    ctx.event("%d fractures, %s" % (len(inner), "crossing" if c.crossings else "disjoint"))
    if not inner:
        return None
    ends = np.array([[c.image(p) for p in l] for l in inner])
    return m, b, fracture, inner, ends, size


@subcheck(
    "C17",
    "lines",
    cuts(),
    quick=240,
    thorough=6000,
    rule="cut_conformity_along_c1_lines on gmsh meshes of fractured boxes (tips, crossings, landings on the boundary, T-junctions), against the parts the ring of triangles around each vertex falls into; interfaces by side; non-trivial: at least two fracture edges",
)
def lines(case, ctx):
    from mesh.mesh_operations import cut_conformity_along_c1_lines

    ready = prepare(case, ctx)
    if ready is None:
        return
    m, b, fracture, inner, ends, size = ready
    tags = cut_tags(case)
    out = cut_conformity_along_c1_lines(ends, tags, m)
    use = verify(m, b)
    if len(out) != len(inner):
        raise Violation("%d interfaces for %d fractures" % (len(out), len(inner)))
    on = [[e for e in fracture if all(near(b.points[v], x, y, 1e-7 * size) for v in b.edges[e][0])] for x, y in ends]
    crossing = [v for e, f in itertools.combinations(map(set, ([v for e in es for v in b.edges[e][0]] for es in on)), 2) for v in e & f]
    for es, (x, y), inter in zip(on, ends, out):
        orig, pos, neg = inter["c1"]
        if sorted(e.id for e in orig) != sorted(es):
            raise Violation("the interface of %s has edges %s, expected %s" % ((x, y), sorted(e.id for e in orig), sorted(es)))
        normal = np.array([-(y - x)[1], (y - x)[0], 0.0])
        for e, p, n in zip(orig, pos, neg, strict=True):
            for f in (e, p, n):
                if m.cells[f.id] is not f:
                    raise Violation("cell %d of the interface is not the one of the mesh" % f.id)
                if not np.array_equal(m.points[f.node_tags], b.points[b.edges[e.id][0]]):
                    raise Violation("edge %d of the interface moved" % f.id)
            if e.material_id != LINE or p.material_id != LINE_CLONES or n.material_id != LINE_CLONES:
                raise Violation("interface tags %s %s %s" % (e.material_id, p.material_id, n.material_id))
            for f, s in ((p, 1.0), (n, -1.0)):
                t = use.get(f.id, [])
                if len(t) != 1 or t[0] not in b.of_edge[e.id]:
                    raise Violation("clone %d of edge %d bounds triangles %s" % (f.id, e.id, t))
                if s * np.dot(np.mean(b.points[b.triangles[t[0]][0]], axis=0) - x, normal) <= 0:
                    raise Violation("clone %d of edge %d is on the wrong side" % (f.id, e.id))
            # the fracture itself is cut by other fractures only
            for v, w in zip(b.edges[e.id][0], e.node_tags):
                if v not in crossing and v != w:
                    raise Violation("node %d of the fracture edge %d became %d" % (v, e.id, w))
        o2, p2, n2 = inter["c2"]
        for v, p, n in zip(o2, p2, n2, strict=True):
            for f in (p, n):
                if not np.array_equal(m.points[f.node_tags], m.points[v.node_tags]):
                    raise Violation("vertex %d is cloned elsewhere" % v.id)
                if v.material_id == tags["point"]:
                    want = {POINT_CLONES}
                elif v.material_id == LINE:
                    want = {LINE, LINE_CLONES}
                else:
                    want = {v.material_id}
                if f.material_id not in want:
                    raise Violation("clone of a vertex tagged %s is tagged %s" % (v.material_id, f.material_id))
        nodes = {int(v) for e in es for v in b.edges[e][0] if v not in crossing}
        got = {int(v.node_tags[0]) for v in o2} & nodes
        if got != {v for v in nodes if b.tags[v] != tags["internal_bc"]}:
            raise Violation("interface vertices %s" % sorted(got))


@subcheck(
    "C17",
    "opened",
    cuts(),
    quick=40,
    thorough=1000,
    rule="the same with an opening to look at (visual_frac_q), on boxes without crossings: the mesh of the plain cut, whose copied vertices are moved along the normal of their fracture to their own side, both sides alike and less than the fracture is long; non-trivial: at least two fracture edges",
)
def opened(case, ctx):
    import copy

    from mesh.mesh_operations import cut_conformity_along_c1_lines

    ready = prepare(case, ctx)
    if ready is None:
        return
    m, b, fracture, inner, ends, size = ready
    on = [{int(v) for e in fracture if all(near(b.points[v], x, y, 1e-7 * size) for v in b.edges[e][0]) for v in b.edges[e][0]} for x, y in ends]
    if any(p & q for p, q in itertools.combinations(on, 2)):
        ctx.event("fractures meet")
        return
    tags = cut_tags(case)
    plain = copy.deepcopy(m)
    cut_conformity_along_c1_lines(ends, tags, plain)
    out = cut_conformity_along_c1_lines(ends, tags, m, visual_frac_q=True)
    if len(m.cells) != len(plain.cells) or m.points.shape != plain.points.shape:
        raise Violation("opened to look at, the mesh has %d cells and %d points" % (len(m.cells), len(m.points)))
    for c, d in zip(m.cells, plain.cells):
        same = (c.dimension, c.id, c.material_id) == (d.dimension, d.id, d.material_id)
        if not same or list(c.node_tags) != list(d.node_tags) or any(list(p) != list(q) for p, q in zip(c.sub_cells_ids, d.sub_cells_ids)):
            raise Violation("opened to look at, cell %d is another one" % c.id)
    moved = m.points - plain.points
    for (x, y), inter in zip(ends, out):
        length = np.linalg.norm(y - x)
        normal = np.array([-(y - x)[1], (y - x)[0], 0.0]) / length
        for v, p, n in zip(*inter["c2"], strict=True):
            up, down = (moved[f.node_tags[0]] for f in (p, n))
            if np.abs(up + down).max() > 1e-12 * size or np.abs(up - (up @ normal) * normal).max() > 1e-12 * size:
                raise Violation("the copies of vertex %d are moved by %s and %s" % (v.id, up, down))
            if not 0 < up @ normal < length:
                raise Violation("the copies of vertex %d of %s are moved to the other side (by %g)" % (v.id, (x, y), up @ normal))
            moved[p.node_tags[0]] = moved[n.node_tags[0]] = 0.0
    if moved.any():
        raise Violation("points off the fractures are moved")


@st.composite
def networks(draw):
    F = exact.F
    pad = lambda r: tuple(r) + (F(0),)
    inner = st.tuples(st.integers(2, 14), st.integers(2, 14)).map(lambda p: (F(p[0]), F(p[1])))
    lines = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3, 4]))):
        a, b = draw(inner), draw(inner)
        if lines and draw(st.booleans()):
            p, q = lines[draw(st.integers(0, len(lines) - 1))]
            x = exact.add(p, exact.mul(F(draw(st.integers(1, 3)), 4), exact.sub(q, p)))
            if draw(st.booleans()):
                a = x
            else:
                b = exact.add(x, exact.mul(F(1, 2), exact.sub(x, a)))
        if draw(st.booleans()):
            a, b = b, a
        if a == b or not all(1 <= x <= 15 for x in a + b):
            continue
        for p, q in lines:
            x = exact.segment_segment(pad(a), pad(b), pad(p), pad(q))
            if len(x) == 2 or any(y[:2] in (p, q) for y in x):
                break
        else:
            lines.append((a, b))
    if not lines:
        lines = [((F(3), F(3)), (F(5), F(9)))]
    return {
        "lines": [[[str(x) for x in p] for p in l] for l in lines],
        "size": draw(st.sampled_from([1.0, 1.0, 0.5, 2.0])),
        "shear": draw(st.sampled_from([0.0, 0.0, 0.25])),
        "h": draw(st.sampled_from([0.08, 0.1, 0.15])),
        "shift": draw(st.sampled_from([10, 10, 20])),
    }


@subcheck(
    "C17",
    "network",
    networks(),
    quick=80,
    thorough=2500,
    rule="fracture networks inside a box meshed by ConformalMesher and cut by cut_conformity_on_fractures_mds_ec: same oracle, tags of the clones per fracture and side, pairs returned, closed circulation; non-trivial: at least two fracture edges",
)
def network(case, ctx):
    from geometry.fracture_network import FractureNetwork
    from geometry.geometry_builder import GeometryBuilder
    from mesh.conformal_mesher import ConformalMesher
    from mesh.mesh import Mesh

    size = case["size"]
    at = lambda p: np.array([float(exact.F(p[0])) + case["shear"] * float(exact.F(p[1])), float(exact.F(p[1])), 0.0]) * size / 16
    ends = [np.array([at(p) for p in l]) for l in case["lines"]]
    box = np.array([at(p) for p in [(0, 0), (16, 0), (16, 16), (0, 16)]])
    mesher = ConformalMesher(dimension=2)
    builder = GeometryBuilder(dimension=2)
    builder.build_box_2D(box)
    mesher.set_geometry_builder(builder)
    net = FractureNetwork(dimension=2, physical_tag_shift=case["shift"])
    net.intersect_1D_fractures(ends)
    net.build_grahp(all_fixed_d_cells_q=True)
    mesher.set_fracture_network(net)
    mesher.set_points()

    def write(path):
        mesher.generate(case["h"] * size)
        mesher.write_mesh(path)

    m = gmsh_mesh(ctx, write, 2)
    m.set_conformal_mesher(mesher)
    tags = [case["shift"] + k for k in range(len(ends))]
    edges = by_tag(m, 1)
    if any(t not in edges for t in tags):
        raise Violation("edges are tagged %s, fractures %s" % (sorted(edges), tags))
    for t, (x, y) in zip(tags, ends):
        for e in edges[t]:
            if not all(near(m.points[v], x, y, 1e-7 * size) for v in e.node_tags):
                raise Violation("an edge of fracture %d lies off it" % t)
        length = sum(measure(m, e) for e in edges[t])
        if abs(length - np.linalg.norm(y - x)) > 1e-7 * size:
            raise Violation("the edges of fracture %d measure %s, expected %s" % (t, length, np.linalg.norm(y - x)))
    fracture = [int(e.id) for t in tags for e in edges[t]]
    b = Before(m, fracture)
    areas = [measure(m, t) for t in m.cells if t.dimension == 2]
    if any(len(b.of_edge.get(e, [])) != 2 for e in fracture) or min(areas) < 1e-6 * sum(areas) / len(areas):
        ctx.event("bad gmsh mesh")
        return
    ctx.mark(len(fracture) > 1)
    ctx.event("%d fractures" % len(ends))
    pairs = m.cut_conformity_on_fractures_mds_ec()
    use = verify(m, b)
    if sorted(map(int, pairs)) != sorted(fracture):
        raise Violation("pairs of %s, fracture edges %s" % (sorted(map(int, pairs)), sorted(fracture)))
    for t, (x, y) in zip(tags, ends):
        for e in edges[t]:
            sides = set()
            for f, want in zip(pairs[e.id], (10 * t + 1, 10 * t - 1), strict=True):
                f = m.cells[f]
                if f.material_id != want or not np.array_equal(m.points[f.node_tags], b.points[b.edges[e.id][0]]):
                    raise Violation("clone %d of edge %d is tagged %s at %s" % (f.id, e.id, f.material_id, m.points[f.node_tags].tolist()))
                s = use.get(int(f.id), [])
                if len(s) != 1 or s[0] not in b.of_edge[e.id]:
                    raise Violation("clone %d of edge %d bounds triangles %s" % (f.id, e.id, s))
                w = np.mean(b.points[b.triangles[s[0]][0]], axis=0) - x
                sides.add((want, (y - x)[0] * w[1] - (y - x)[1] * w[0] > 0))
            if sides not in ({(10 * t + 1, True), (10 * t - 1, False)},):
                raise Violation("clones of edge %d lie on sides %s" % (e.id, sides))
    if not m.circulate_internal_bc()[0]:
        raise Violation("the circulation around the fractures is not closed")
