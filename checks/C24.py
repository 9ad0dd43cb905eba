"""C24 - output of meshes."""

import os

import meshio
import numpy as np
from hypothesis import strategies as st

from checks import C17
from harness import meshes
from harness.core import Violation, subcheck

TITLE = "Mesh output files hold the cells, tags and points of the mesh"
ASSUMPTIONS = ["output without mesh coloring"]
TYPE = ["vertex", "line", "triangle", "tetra"]


@st.composite
def cases(draw, large=None):
    if large:
        c = draw(meshes.large_cases(top=large))
    else:
        c = draw(meshes.mesh_cases(dims=(1, 2, 2, 3), small=True, scales=(1.0, 1e-3, 50.0), flat=draw(st.booleans())))
    c["untag"] = draw(st.lists(st.integers(0, 60), max_size=3))
    c["name"] = draw(st.sampled_from(["out", "out", "mesh_h_0.5", "a.b.c", "out.vtk", "two words", None]))
    c["retag"] = draw(st.lists(st.tuples(st.integers(0, 60), st.integers(50, 52)).map(list), max_size=3))
    return c


def prepared(case, ctx):
    real, mesh = meshes.make(case, ctx.tmp)
    for i in case["untag"]:
        mesh.cells[i % len(mesh.cells)].set_material_id(None)
    for i, t in case["retag"]:
        mesh.cells[i % len(mesh.cells)].set_material_id(t)
    return real, mesh


def tagged(mesh, d):
    return {int(c.id): (tuple(map(int, c.node_tags)), int(c.material_id)) for c in mesh.cells if c.dimension == d and c.material_id is not None}


@subcheck(
    "C24",
    "vtk",
    cases(),
    quick=900,
    thorough=20000,
    rule="Mesh.write_vtk of meshes with tags on entities of any dimension, some removed or added afterwards, read back with meshio; non-trivial: tagged entities of at least two dimensions",
)
def vtk(case, ctx):
    real, mesh = prepared(case, ctx)
    check_vtk(case, mesh, ctx)


def check_vtk(case, mesh, ctx):
    ctx.event(str(case["name"]))
    here = os.getcwd()
    os.chdir(ctx.tmp)
    try:
        # in the current folder, or under a path
        prefix = case["name"] or "geometric_mesh"
        if case["untag"]:
            prefix = os.path.join(ctx.tmp, prefix)
        old = set(os.listdir(ctx.tmp))
        mesh.write_vtk(*([prefix] if case["name"] else []))
    finally:
        os.chdir(here)
    prefix = os.path.join(ctx.tmp, case["name"] or "geometric_mesh")
    want = {"%s_%dd.vtk" % (os.path.basename(prefix), d) for d in range(4) if tagged(mesh, d)}
    if set(os.listdir(ctx.tmp)) != old | want:
        raise Violation("written %s, expected %s" % (sorted(set(os.listdir(ctx.tmp)) - old), sorted(want)))
    n = 0
    for d in range(4):
        path = "%s_%dd.vtk" % (prefix, d)
        want = tagged(mesh, d)
        n += bool(want)
        if os.path.exists(path) != bool(want):
            raise Violation("%s %s, the mesh has %d tagged cells" % (path, "exists" if not want else "is missing", len(want)))
        if not want:
            continue
        m = meshio.read(path)
        if not np.array_equal(m.points, mesh.points):
            raise Violation("the points of dimension %d differ" % d)
        if [b.type for b in m.cells] != [TYPE[d]] or set(m.cell_data) != {"physical_tag", "entity_tag"}:
            raise Violation("file %d holds %s with %s" % (d, [b.type for b in m.cells], sorted(m.cell_data)))
        data = m.cells[0].data
        tags, ids = (np.ravel(m.cell_data[k][0]) for k in ("physical_tag", "entity_tag"))
        if not len(data) == len(tags) == len(ids) == len(want):
            raise Violation("dimension %d: %d cells, %d tags, %d ids, expected %d" % (d, len(data), len(tags), len(ids), len(want)))
        got = {int(i): (tuple(map(int, c)), int(t)) for c, t, i in zip(data, tags, ids)}
        if got != want:
            i = next(i for i in want if got.get(i) != want[i])
            raise Violation("entity %d of dimension %d is written as %s, it is %s" % (i, d, got.get(i), want[i]))
    ctx.mark(n > 1)


@subcheck(
    "C24",
    "data",
    cases(),
    quick=600,
    thorough=12000,
    rule="Mesh.write_data of the same meshes, parsed: dimensions, points, and for every cell its type, id, tag, nodes and sub cells; non-trivial: more than one cell",
)
def data(case, ctx):
    real, mesh = prepared(case, ctx)
    if all(c.material_id is None for c in mesh.cells):
        return
    ctx.mark(len(real.cells) > 1)
    check_data(mesh, ctx)


def check_data(mesh, ctx):
    path = os.path.join(ctx.tmp, "out.txt")
    mesh.write_data(path)
    with open(path) as f:
        lines = [l.strip() for l in f]
    head = {}
    points, cells = [], []
    for l in lines:
        if not l or ":" not in l:
            continue
        k, v = l.split(":", 1)
        k = " ".join(k.split())
        if k == "tag":
            v = v.split()
            if int(v[0]) != len(points):
                raise Violation("point %s at position %d" % (v[0], len(points)))
            points.append([float(x) for x in v[1:]])
        elif k == "Entity_type":
            cells.append({k: v.strip()})
        elif cells:
            cells[-1][k] = v.strip()
        else:
            head[k] = int(v)
    dims = [c.dimension for c in mesh.cells]
    with_tag = [c.dimension for c in mesh.cells if c.material_id is not None]
    want = {
        "Min entity dimension": min(dims),
        "Max entity dimension": max(dims),
        "Min entity dimension with physical tag": min(with_tag),
        "Max entity dimension with physical tag": max(with_tag),
        "Number_of_points": len(mesh.points),
    }
    for k, v in want.items():
        if head.get(k) != v:
            raise Violation("%s is %s, expected %s" % (k, head.get(k), v))
    if not np.array_equal(np.array(points), mesh.points):
        raise Violation("the points differ")
    if len(cells) != len(mesh.cells) or cells and int(cells[0].get("Number_of_cells", len(cells))) != len(mesh.cells):
        raise Violation("%d cells are written of %d" % (len(cells), len(mesh.cells)))
    if head.get("Number_of_cells") != len(mesh.cells):
        raise Violation("Number_of_cells is %s, expected %d" % (head.get("Number_of_cells"), len(mesh.cells)))
    ints = lambda s: [int(x) for x in s.split()]
    for c, got in zip(mesh.cells, cells):
        want = {
            "Dimension": [c.dimension],
            "Tag": [c.id],
            "Node_tags": [int(x) for x in c.node_tags],
        }
        for d in range(c.dimension + 1):
            want["Entities of dimension %d" % d] = [int(x) for x in c.sub_cells_ids[d]]
        for k, v in want.items():
            if ints(got.get(k, "")) != v:
                raise Violation("%s of cell %d is %r, expected %s" % (k, c.id, got.get(k), v))
        if got.get("Physical_tag") != str(c.material_id) or got["Entity_type"] != "%dd-cell" % c.dimension:
            raise Violation("cell %d is written with tag %s and type %s" % (c.id, got.get("Physical_tag"), got["Entity_type"]))


@subcheck(
    "C24",
    "large",
    cases(large=(1200, 36, 6)),
    quick=24,
    thorough=300,
    weight=2.0,
    rule="both kinds of output of meshes of hundreds to thousands of entities; non-trivial: tagged entities of at least two dimensions",
)
def large(case, ctx):
    vtk(case, ctx)
    data(case, ctx)


@st.composite
def cut_cases(draw):
    c = draw(C17.cuts())
    c["untag"] = []
    c["name"] = draw(st.sampled_from(["out", "cut_h_0.5", None]))
    return c


@subcheck(
    "C24",
    "cut",
    cut_cases(),
    quick=8,
    thorough=600,
    weight=4.0,
    rule="write_vtk and write_data of meshes of fractured boxes (gmsh) cut along their fractures, whose cells and points the cut added; non-trivial: copies were made",
)
def cut(case, ctx):
    from mesh.mesh_operations import cut_conformity_along_c1_lines

    ready = C17.prepare(case, ctx)
    if ready is None:
        return
    mesh, before, fracture, inner, ends, size = ready
    n = len(mesh.cells)
    cut_conformity_along_c1_lines(ends, C17.cut_tags(case), mesh)
    ctx.mark(len(mesh.cells) > n)
    check_vtk(case, mesh, ctx)
    check_data(mesh, ctx)
