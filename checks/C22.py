"""C22 - output of discrete fields."""

import os

import meshio
import numpy as np
from hypothesis import strategies as st

from checks import C09
from harness import fields, meshes, poly
from harness.core import Violation, subcheck

TITLE = "Field output files hold the values of the fields"
ASSUMPTIONS = [
    "meshes flat in R^dim; vector families in 2D and 3D; fields that live on entities of a lower dimension are Lagrange",
    "exact functions evaluated point by point",
]
meshio.vtk._vtk_42.warn = lambda *args, **kwargs: None
meshio.vtk._vtk_51.warn = lambda *args, **kwargs: None
meshio.vtu._vtu.warn = lambda *args, **kwargs: None
TYPE = {1: "line", 2: "triangle", 3: "tetra"}


@st.composite
def cases(draw, large=None):
    c = draw(C09.cases(lower=3, large=large))
    c["select"] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    c["centered"] = draw(st.sampled_from([0, 0, 1, 2, 7]))
    c["format"] = draw(st.sampled_from(["vtk", "vtk", "vtu"]))
    return c


def node_values(space, name, mesh, alpha, width):
    """node -> values of the field in every cell of its domain at the node"""
    out = {}
    for iel, el in enumerate(space.discrete_spaces[name].elements):
        nodes = np.asarray(el.data.cell.node_tags)
        X = fields.local_points(mesh.points, nodes, mesh.points[nodes])
        v = fields.evaluate(space, name, iel, alpha, X)
        for i, n in enumerate(nodes):
            out.setdefault(int(n), []).append(v[i][:, :width].ravel())
    return out


def cell_values(space, name, mesh, alpha, width):
    out = {}
    for iel, el in enumerate(space.discrete_spaces[name].elements):
        nodes = np.asarray(el.data.cell.node_tags)
        x = mesh.points[nodes].mean(axis=0, keepdims=True)
        v = fields.evaluate(space, name, iel, alpha, fields.local_points(mesh.points, nodes, x))
        out[tuple(sorted(map(int, nodes)))] = v[0][:, :width].ravel()
    return out


def close(got, want, n, what, size=1.0):
    """VTK pads vectors with zeros."""
    got = np.atleast_1d(np.asarray(got, dtype=float)).ravel()
    want = np.asarray(want, dtype=float).ravel()
    if len(want) != n or len(got) < n:
        raise Violation("%s: %d values, expected %d" % (what, len(got), n))
    if not np.allclose(got[:n], want, rtol=1e-7, atol=1e-8 * size, equal_nan=True):
        raise Violation("%s is %s, expected %s" % (what, got[:n], want))
    if len(got) > n and not (len(got) == 3 and np.all(got[n:] == 0)):
        raise Violation("%s has extra values %s" % (what, got[n:]))


def read(path, real, mesh, tags=None):
    if tags is None:
        real = getattr(real, "host", None) or real
    m = meshio.read(path)
    if not np.array_equal(m.points, mesh.points):
        raise Violation("the points of the file differ")
    if [b.type for b in m.cells] != [TYPE[real.dim]]:
        raise Violation("cell blocks %s" % [b.type for b in m.cells])
    got = [tuple(map(int, c)) for c in m.cells[0].data]
    # entities of a lower dimension may list their nodes in another order
    form = tuple if real.dim == mesh.dimension else lambda c: tuple(sorted(c))
    want = sorted(form(c) for c in real.cells if tags is None or real.tags[real.dim][tuple(sorted(c))] in tags)
    if sorted(map(form, got)) != want:
        raise Violation("%d cells in the file, expected %d" % (len(got), len(want)))
    return m, got


@subcheck(
    "C22",
    "fields",
    cases(),
    quick=700,
    thorough=16000,
    rule="write_vtk_file, ..._with_exact_solution, ..._pointwise_l2_error and write_fe_spaces_... of 1-3 fields of random coefficients on all or part of the mesh or on entities of a lower dimension, read back with meshio: node means over the cells of the field, centroid values, exact values and errors; non-trivial: more than one component, a vector or a discontinuous field",
)
def output(case, ctx):
    from postprocess import solution_post_processor as out

    real, mesh, space, spec, polys, fns, alpha = C09.setup(case, ctx)
    dim = real.dim
    part = sorted(set(space.fields_physical_tags["f0"]))
    whole = part == fields.tags_of(real, dim)
    ctx.mark(any(f[0] != "Lagrange" or f[2] > 1 or f[3] for f in case["fields"]))
    lower = dim < mesh.dimension
    ctx.event("lower" if lower else "whole" if whole else "part")
    exact = {}
    for n, f in fns.items():
        exact[n] = lambda x, y, z, f=f: np.array(f(x, y, z))
    centered = [n for i, n in enumerate(spec) if (case["centered"] >> i) & 1]
    width = {n: nc if fam == "Lagrange" else nc * dim for n, (_, nc, fam, _) in spec.items()}
    nodes = {n: node_values(space, n, mesh, alpha, width[n] // spec[n][1]) for n in spec if n not in centered}
    cells = {n: cell_values(space, n, mesh, alpha, width[n] // spec[n][1]) for n in centered}
    size = {n: max(1.0, max(np.abs(v).max() for vs in nodes[n].values() for v in vs)) if n in nodes else 1.0 for n in spec}
    path = os.path.join(ctx.tmp, "f." + case["format"])

    def check(what, tags, h, e, err, outside):
        m, order = read(path, real, mesh, tags)
        names = set(m.point_data) | set(m.cell_data)
        suffix = [s for s, q in (("_h", h), ("_e", e), ("_error", err)) if q]
        if names != {n + s for n in spec for s in suffix}:
            raise Violation("%s wrote %s" % (what, sorted(names)))
        for n in spec:
            w = width[n]
            places = [(c, mesh.points[list(c)].mean(axis=0), cells[n].get(tuple(sorted(c)))) for c in order] if n in centered else []
            if n not in centered:
                places = [(p, mesh.points[p], np.mean(nodes[n][p], axis=0) if p in nodes[n] else None) for p in range(len(mesh.points))]
            for i, (p, x, v) in enumerate(places):
                for s in suffix:
                    data = m.cell_data[n + s][0] if n in centered else m.point_data[n + s]
                    k = 1 if s == "_error" else w
                    if len(data) != len(places):
                        raise Violation("%s: %d values of %s, expected %d" % (what, len(data), n + s, len(places)))
                    xe = np.ravel(exact[n](*x))
                    want = {"_h": v, "_e": xe, "_error": None if v is None else [np.linalg.norm(xe - v)]}[s] if v is not None else np.full(k, outside)
                    close(data[i], want, k, "%s: %s (%s%d comps, order %d) at %s" % (what, n + s, spec[n][2], spec[n][1], spec[n][3], p), size[n])

    out.write_vtk_file(path, mesh, space, alpha, centered)
    check("write_vtk_file", None, True, False, False, 0.0)
    out.write_vtk_file_with_exact_solution(path, mesh, space, exact, alpha, centered)
    check("write_vtk_file_with_exact_solution", part, True, True, False, 0.0)
    out.write_vtk_file_pointwise_l2_error(path, mesh, space, exact, alpha, centered)
    check("write_vtk_file_pointwise_l2_error", None, False, False, True, 0.0)
    out.write_fe_spaces_on_vtk_file_with_exact_solution(path, mesh, [space], exact, alpha, centered)
    check("write_fe_spaces_on_vtk_file_with_exact_solution", None, True, True, False, np.nan)
    out.write_vtk_file_exact_solution(path, mesh, width, exact)
    m, _ = read(path, real, mesh)
    for n, w in width.items():
        for p, x in enumerate(mesh.points):
            close(m.point_data[n + "_e"][p], np.ravel(exact[n](*x)), w, "write_vtk_file_exact_solution: %s at %d" % (n, p))


@st.composite
def several_cases(draw):
    c = draw(meshes.mesh_cases(dims=(1, 2, 2, 3), small=True, flat=True, materials=3))
    fams = ["Lagrange", "Lagrange", "RT", "BDM"] + ([] if c["dim"] == 1 else ["N1E", "N2E"])
    c["fields"] = []
    for _ in range(draw(st.integers(2, 4))):
        k = draw(st.integers(1, 2))
        c["fields"].append([draw(st.sampled_from(fams)), k, draw(st.integers(1, 2)), draw(st.booleans()), draw(st.integers(0, 7)), draw(st.integers(0, 1))])
    c["ints"] = draw(st.lists(st.integers(-5, 5), min_size=4, max_size=7))
    c["coef"] = draw(st.lists(st.integers(-9, 9), min_size=1, max_size=3))
    c["centered"] = draw(st.sampled_from([0, 0, 1, 2, 5, 15]))
    c["dofshift"] = draw(st.sampled_from([0, 0, 3]))
    return c


@subcheck(
    "C22",
    "several",
    several_cases(),
    quick=500,
    thorough=12000,
    rule="2-4 fields in one or two product spaces that share one vector (dof_shift), each field on its own part of the mesh: write_fe_spaces_... writes every field where it lives and NaN elsewhere; write_vtk_file and ..._pointwise_l2_error the same of each space with zeros; non-trivial: two fields live on different parts",
)
def several(case, ctx):
    from postprocess import solution_post_processor as out

    real, mesh = meshes.make(case, ctx.tmp)
    dim = real.dim
    every = fields.tags_of(real, dim)
    cen, s = poly.box_of(real.points)
    groups, tags, exact, width = [{}, {}], {}, {}, {}
    for i, (fam, k, nc, disc, mask, g) in enumerate(case["fields"]):
        n = "g%d" % i
        groups[g][n] = (dim, nc, fam, k)
        tags[n] = [t for j, t in enumerate(every) if not (mask >> j) & 1] or every
        width[n] = nc * (1 if fam == "Lagrange" else dim)
        p = poly.Poly(dim, k, width[n], case["ints"][i:] + case["ints"][:i], cen, s)
        exact[n] = lambda x, y, z, p=p: np.array(p.xyz(x, y, z))
    disc = {"g%d" % i: f[3] for i, f in enumerate(case["fields"])}
    spaces, shift = [], case["dofshift"]
    for g in groups:
        if g:
            sp = fields.product_space(real, mesh, g, disc={n: disc[n] for n in g}, tags=tags)
            sp.dof_shift = shift
            shift += sp.n_dof
            spaces.append(sp)
    alpha = fields.coefficients(shift, case["coef"])
    parts = {tuple(sorted(t)) for t in tags.values()}
    ctx.mark(len(parts) > 1)
    ctx.event("%d spaces" % len(spaces))
    where, size = {}, {}
    centered = [n for n in tags if (case["centered"] >> int(n[1:])) & 1]
    for sp in spaces:
        for n in sp.discrete_spaces:
            w = width[n] // sp.discrete_spaces[n].n_comp
            f = cell_values if n in centered else node_values
            v = f(sp, n, mesh, alpha, w)
            where[n] = v if n in centered else {p: np.mean(x, axis=0) for p, x in v.items()}
            size[n] = max([1.0] + [np.abs(x).max() for x in where[n].values()])
    path = os.path.join(ctx.tmp, "s.vtk")

    def check(what, names, suffixes, outside):
        m, order = read(path, real, mesh, None)
        if set(m.point_data) | set(m.cell_data) != {n + s for n in names for s in suffixes}:
            raise Violation("%s wrote %s" % (what, sorted(set(m.point_data) | set(m.cell_data))))
        for n in names:
            if n in centered:
                places = [(c, mesh.points[list(c)].mean(axis=0), where[n].get(tuple(sorted(c)))) for c in order]
            else:
                places = [(p, x, where[n].get(p)) for p, x in enumerate(mesh.points)]
            for s in suffixes:
                data = m.cell_data[n + s][0] if n in centered else m.point_data[n + s]
                k = 1 if s == "_error" else width[n]
                for i, (p, x, v) in enumerate(places):
                    if v is None:
                        want = np.full(k, outside)
                    else:
                        xe = np.ravel(exact[n](*x))
                        want = {"_h": v, "_e": xe, "_error": [np.linalg.norm(xe - v)]}[s]
                    close(data[i], want, k, "%s: %s of the part %s at %s" % (what, n + s, tags[n], p), size[n])

    out.write_fe_spaces_on_vtk_file_with_exact_solution(path, mesh, spaces, exact, alpha, centered)
    check("write_fe_spaces_on_vtk_file_with_exact_solution", list(tags), ("_h", "_e"), np.nan)
    for sp in spaces:
        names = list(sp.discrete_spaces)
        out.write_vtk_file(path, mesh, sp, alpha, centered)
        check("write_vtk_file", names, ("_h",), 0.0)
        out.write_vtk_file_pointwise_l2_error(path, mesh, sp, exact, alpha, centered)
        check("write_vtk_file_pointwise_l2_error", names, ("_error",), 0.0)


@subcheck(
    "C22",
    "large",
    cases(large=(200, 8, 3)),
    quick=32,
    thorough=300,
    weight=2.0,
    rule="output of fields on meshes of a hundred cells in random numbering",
)
def large(case, ctx):
    output(case, ctx)


@st.composite
def mixed_cases(draw):
    c = draw(meshes.mesh_cases(dims=(1, 2, 2, 3), small=True, flat=True, materials=3))
    c["fields"] = []
    for _ in range(draw(st.integers(1, 3))):
        d = draw(st.integers(0, c["dim"]))
        c["fields"].append([d, draw(st.integers(1, 3)) if d else 0, draw(st.integers(1, 3)), draw(st.booleans()), draw(st.sampled_from([0, 0, 1, 2, 4]))])
    c["ints"] = draw(st.lists(st.integers(-5, 5), min_size=4, max_size=7))
    c["coef"] = draw(st.lists(st.integers(-9, 9), min_size=1, max_size=3))
    c["dofshift"] = draw(st.sampled_from([0, 0, 3]))
    return c


@subcheck(
    "C22",
    "mixed",
    mixed_cases(),
    quick=500,
    thorough=12000,
    rule="1-3 Lagrange fields on tagged entities of different dimensions, points included, in one product space: values at the nodes in write_vtk_file, ..._pointwise_l2_error, write_fe_spaces_... and, for one dimension, ..._with_exact_solution; non-trivial: a field on points or two dimensions",
)
def mixed(case, ctx):
    from postprocess import solution_post_processor as out

    real, mesh = meshes.make(case, ctx.tmp)
    dim = real.dim
    cen, s = poly.box_of(real.points)
    spec, tags, exact, disc = {}, {}, {}, {}
    for i, (d, k, nc, dc, mask) in enumerate(case["fields"]):
        every = fields.tags_of(real, d)
        if not every:
            continue
        n = "h%d" % i
        spec[n] = (d, nc, "Lagrange", k)
        tags[n] = [t for j, t in enumerate(every) if not (mask >> j) & 1] or every
        disc[n] = dc
        p = poly.Poly(dim, 2, nc, case["ints"][i:] + case["ints"][:i], cen, s)
        exact[n] = lambda x, y, z, p=p: np.array(p.xyz(x, y, z))
    if not spec:
        return
    dims = {f[0] for f in spec.values()}
    ctx.mark(0 in dims or len(dims) > 1)
    ctx.event("points" if 0 in dims else "no points")
    space = fields.product_space(real, mesh, spec, disc=disc, tags=tags)
    space.dof_shift = case["dofshift"]
    alpha = fields.coefficients(space.n_dof + case["dofshift"], case["coef"])
    where = {}
    for n, f in spec.items():
        if f[0]:
            values = node_values(space, n, mesh, alpha, 1)
        else:
            values = {}
            for iel, el in enumerate(space.discrete_spaces[n].elements):
                values[int(el.data.cell.node_tags[0])] = [alpha[space.destination_indexes(iel, n)]]
            want = {e[0] for e, t in real.tags[0].items() if t in tags[n]}
            if set(values) != want:
                raise Violation("a field on points %s has elements at %s" % (sorted(want), sorted(values)))
        where[n] = {p: np.mean(v, axis=0) for p, v in values.items()}
    path = os.path.join(ctx.tmp, "m.vtk")

    def check(what, suffixes, outside):
        m = meshio.read(path)
        if set(m.point_data) != {n + x for n in spec for x in suffixes} or m.cell_data:
            raise Violation("%s wrote %s" % (what, sorted(m.point_data)))
        if not np.array_equal(m.points, mesh.points):
            raise Violation("the points of the file differ")
        for n, f in spec.items():
            size = max([1.0] + [np.abs(v).max() for v in where[n].values()])
            for x in suffixes:
                k = 1 if x == "_error" else f[1]
                for p, at in enumerate(mesh.points):
                    v = where[n].get(p)
                    if v is None:
                        want = np.full(k, outside)
                    else:
                        xe = np.ravel(exact[n](*at))
                        want = {"_h": v, "_e": xe, "_error": [np.linalg.norm(xe - v)]}[x]
                    close(m.point_data[n + x][p], want, k, "%s: %s of dimension %d at node %d" % (what, n + x, f[0], p), size)
        return m

    out.write_vtk_file(path, mesh, space, alpha)
    check("write_vtk_file", ("_h",), 0.0)
    out.write_vtk_file_pointwise_l2_error(path, mesh, space, exact, alpha)
    check("write_vtk_file_pointwise_l2_error", ("_error",), 0.0)
    out.write_fe_spaces_on_vtk_file_with_exact_solution(path, mesh, [space], exact, alpha)
    check("write_fe_spaces_on_vtk_file_with_exact_solution", ("_h", "_e"), np.nan)
    if len(dims) == 1:
        out.write_vtk_file_with_exact_solution(path, mesh, space, exact, alpha)
        m = check("write_vtk_file_with_exact_solution", ("_h", "_e"), 0.0)
        last = tags[list(spec)[-1]]
        d = max(dims)
        want = sorted(e for e, t in real.tags[d].items() if t in last)
        got = sorted(tuple(sorted(map(int, c))) for b in m.cells for c in b.data)
        if got != want:
            raise Violation("write_vtk_file_with_exact_solution wrote the cells %s, expected %s" % (got, want))
