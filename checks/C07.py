"""C07 - H(curl) conformity."""

import numpy as np

from harness import fields, meshes
from harness.core import Violation, subcheck
from checks.C06 import cases, facet_normal

TITLE = "Nedelec fields have continuous tangential components"
ASSUMPTIONS = ["consistently oriented simplicial meshes in R^2 / R^3, as gmsh produces"]


@subcheck(
    "C07",
    "tangential_continuity",
    cases(families=("N1E", "N2E")),
    quick=3600,
    thorough=36000,
    rule="random coefficient vector of an N1E/N2E field (order 1-3, 1-3 components); tangential components at drawn points of every shared facet, and along every shared edge, from all adjacent cells; non-trivial: a shared facet exists",
)
def tangential_continuity(case, ctx):
    real, mesh = meshes.make(case, ctx.tmp)
    dim, k, fam = real.dim, case["k"], case["family"]
    space = fields.product_space(real, mesh, {"q": (dim, case["nc"], fam, k)})
    alpha = fields.coefficients(space.n_dof, case["coef"])
    look = fields.element_lookup(space, "q")
    sub = space.discrete_spaces["q"]
    ctx.event("%s%d-%dd" % (fam, k, dim))
    for d in range(1, dim):
        shared = {}
        for ci, c in enumerate(real.cells):
            for e in meshes.facets_of(c, d):
                shared.setdefault(e, []).append(ci)
        for e, cs in shared.items():
            if len(cs) < 2:
                continue
            ctx.mark()
            phys = fields.facet_sample(real, e, case["w"])
            T = (real.points[list(e)][1:] - real.points[e[0]])[:, :dim]
            T = T / np.linalg.norm(T, axis=1, keepdims=True)
            ref, size = None, 0.0
            tagged = e in real.tags[d]
            for ci in cs:
                i = look[tuple(sorted(real.cells[ci]))]
                X = fields.local_points(real.points, sub.elements[i].data.cell.node_tags, phys)
                v = fields.evaluate(space, "q", i, alpha, X)[:, :, :dim] @ T.T
                size = max(size, np.abs(v).max())
                if ref is None:
                    ref = v
                elif not np.allclose(v, ref, atol=1e-8 * (1 + size)):
                    raise Violation(
                        "%s(%d) in %dd: tangential component jumps by %g on a shared entity of dimension %d%s"
                        % (fam, k, dim, np.abs(v - ref).max(), d, " (tagged)" if tagged else ""),
                        key="tangential-jump-tagged" if tagged else "tangential-jump",
                    )


@subcheck(
    "C07",
    "local_trace",
    cases(families=("N1E", "N2E")),
    quick=1800,
    thorough=18000,
    rule="only the dofs of an edge contribute to the tangential component along it, and the basis of every cell is linearly independent; non-trivial: every case",
)
def local_trace(case, ctx):
    import basix

    real, mesh = meshes.make(case, ctx.tmp)
    dim, k, fam = real.dim, case["k"], case["family"]
    space = fields.product_space(real, mesh, {"q": (dim, 1, fam, k)})
    sub = space.discrete_spaces["q"]
    ctx.mark()
    pts, w = space.quadrature[dim]
    for i, el in enumerate(sub.elements):
        nodes = [int(v) for v in el.data.cell.node_tags]
        for li, loc in enumerate(basix.topology(sub.dof_map.ref_element.cell_type)[1]):
            e = [nodes[v] for v in loc]
            phys = fields.facet_sample(real, e, case["w"])
            t = real.points[e[1]] - real.points[e[0]]
            X = fields.local_points(real.points, nodes, phys)
            _, jac, det, inv = el.evaluate_mapping(X)
            phi = el.evaluate_basis(X, jac, det, inv)
            pt = phi[0][:, :, :dim] @ t[:dim]
            own = set(el.data.dof.entity_dofs[1][li])
            for dof in range(pt.shape[1]):
                if dof not in own and np.abs(pt[:, dof]).max() > 1e-8 * (1 + np.abs(phi[0]).max() * np.linalg.norm(t)):
                    raise Violation("a dof not on the edge has a tangential trace on it (%s(%d), %dd)" % (fam, k, dim))
        _, jac, det, inv = el.evaluate_mapping(pts)
        phi = el.evaluate_basis(pts, jac, det, inv)
        B = phi[0][:, :, :dim].transpose(1, 0, 2).reshape(phi.shape[2], -1)
        s = np.linalg.svd(B, compute_uv=False)
        if s[-1] < 1e-10 * s[0]:
            raise Violation("basis functions of a cell are linearly dependent")


@subcheck(
    "C07",
    "large",
    cases(families=("N1E", "N2E"), large=(0, 12, 3)),
    quick=32,
    thorough=500,
    weight=2.0,
    rule="tangential continuity on meshes of hundreds of cells in random numbering",
)
def large(case, ctx):
    tangential_continuity(case, ctx)
