"""C05 - continuous Lagrange fields are H1-conforming."""

import numpy as np
from hypothesis import strategies as st

from harness import fields, meshes
from harness.core import Violation, subcheck

TITLE = "Lagrange fields are continuous across cells and on boundary elements"
ASSUMPTIONS = ["conforming simplicial meshes with straight edges"]


@st.composite
def cases(draw, dims=(1, 2, 3, 3), kmax=5, allb=False, large=None):
    if large:
        c = draw(meshes.large_cases(dims=dims, top=large))
    else:
        c = draw(meshes.mesh_cases(dims=dims, small=True, flat=draw(st.booleans()), all_tagged_boundary=allb, lower=4))
    c["k"] = draw(st.integers(1, kmax if c["dim"] < 3 else min(kmax, 4)))
    c["nc"] = draw(st.integers(1, 3))
    c["coef"] = draw(st.lists(st.integers(-9, 9), min_size=1, max_size=3))
    c["w"] = draw(
        st.lists(st.lists(st.integers(0, 9), min_size=4, max_size=4), min_size=1, max_size=3)
    )
    return c


@subcheck(
    "C05",
    "continuity",
    cases(),
    quick=3600,
    thorough=36000,
    rule="random coefficient vector of a Lagrange field (order 1-5, 1-3 components); field values on each shared facet, edge and vertex from every adjacent cell; non-trivial: shared facet with order >= 2 or dimension 3",
)
def continuity(case, ctx):
    real, mesh = meshes.make(case, ctx.tmp)
    dim, k = real.dim, case["k"]
    space = fields.product_space(real, mesh, {"u": (dim, case["nc"], "Lagrange", k)})
    alpha = fields.coefficients(space.n_dof, case["coef"])
    look = fields.element_lookup(space, "u")
    scale = 4.0 * np.abs(alpha).max()
    for d in range(dim):
        shared = {}
        for ci, c in enumerate(real.cells):
            for e in meshes.facets_of(c, d):
                shared.setdefault(e, []).append(ci)
        for e, cs in shared.items():
            if len(cs) < 2:
                continue
            ctx.mark(k >= 2 or dim == 3)
            phys = fields.facet_sample(real, e, case["w"])
            ref = None
            for ci in cs:
                i = look[tuple(sorted(real.cells[ci]))]
                nodes = space.discrete_spaces["u"].elements[i].data.cell.node_tags
                X = fields.local_points(real.points, nodes, phys)
                v = fields.evaluate(space, "u", i, alpha, X)
                if ref is None:
                    ref = v
                elif not np.allclose(v, ref, atol=1e-9 * scale):
                    raise Violation(
                        "Lagrange(%d) in %dd jumps by %g across a shared entity of dimension %d" % (k, dim, np.abs(v - ref).max(), d)
                    )
    ctx.event("dim%d-k%d" % (dim, k))


@subcheck(
    "C05",
    "boundary_trace",
    cases(dims=(2, 3, 3), kmax=4, allb=True),
    quick=2400,
    thorough=24000,
    rule="the field seen through the boundary elements and their dofs equals the trace of the field seen through the neighbouring cell; non-trivial: order >= 2",
)
def boundary_trace(case, ctx):
    real, mesh = meshes.make(case, ctx.tmp)
    dim, k = real.dim, case["k"]
    btags = fields.tags_of(real, dim - 1)
    space = fields.product_space(real, mesh, {"u": (dim, case["nc"], "Lagrange", k)}, btags=btags)
    sub = space.discrete_spaces["u"]
    alpha = fields.coefficients(space.n_dof, case["coef"])
    look = fields.element_lookup(space, "u")
    fmap = fields.facet_map(real)
    scale = 4.0 * np.abs(alpha).max()
    ctx.mark(k >= 2)
    for bi, el in enumerate(sub.bc_elements):
        f = tuple(sorted(int(v) for v in el.data.cell.node_tags))
        phys = fields.facet_sample(real, f, case["w"])
        Xb = fields.local_points(real.points, el.data.cell.node_tags, phys)
        _, jac, det, inv = el.evaluate_mapping(Xb)
        phi = el.evaluate_basis(Xb, jac, det, inv)
        a = alpha[space.bc_destination_indexes(bi, "u")].reshape(phi.shape[2], sub.n_comp)
        vb = np.einsum("pdv,dc->pcv", phi[0], a)
        i = look[tuple(sorted(real.cells[fmap[f][0]]))]
        X = fields.local_points(real.points, sub.elements[i].data.cell.node_tags, phys)
        v = fields.evaluate(space, "u", i, alpha, X)
        if not np.allclose(v, vb, atol=1e-9 * scale):
            raise Violation(
                "boundary element of Lagrange(%d) in %dd disagrees with the cell trace by %g" % (k, dim, np.abs(v - vb).max()),
                key="bc_trace",
            )
    ctx.event("dim%d-k%d" % (dim, k))


@subcheck(
    "C05",
    "unity",
    cases(),
    quick=1800,
    thorough=18000,
    rule="the basis sums to one with zero derivative everywhere, and is linearly independent on every cell (continuous and discontinuous); non-trivial: every case",
)
def unity(case, ctx):
    real, mesh = meshes.make(case, ctx.tmp)
    dim, k = real.dim, case["k"]
    ctx.mark()
    for disc in (False, True):
        space = fields.product_space(real, mesh, {"u": (dim, 1, "Lagrange", k)}, disc={"u": disc})
        sub = space.discrete_spaces["u"]
        pts, w = space.quadrature[dim]
        for el in sub.elements:
            _, jac, det, inv = el.evaluate_mapping(pts)
            phi = el.evaluate_basis(pts, jac, det, inv)
            if phi.shape[0] != dim + 1:
                raise Violation("basis tabulation carries %d derivative blocks" % phi.shape[0])
            if not np.allclose(phi[0, :, :, 0].sum(1), 1.0, atol=1e-10):
                raise Violation("Lagrange basis does not sum to one")
            if not np.allclose(phi[1:, :, :, 0].sum(2), 0.0, atol=1e-8):
                raise Violation("derivatives of the Lagrange basis do not sum to zero")
            G = phi[0, :, :, 0].T @ (phi[0, :, :, 0] * w[:, None])
            if np.linalg.matrix_rank(G, tol=1e-12) != phi.shape[2]:
                raise Violation("Lagrange basis functions are linearly dependent")


@subcheck(
    "C05",
    "large",
    cases(large=(300, 12, 3), kmax=3),
    quick=32,
    thorough=500,
    weight=2.0,
    rule="continuity on meshes of hundreds of cells in random numbering",
)
def large(case, ctx):
    continuity(case, ctx)
