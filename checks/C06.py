"""C06 - H(div) conformity."""

import numpy as np
from hypothesis import strategies as st

from harness import fields, meshes
from harness.core import Violation, subcheck
from checks.C05 import cases as lagrange_cases

TITLE = "RT/BDM fields have continuous normal component across every facet"
ASSUMPTIONS = ["consistently oriented simplicial meshes in R^2 / R^3, as gmsh produces"]


@st.composite
def cases(draw, families=("RT", "BDM"), large=None):
    c = draw(lagrange_cases(dims=(2, 2, 3, 3), kmax=3, large=large))
    c["flat"] = True
    # fields of the whole mesh: normals are taken in the space it fills
    c.pop("sub", None)
    c["shift"] = c["shift"][: c["dim"]] + [0] * (3 - c["dim"])
    c["k"] = min(c["k"], 3)
    c["family"] = draw(st.sampled_from(list(families)))
    return c


def facet_normal(real, f):
    P = real.points[list(f)]
    if real.dim == 2:
        t = P[1] - P[0]
        n = np.array([t[1], -t[0], 0.0])
    else:
        n = np.cross(P[1] - P[0], P[2] - P[0])
    return n / np.linalg.norm(n)


@subcheck(
    "C06",
    "normal_continuity",
    cases(),
    quick=3600,
    thorough=36000,
    rule="random coefficient vector of an RT/BDM field (order 1-3, 1-3 components); normal component at drawn points of every interior facet from both cells; non-trivial: an interior facet exists",
)
def normal_continuity(case, ctx):
    real, mesh = meshes.make(case, ctx.tmp)
    dim, k, fam = real.dim, case["k"], case["family"]
    space = fields.product_space(real, mesh, {"q": (dim, case["nc"], fam, k)})
    alpha = fields.coefficients(space.n_dof, case["coef"])
    look = fields.element_lookup(space, "q")
    sub = space.discrete_spaces["q"]
    ctx.event("%s%d-%dd" % (fam, k, dim))
    for f, cs in fields.facet_map(real).items():
        if len(cs) < 2:
            continue
        ctx.mark()
        tagged = f in real.tags[dim - 1]
        phys = fields.facet_sample(real, f, case["w"])
        n = facet_normal(real, f)
        vals = []
        size = 0.0
        for ci in cs:
            i = look[tuple(sorted(real.cells[ci]))]
            X = fields.local_points(real.points, sub.elements[i].data.cell.node_tags, phys)
            v = fields.evaluate(space, "q", i, alpha, X)
            size = max(size, np.abs(v).max())
            vals.append(v[:, :, :dim] @ n[:dim])
        if not np.allclose(vals[0], vals[1], atol=1e-8 * (1 + size)):
            raise Violation(
                "%s(%d) in %dd: normal component jumps by %g across %s facet"
                % (fam, k, dim, np.abs(vals[0] - vals[1]).max(), "a tagged" if tagged else "an untagged"),
                key="normal-jump-tagged" if tagged else "normal-jump",
            )


@subcheck(
    "C06",
    "local_trace",
    cases(),
    quick=1800,
    thorough=18000,
    rule="only the dofs of a facet contribute to the normal component on it; divergence computed from the tabulated derivatives integrates to the boundary flux on every cell (Gauss); non-trivial: every case",
)
def local_trace(case, ctx):
    import basix

    real, mesh = meshes.make(case, ctx.tmp)
    dim, k, fam = real.dim, case["k"], case["family"]
    space = fields.product_space(real, mesh, {"q": (dim, 1, fam, k)})
    alpha = fields.coefficients(space.n_dof, case["coef"])
    sub = space.discrete_spaces["q"]
    pts, w = space.quadrature[dim]
    fq, fw = basix.make_quadrature(
        {2: basix.CellType.interval, 3: basix.CellType.triangle}[dim], 2 * k + 1
    )
    ctx.mark()
    import math

    for i, el in enumerate(sub.elements):
        nodes = [int(v) for v in el.data.cell.node_tags]
        vals, phi, a, (jac, det, inv) = fields.evaluate(space, "q", i, alpha, pts, True)
        # divergence of the Piola-mapped field: reference divergence / det
        div = np.einsum("dpnd->pn", phi[1 : dim + 1, :, :, :dim]) / det[:, None]
        total = float(np.sum(w * det * (div @ a[:, 0])))
        flux = 0.0
        size = 0.0
        cen = real.points[nodes].mean(0)
        for li, loc in enumerate(basix.topology(sub.dof_map.ref_element.cell_type)[dim - 1]):
            f = [nodes[v] for v in loc]
            P = real.points[f]
            n = facet_normal(real, f)
            if n @ (P.mean(0) - cen) < 0:
                n = -n
            bary = np.hstack([1 - fq.sum(1, keepdims=True), fq])
            phys = bary @ P
            E = P[1:] - P[0]
            meas = math.sqrt(np.linalg.det(E @ E.T))
            X = fields.local_points(real.points, nodes, phys)
            v, ph, aa, _ = fields.evaluate(space, "q", i, alpha, X, True)
            vn = v[:, 0, :dim] @ n[:dim]
            flux += float(np.sum(fw * meas * vn))
            size += float(np.sum(fw * meas * np.abs(v).max()))
            own = set(el.data.dof.entity_dofs[dim - 1][li])
            pn = ph[0][:, :, :dim] @ n[:dim]
            for dof in range(pn.shape[1]):
                if dof not in own and np.abs(pn[:, dof]).max() > 1e-8 * (1 + np.abs(ph[0]).max()):
                    raise Violation("a dof not on the facet has a normal trace on it (%s(%d), %dd)" % (fam, k, dim))
        if abs(total - flux) > 1e-8 * (1 + size):
            raise Violation("divergence integrates to %g, boundary flux is %g (%s(%d), %dd)" % (total, flux, fam, k, dim))


@subcheck(
    "C06",
    "large",
    cases(large=(0, 12, 3)),
    quick=32,
    thorough=500,
    weight=2.0,
    rule="normal continuity on meshes of hundreds of cells in random numbering",
)
def large(case, ctx):
    normal_continuity(case, ctx)


@st.composite
def lines(draw):
    c = draw(lagrange_cases(dims=(1,), kmax=3))
    c["flat"] = True
    c.pop("sub", None)
    c["shift"] = c["shift"][:1] + [0, 0]
    c["k"] = min(c["k"], 3)
    c["family"] = draw(st.sampled_from(["RT", "BDM"]))
    c["other"] = draw(st.integers(1, 4))
    return c


@subcheck(
    "C06",
    "line",
    lines(),
    quick=300,
    thorough=5000,
    rule="fluxes on lines along x next to a field of another order, at any number of points: the flux is the same from both cells of a vertex, its dofs alone contribute there, the divergence integrates to the boundary flux; non-trivial: an interior vertex exists",
)
def line(case, ctx):
    real, mesh = meshes.make(case, ctx.tmp)
    k, fam = case["k"], case["family"]
    space = fields.product_space(real, mesh, {"q": (1, case["nc"], fam, k), "p": (1, 1, "Lagrange", case["other"])})
    alpha = fields.coefficients(space.n_dof, case["coef"])
    sub = space.discrete_spaces["q"]
    pts, w = space.quadrature[1]
    at = {}
    for i, el in enumerate(sub.elements):
        nodes = [int(v) for v in el.data.cell.node_tags]
        x = real.points[nodes][:, 0]
        ends, phi, _, _ = fields.evaluate(space, "q", i, alpha, np.array([[0.0], [1.0]]), True)
        for local, v in enumerate(nodes):
            at.setdefault(v, []).append(ends[local][:, 0])
            own = set(el.data.dof.entity_dofs[0][local])
            if any(abs(phi[0][local, d, 0]) > 1e-10 for d in range(phi.shape[2]) if d not in own):
                raise Violation("a dof that is not of the vertex contributes to the flux there (%s(%d))" % (fam, k))
        _, phi, a, (jac, det, inv) = fields.evaluate(space, "q", i, alpha, pts, True)
        div = np.einsum("pn,nc->pc", phi[1][:, :, 0], a) / det[:, None]
        total = (w * det) @ div
        flux = (ends[1][:, 0] - ends[0][:, 0]) * np.sign(x[1] - x[0])
        if np.abs(total - flux).max() > 1e-8 * (1 + np.abs(ends).max()):
            raise Violation("the divergence integrates to %s, the flux is %s (%s(%d))" % (total, flux, fam, k))
        for n in (1, 2, 5):
            X = np.linspace(0.0, 1.0, n + 2)[1:-1, None]
            v = fields.evaluate(space, "q", i, alpha, X)
            if v.shape[0] != n:
                raise Violation("%d values at %d points" % (v.shape[0], n))
    for v, values in at.items():
        if len(values) > 1:
            ctx.mark()
        if len(values) == 2 and np.abs(values[0] - values[1]).max() > 1e-8 * (1 + np.abs(values).max()):
            raise Violation("the flux jumps from %s to %s (%s(%d))" % (values[0], values[1], fam, k), key="normal-jump")
