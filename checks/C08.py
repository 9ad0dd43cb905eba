"""C08 - the L2 projector."""

import basix
import numpy as np
from hypothesis import strategies as st

from harness import fields, meshes, poly
from harness.core import Violation, subcheck

TITLE = "The L2 projector returns the L2-orthogonal projection at every scale"
ASSUMPTIONS = [
    "polynomial data of degree <= order + 1, so that the library's own quadrature is exact",
]
CONTAINED = {"Lagrange": 0, "RT": -1, "BDM": 0, "N1E": -1, "N2E": 0}


@st.composite
def cases(draw, extra=0, large=None):
    c = draw(
        meshes.large_cases(top=large) if large else meshes.mesh_cases(
            dims=(1, 2, 2, 3), small=True, max_cells=8,
            scales=(1.0, 1.0, 1.0, 1e-2, 1e-3, 1e-5, 1e2), flat=True, lower=5,
        )
    )
    fams = ["Lagrange"] if c.get("sub") else ["Lagrange", "RT", "BDM"] + ([] if c["dim"] == 1 else ["N1E", "N2E"])
    nf = draw(st.sampled_from([1, 1, 2]))
    fl = []
    for _ in range(nf):
        fam = draw(st.sampled_from(fams))
        k = draw(st.integers(1, 3 if c["dim"] < 3 else 2))
        fl.append([fam, k, draw(st.integers(1, 3)), draw(st.booleans())])
    c["fields"] = fl
    c["ints"] = draw(st.lists(st.integers(-5, 5), min_size=4, max_size=7))
    c["sym"] = draw(st.booleans())
    c["dofshift"] = draw(st.sampled_from([0, 0, 5]))
    c["extra"] = draw(st.integers(0, 1))
    c["select"] = draw(st.sampled_from([0, 0, 0, 1, 2]))
    # the part of every field, where they differ
    c["own"] = draw(st.sampled_from([None, None, [draw(st.integers(0, 7)) for _ in range(2)]]))
    # another field, on entities of a lower dimension
    c["low"] = draw(st.one_of(st.none(), st.none(), st.tuples(
        st.integers(0, 2), st.integers(1, 3), st.integers(1, 2), st.booleans(), st.booleans(),
    ).map(list)))
    return c


def make_functions(case, real):
    dim = real.dim
    cen, s = poly.box_of(real.points)
    out = {}
    for i, (fam, k, nc, disc) in enumerate(case["fields"]):
        # fluxes on lines are made of all polynomials of degree k
        deg = k if dim == 1 else max(0, k + CONTAINED[fam])
        if case["extra"]:
            deg = k + 1
        ints = case["ints"][i:] + case["ints"][:i]
        if fam == "Lagrange" or dim == 1:
            p = poly.Poly(dim, deg, nc, ints, cen, s)
            f = p.xyz  # fluxes on lines are numbers
        else:
            p = poly.Poly(dim, deg, nc * dim, ints, cen, s)

            def f(x, y, z, p=p, nc=nc):
                v = p.xyz(x, y, z)
                return v.reshape((nc, dim) + v.shape[1:])

        out["f%d" % i] = (p, f)
    return out


def values_of(p, fam, nc, dim, P):
    v = p(P)  # rows, n
    if fam == "Lagrange":
        return v.T[:, :, None]  # n, nc, 1
    return v.reshape(nc, dim, -1).transpose(2, 0, 1)  # n, nc, dim


def low_dimension(real, space, d, p, alpha, fmax):
    """The field on entities of dimension d is the polynomial p there."""
    sub = space.discrete_spaces["g"]
    want = sum(1 for t in real.tags[d].values() if t is not None)
    if len(sub.elements) != want:
        raise Violation("a field has %d elements on %d tagged entities of dimension %d" % (len(sub.elements), want, d))
    for iel in range(len(sub.elements)):
        P = real.points[np.asarray(sub.elements[iel].data.cell.node_tags)]
        if d == 0:
            got, x = alpha[space.destination_indexes(iel, "g")][None, :], P
        else:
            pts = basix.make_quadrature([None, basix.CellType.interval, basix.CellType.triangle][d], 4)[0]
            x = np.hstack([1 - pts.sum(1, keepdims=True), pts]) @ P
            got = fields.evaluate(space, "g", iel, alpha, pts)[:, :, 0]
        err = np.abs(got - p(x).T).max()
        if not err < 1e-7 * fmax:
            raise Violation("a polynomial on entities of dimension %d is not reproduced (error %g)" % (d, err))


@subcheck(
    "C08",
    "projection",
    cases(),
    quick=6000,
    thorough=30000,
    rule="1-2 fields of drawn family/order/components/continuity on a generated mesh at a drawn length scale, solver and dof shift; data inside the space must be reproduced pointwise, other data must leave a residual orthogonal to the space (independent mass matrix and load with a higher quadrature); non-trivial: order >= 2, a vector family, or scale != 1",
)
def projection(case, ctx):
    from postprocess.projectors import l2_projector

    real, mesh = meshes.make(case, ctx.tmp)
    dim = real.dim
    all_tags = fields.tags_of(real, dim)
    tags = [t for i, t in enumerate(all_tags) if not (case["select"] >> i) & 1] or all_tags
    spec = {"f%d" % i: (dim, f[2], f[0], f[1]) for i, f in enumerate(case["fields"])}
    disc = {"f%d" % i: f[3] for i, f in enumerate(case["fields"])}
    if case["own"]:
        tags = {n: [t for j, t in enumerate(all_tags) if not (case["own"][i] >> j) & 1] or all_tags for i, n in enumerate(spec)}
        ctx.event("parts per field")
    fns = make_functions(case, real)
    if case["low"] and not case.get("sub"):
        d, k, nc, dc, first = case["low"]
        d %= dim
        ltags = fields.tags_of(real, d)
        if ltags:
            ctx.event("with a field on entities of dimension %d" % d)
            if not isinstance(tags, dict):
                tags = {n: tags for n in spec}
            low = {"g": (d, nc, "Lagrange", k if d else 0)}
            spec = {**low, **spec} if first else {**spec, **low}
            disc["g"], tags["g"] = dc, ltags
            q = poly.Poly(dim, max(0, k - 1) + (d == 0) * 3, nc, case["ints"][1:], *poly.box_of(real.points))
            fns["g"] = (q, q.xyz)
    space = fields.product_space(real, mesh, spec, disc=disc, tags=tags)
    space.dof_shift = case["dofshift"]
    alpha = np.array(
        l2_projector(space, {n: f for n, (p, f) in fns.items()}, symmetric_solver_q=case["sym"])
    )
    if space.dof_shift != case["dofshift"]:
        raise Violation("projection changed the dof shift of the space")
    if alpha.shape != (space.n_dof,):
        raise Violation("projection has %s entries for %d dofs" % (alpha.shape, space.n_dof))
    if not np.all(np.isfinite(alpha)):
        raise Violation("projection is not finite")
    space.dof_shift = 0
    ctx.mark(case["scale"] != 1.0 or any(f[0] != "Lagrange" or f[1] > 1 for f in case["fields"]))
    ctx.event("scale=%g" % case["scale"])
    cell_type = [None, basix.CellType.interval, basix.CellType.triangle, basix.CellType.tetrahedron][dim]
    for name, (d, nc, fam, k) in spec.items():
        ctx.event(fam)
        sub = space.discrete_spaces[name]
        p, _ = fns[name]
        fmax = np.abs(p(real.points)).max() + 1.0
        if name == "g":
            low_dimension(real, space, d, p, alpha, fmax)
            continue
        pts, w = basix.make_quadrature(cell_type, 2 * k + 4)
        res = np.zeros(space.n_dof)
        mag = np.zeros(space.n_dof)
        for iel in range(len(sub.elements)):
            vals, phi, a, (jac, det, inv) = fields.evaluate(space, name, iel, alpha, pts, True)
            P = real.points[np.asarray(sub.elements[iel].data.cell.node_tags)]
            x = np.hstack([1 - pts.sum(1, keepdims=True), pts]) @ P
            want = values_of(p, fam, nc, dim, x)
            err = vals[:, :, : want.shape[2]] - want
            if not case["extra"]:
                if np.abs(err).max() > 1e-7 * fmax:
                    raise Violation(
                        "%s(%d)%s in %dd, scale %g: a polynomial of the space is not reproduced (error %g)"
                        % (fam, k, " discontinuous" if disc[name] else "", dim, case["scale"], np.abs(err).max())
                    )
            dest = space.destination_indexes(iel, name)
            dx = w * np.abs(det)
            ph = phi[0][:, :, : want.shape[2]]
            r = np.einsum("p,pcv,pnv->nc", dx, err, ph).ravel()
            m = np.einsum("p,pnv->n", dx, np.abs(ph))[:, None] * np.ones((1, nc)) * (np.abs(want).max() + 1e-3 * fmax)
            res[dest] += r
            mag[dest] += m.ravel()
        dd = np.nonzero(mag)[0]
        bad = np.abs(res[dd]) > 1e-7 * mag[dd]
        if np.any(bad):
            raise Violation(
                "%s(%d)%s in %dd, scale %g: the projection error is not orthogonal to the space (relative %g)"
                % (fam, k, " discontinuous" if disc[name] else "", dim, case["scale"], (np.abs(res[dd]) / mag[dd]).max())
            )


@subcheck(
    "C08",
    "linear",
    cases(),
    quick=500,
    thorough=6000,
    rule="projection is linear in the data and independent of the solver chosen; non-trivial: every case",
)
def linear(case, ctx):
    from postprocess.projectors import l2_projector

    case = dict(case, extra=1)
    real, mesh = meshes.make(case, ctx.tmp)
    dim = real.dim
    spec = {"f%d" % i: (dim, f[2], f[0], f[1]) for i, f in enumerate(case["fields"])}
    disc = {"f%d" % i: f[3] for i, f in enumerate(case["fields"])}
    space = fields.product_space(real, mesh, spec, disc=disc)
    ctx.mark()
    f1 = {n: f for n, (p, f) in make_functions(case, real).items()}
    f2 = {n: f for n, (p, f) in make_functions(dict(case, ints=case["ints"][::-1]), real).items()}
    a = 3.0
    f3 = {n: (lambda x, y, z, n=n: f1[n](x, y, z) - a * f2[n](x, y, z)) for n in f1}
    u1 = np.array(l2_projector(space, f1, symmetric_solver_q=case["sym"]))
    u2 = np.array(l2_projector(space, f2, symmetric_solver_q=not case["sym"]))
    u3 = np.array(l2_projector(space, f3, symmetric_solver_q=case["sym"]))
    size = np.abs(u1).max() + a * np.abs(u2).max() + 1e-300
    if np.abs(u3 - (u1 - a * u2)).max() > 1e-7 * size:
        raise Violation("projection is not linear in the data, or depends on the solver")


@subcheck(
    "C08",
    "large",
    cases(large=(200, 10, 3)),
    quick=24,
    thorough=400,
    weight=2.0,
    rule="projection on meshes of hundreds of cells in random numbering",
)
def large(case, ctx):
    projection(case, ctx)
