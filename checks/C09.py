"""C09 - error and norm functionals."""

import basix
import numpy as np
from hypothesis import strategies as st

from harness import fields, meshes, poly
from harness.core import Violation, subcheck

TITLE = "Error and norm functionals equal the integrals they are named after"
ASSUMPTIONS = ["exact functions polynomial of degree <= the field's order, so that the library's own quadrature is exact"]
CELL = [None, basix.CellType.interval, basix.CellType.triangle, basix.CellType.tetrahedron]


@st.composite
def cases(draw, families=("Lagrange", "RT", "BDM", "N1E", "N2E"), dims=(1, 2, 2, 3), lower=0, k3=2, own=False, large=None):
    c = draw(meshes.large_cases(dims=dims, top=large) if large else meshes.mesh_cases(dims=dims, small=True, scales=(1.0, 1.0, 1e-2, 50.0), flat=True, lower=lower))
    fams = ["Lagrange"] if c.get("sub") else [f for f in families if c["dim"] > 1 or f in ("Lagrange", "RT", "BDM")]
    fl = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        fam = draw(st.sampled_from(fams))
        fl.append([fam, draw(st.integers(1, 3 if c["dim"] < 3 else k3)), draw(st.integers(1, 3)), draw(st.booleans())])
    c["fields"] = fl
    c["ints"] = draw(st.lists(st.integers(-5, 5), min_size=4, max_size=7))
    c["coef"] = draw(st.lists(st.integers(-9, 9), min_size=1, max_size=3))
    c["skip"] = draw(st.integers(0, 7))
    c["select"] = draw(st.sampled_from([0, 0, 0, 1, 2]))
    c["dofshift"] = draw(st.sampled_from([0, 0, 4]))
    # the part of every field, where they differ
    c["own"] = draw(st.sampled_from([None, None, [draw(st.integers(0, 7)) for _ in range(3)]])) if own else None
    return c


def setup(case, ctx):
    real, mesh = meshes.make(case, ctx.tmp)
    dim = real.dim
    all_tags = fields.tags_of(real, dim)
    tags = [t for i, t in enumerate(all_tags) if not (case["select"] >> i) & 1] or all_tags
    spec = {"f%d" % i: (dim, f[2], f[0], f[1]) for i, f in enumerate(case["fields"])}
    disc = {"f%d" % i: f[3] for i, f in enumerate(case["fields"])}
    if case.get("own"):
        tags = {n: [t for j, t in enumerate(all_tags) if not (case["own"][i] >> j) & 1] or all_tags for i, n in enumerate(spec)}
        ctx.event("parts per field")
    space = fields.product_space(real, mesh, spec, disc=disc, tags=tags)
    alpha = fields.coefficients(space.n_dof, case["coef"])
    cen, s = poly.box_of(real.points)
    polys, fns = {}, {}
    for i, (fam, k, nc, _) in enumerate(case["fields"]):
        n = "f%d" % i
        ints = case["ints"][i:] + case["ints"][:i]
        rows = nc if fam == "Lagrange" else nc * dim
        p = poly.Poly(dim, k, rows, ints, cen, s)
        polys[n] = p
        if fam == "Lagrange" or dim == 1:
            fns[n] = p.xyz  # fluxes on lines are numbers
        else:
            def f(x, y, z, p=p, nc=nc):
                v = p.xyz(x, y, z)
                return v.reshape((nc, dim) + v.shape[1:])

            fns[n] = f
    return real, mesh, space, spec, polys, fns, alpha


def sample(space, name, iel, real, k, extra=4):
    """Independent quadrature on one cell: physical points, measure weights."""
    sub = space.discrete_spaces[name]
    dim = real.dim
    pts, w = basix.make_quadrature(CELL[dim], 2 * k + extra)
    P = real.points[np.asarray(sub.elements[iel].data.cell.node_tags)]
    x = np.hstack([1 - pts.sum(1, keepdims=True), pts]) @ P
    E = P[1:] - P[0]
    return pts, x, w * np.sqrt(np.linalg.det(E @ E.T)), P


def exact_values(p, fam, nc, dim, x):
    v = p(x)
    if fam == "Lagrange":
        return v.T[:, :, None]
    return v.reshape(nc, dim, -1).transpose(2, 0, 1)


def agree(got, want, size, what):
    got = float(got)
    if not np.isfinite(got) or abs(got - want) > 1e-8 * (want + size):
        raise Violation("%s returned %r, the integral is %r" % (what, got, want))


STENCIL = [(-2, 1.0 / 12), (-1, -2.0 / 3), (1, 2.0 / 3), (2, -1.0 / 12)]


def gradient(space, name, iel, alpha, P, X, dim):
    """d(value)/d(x_j), by a five-point stencil: exact for the polynomials of
    degree <= 4 the fields are on a cell.  Shape (n, nc, v, dim)."""
    J = (P[1:] - P[0]).T
    h = 0.1 * np.abs(J).max()
    out = []
    for j in range(dim):
        e = np.zeros(3)
        e[j] = 1.0
        g = 0.0
        dX = np.linalg.lstsq(J, e, rcond=None)[0]
        for s, wgt in STENCIL:
            g = g + wgt * fields.evaluate(space, name, iel, alpha, X + s * h * dX)
        out.append(g / h)
    return np.stack(out, axis=-1)


@subcheck(
    "C09",
    "l2",
    cases(lower=5, own=True),
    quick=2400,
    thorough=24000,
    rule="1-3 fields, random coefficients, polynomial exact functions, skipped fields, tag selections: l2_error, l2_error_projected and l2_norm against an independent integration (other quadrature, own geometry); non-trivial: more than one component or a vector family",
)
def l2(case, ctx):
    from postprocess.l2_error_post_processor import l2_error, l2_error_projected
    from postprocess.solution_norms_post_processor import l2_norm

    real, mesh, space, spec, polys, fns, alpha = setup(case, ctx)
    dim = real.dim
    skip = [n for i, n in enumerate(spec) if (case["skip"] >> i) & 1]
    if len(skip) == len(spec):
        skip = skip[1:]
    ctx.mark(any(f[0] != "Lagrange" or f[2] > 1 for f in case["fields"]))
    keep = [n for n in spec if n not in skip]
    e1 = l2_error(dim, space, fns, alpha, skip_fields=skip)
    e2 = l2_error_projected(dim, space, alpha, skip_fields=skip)
    e3 = l2_norm(dim, space, fns, skip_fields=skip)
    shift = case["dofshift"]
    e4 = l2_error_projected(dim, space, np.concatenate([np.zeros(shift), alpha]), skip_fields=skip, dof_shift=shift)
    if not (len(e1) == len(e2) == len(e3) == len(keep)):
        raise Violation("one value per field that is not skipped is expected: %d, %d, %d for %d" % (len(e1), len(e2), len(e3), len(keep)))
    for n, g1, g2, g3, g4 in zip(keep, e1, e2, e3, e4):
        d, nc, fam, k = spec[n]
        ctx.event(fam)
        s = np.zeros(3)
        for iel in range(len(space.discrete_spaces[n].elements)):
            X, x, dx, P = sample(space, n, iel, real, k)
            fe = exact_values(polys[n], fam, nc, dim, x)
            fh = fields.evaluate(space, n, iel, alpha, X)[:, :, : fe.shape[2]]
            s += [np.einsum("p,pcv->", dx, v * v) for v in (fe - fh, fh, fe)]
        s = np.sqrt(s)
        what = "%s(%d)x%d in %dd: " % (fam, k, nc, dim)
        agree(g1, s[0], s.max(), what + "l2_error")
        agree(g2, s[1], s.max(), what + "l2_error_projected")
        agree(g3, s[2], s.max(), what + "l2_norm")
        agree(g4, s[1], s.max(), what + "l2_error_projected with a dof shift")


@subcheck(
    "C09",
    "div",
    cases(families=("RT", "BDM", "RT", "BDM", "Lagrange"), dims=(1, 2, 2, 3), own=True),
    quick=1200,
    thorough=12000,
    rule="div_error, div_norm and div_scaled_error of RT/BDM fields (others must be left out) against an independent integration with numerical differentiation of the field (five-point stencil, exact for its degree); non-trivial: a vector field present",
)
def div(case, ctx):
    from postprocess.l2_error_post_processor import div_error, div_scaled_error
    from postprocess.solution_norms_post_processor import div_norm

    real, mesh, space, spec, polys, fns, alpha = setup(case, ctx)
    dim = real.dim
    vec = [n for n in spec if spec[n][2] in ("RT", "BDM")]
    skip = [n for i, n in enumerate(spec) if (case["skip"] >> i) & 1 and len(vec) > 1]
    if set(vec) <= set(skip):
        skip = []
    keep = [n for n in vec if n not in skip]
    ctx.mark(bool(keep))
    cen, size = poly.box_of(real.points)
    gp = poly.Poly(dim, 1, 1, case["ints"], cen, size)
    dpol = {}
    functions = dict(fns)
    for i, n in enumerate(vec):
        d, nc, fam, k = spec[n]
        dpol[n] = poly.Poly(dim, k, nc, case["ints"][i + 1 :] + case["ints"][: i + 1], cen, size)
        functions["div_" + n] = lambda x, y, z, p=dpol[n]: p.xyz(x, y, z)
    e1 = div_error(dim, space, functions, alpha, skip_fields=skip)
    e2 = div_norm(dim, space, functions, skip_fields=skip)
    # piecewise-constant scale, its gradient free: the product rule on both terms
    functions["l"] = lambda x, y, z: 2.0 + 0.0 * x
    functions["grad_l"] = lambda x, y, z: np.array([3.0 + 0 * x, -1.0 + 0 * x, 0.5 + 0 * x])[:dim]
    e3 = div_scaled_error(dim, space, functions, alpha, skip_fields=skip)
    if not (len(e1) == len(e2) == len(e3) == len(keep)):
        raise Violation("one value per RT/BDM field that is not skipped is expected")
    gg = np.array([3.0, -1.0, 0.5])[:dim]
    for n, g1, g2, g3 in zip(keep, e1, e2, e3):
        d, nc, fam, k = spec[n]
        ctx.event("%s%d" % (fam, k))
        s = np.zeros(4)
        for iel in range(len(space.discrete_spaces[n].elements)):
            X, x, dx, P = sample(space, n, iel, real, k)
            fe = dpol[n](x).T
            G = gradient(space, n, iel, alpha, P, X, dim)
            dh = np.einsum("pcvv->pc", G[:, :, :dim, :])
            v = fields.evaluate(space, n, iel, alpha, X)[:, :, :dim]
            sc = 2.0 * dh + v @ gg
            s += [np.einsum("p,pc->", dx, a * a) for a in (fe - dh, fe, fe - sc, dh)]
        s = np.sqrt(s)
        what = "%s(%d)x%d in %dd: " % (fam, k, nc, dim)
        agree(g1, s[0], s.max(), what + "div_error")
        agree(g2, s[1], s.max(), what + "div_norm")
        agree(g3, s[2], s.max(), what + "div_scaled_error")


@subcheck(
    "C09",
    "grad",
    cases(families=("Lagrange",), dims=(1, 2, 2, 3, 3), k3=3, own=True),
    quick=1200,
    thorough=8000,
    rule="grad_error of Lagrange fields against an independent integration with numerical differentiation; non-trivial: order >= 2 or several components",
)
def grad(case, ctx):
    from postprocess.l2_error_post_processor import grad_error

    real, mesh, space, spec, polys, fns, alpha = setup(case, ctx)
    dim = real.dim
    # on lines the gradient is a vector of R^3
    rows = 3 if dim == 1 else dim

    def exact(p):
        def f(x, y, z):
            g = np.zeros((p(real.points[:1]).shape[0], 3))
            g[:, :dim] = p.grad(np.array([[x, y, z]]))[:, :dim, 0]
            return g[:, :rows]

        return f

    functions = {"grad_" + n: exact(p) for n, p in polys.items()}
    ctx.mark(any(f[1] > 1 or f[2] > 1 for f in case["fields"]))
    got = grad_error(dim, space, functions, alpha)
    if len(got) != len(spec):
        raise Violation("one value per field is expected")
    for n, g in zip(spec, got):
        d, nc, fam, k = spec[n]
        s = np.zeros(2)
        for iel in range(len(space.discrete_spaces[n].elements)):
            X, x, dx, P = sample(space, n, iel, real, k)
            fe = polys[n].grad(x).transpose(2, 0, 1)[:, :, :dim]
            gh = gradient(space, n, iel, alpha, P, X, dim)[:, :, 0, :]
            s += [np.einsum("p,pcv->", dx, a * a) for a in (fe - gh, gh)]
        s = np.sqrt(s)
        agree(g, s[0], s.max(), "Lagrange(%d)x%d in %dd: grad_error" % (k, nc, dim))


@st.composite
def devia_cases(draw):
    c = draw(cases(families=("RT", "BDM"), dims=(2, 2, 3), own=True))
    for f in c["fields"]:
        f[2] = c["dim"]
    c["pressure"] = draw(st.integers(-4, 4))
    return c


@subcheck(
    "C09",
    "deviatoric",
    devia_cases(),
    quick=600,
    thorough=6000,
    rule="devia_l2_error / devia_l2_norm of stress fields (one RT/BDM row per space dimension) against the norm of the field minus its mean trace over the domain times the identity; non-trivial: every case",
)
def deviatoric(case, ctx):
    from postprocess.l2_error_post_processor import devia_l2_error
    from postprocess.solution_norms_post_processor import devia_l2_norm

    real, mesh, space, spec, polys, fns, alpha = setup(case, ctx)
    dim = real.dim
    ctx.mark()
    pr = float(case["pressure"])
    functions = {
        n: (lambda x, y, z, f=f: f(x, y, z) + pr * np.eye(dim)) for n, f in fns.items()
    }
    skip = [n for i, n in enumerate(spec) if (case["skip"] >> i) & 1]
    if len(skip) == len(spec):
        skip = []
    keep = [n for n in spec if n not in skip]
    e1 = devia_l2_error(dim, space, functions, alpha, skip_fields=skip)
    e2 = devia_l2_norm(dim, space, functions, skip_fields=skip)
    if not (len(e1) == len(e2) == len(keep)):
        raise Violation("one value per field that is not skipped is expected")
    for n, g1, g2 in zip(keep, e1, e2):
        d, nc, fam, k = spec[n]
        data = []
        for iel in range(len(space.discrete_spaces[n].elements)):
            X, x, dx, P = sample(space, n, iel, real, k)
            fe = exact_values(polys[n], fam, nc, dim, x) + pr * np.eye(dim)
            fh = fields.evaluate(space, n, iel, alpha, X)[:, :, :dim]
            data.append((dx, fe, fh))
        vol = sum(dx.sum() for dx, _, _ in data)
        te = sum(np.einsum("p,pcc->", dx, fe) for dx, fe, _ in data) / vol / dim
        th = sum(np.einsum("p,pcc->", dx, fh) for dx, _, fh in data) / vol / dim
        I = np.eye(dim)
        s1 = np.sqrt(sum(np.einsum("p,pcv->", dx, ((fe - te * I) - (fh - th * I)) ** 2) for dx, fe, fh in data))
        s2 = np.sqrt(sum(np.einsum("p,pcv->", dx, (fe - te * I) ** 2) for dx, fe, _ in data))
        sz = np.sqrt(sum(np.einsum("p,pcv->", dx, fe ** 2 + fh ** 2) for dx, fe, fh in data))
        agree(g1, s1, sz, "%s(%d) in %dd: devia_l2_error" % (fam, k, dim))
        agree(g2, s2, sz, "%s(%d) in %dd: devia_l2_norm" % (fam, k, dim))


@subcheck(
    "C09",
    "large",
    cases(own=True, large=(200, 8, 3)),
    quick=24,
    thorough=300,
    weight=2.0,
    rule="l2 functionals on meshes of a hundred cells in random numbering",
)
def large(case, ctx):
    l2(case, ctx)


@st.composite
def mixed_cases(draw):
    c = draw(meshes.mesh_cases(dims=(1, 2, 2, 3), small=True, scales=(1.0, 1.0, 1e-2, 50.0), flat=True))
    c["fields"] = []
    for _ in range(draw(st.integers(1, 3))):
        d = draw(st.integers(0, c["dim"]))
        c["fields"].append([d, draw(st.integers(1, 3)) if d else 0, draw(st.integers(1, 3)), draw(st.booleans()), draw(st.sampled_from([0, 0, 1, 2, 4]))])
    c["ints"] = draw(st.lists(st.integers(-5, 5), min_size=4, max_size=7))
    c["coef"] = draw(st.lists(st.integers(-9, 9), min_size=1, max_size=3))
    c["dofshift"] = draw(st.sampled_from([0, 0, 4]))
    return c


@subcheck(
    "C09",
    "mixed",
    mixed_cases(),
    quick=800,
    thorough=10000,
    rule="1-3 Lagrange fields on tagged entities of different dimensions in one product space: l2_error, l2_error_projected and l2_norm of every dimension (on points the sum over them); non-trivial: a field on points or two dimensions",
)
def mixed(case, ctx):
    from postprocess.l2_error_post_processor import l2_error, l2_error_projected
    from postprocess.solution_norms_post_processor import l2_norm

    real, mesh = meshes.make(case, ctx.tmp)
    cen, size = poly.box_of(real.points)
    spec, tags, polys, disc = {}, {}, {}, {}
    for i, (d, k, nc, dc, mask) in enumerate(case["fields"]):
        every = fields.tags_of(real, d)
        if not every:
            continue
        n = "f%d" % i
        spec[n] = (d, nc, "Lagrange", k)
        tags[n] = [t for j, t in enumerate(every) if not (mask >> j) & 1] or every
        disc[n] = dc
        polys[n] = poly.Poly(real.dim, max(k, 1), nc, case["ints"][i:] + case["ints"][:i], cen, size)
    if not spec:
        return
    dims = sorted({f[0] for f in spec.values()})
    ctx.mark(0 in dims or len(dims) > 1)
    space = fields.product_space(real, mesh, spec, disc=disc, tags=tags)
    alpha = fields.coefficients(space.n_dof, case["coef"])
    functions = {n: p.xyz for n, p in polys.items()}
    shift = case["dofshift"]
    moved = np.concatenate([np.zeros(shift), alpha])
    for dim in dims:
        e1 = l2_error(dim, space, functions, alpha)
        e2 = l2_error_projected(dim, space, alpha)
        e3 = l2_norm(dim, space, functions)
        e4 = l2_error_projected(dim, space, moved, dof_shift=shift)
        if not (len(e1) == len(e2) == len(e3) == len(e4) == len(spec)):
            raise Violation("one value per field is expected: %d, %d, %d, %d for %d" % (len(e1), len(e2), len(e3), len(e4), len(spec)))
        for n, g1, g2, g3, g4 in zip(spec, e1, e2, e3, e4):
            d, nc, fam, k = spec[n]
            if d != dim:
                continue
            s = np.zeros(3)
            for iel, el in enumerate(space.discrete_spaces[n].elements):
                nodes = np.asarray(el.data.cell.node_tags)
                if d == 0:
                    dx, fe = np.ones(1), exact_values(polys[n], fam, nc, dim, real.points[nodes])
                    fh = alpha[space.destination_indexes(iel, n)][None, :, None]
                else:
                    X, w = basix.make_quadrature(CELL[d], 2 * max(k, 1) + 4)
                    P = real.points[nodes]
                    E = P[1:] - P[0]
                    x = np.hstack([1 - X.sum(1, keepdims=True), X]) @ P
                    dx = w * np.sqrt(np.linalg.det(E @ E.T))
                    fe = exact_values(polys[n], fam, nc, dim, x)
                    fh = fields.evaluate(space, n, iel, alpha, X)
                s += [np.einsum("p,pcv->", dx, v * v) for v in (fe - fh, fh, fe)]
            s = np.sqrt(s)
            what = "Lagrange(%d)x%d of dimension %d: " % (k, nc, d)
            agree(g1, s[0], s.max(), what + "l2_error")
            agree(g2, s[1], s.max(), what + "l2_error_projected")
            agree(g3, s[2], s.max(), what + "l2_norm")
            agree(g4, s[1], s.max(), what + "l2_error_projected with a dof shift")
