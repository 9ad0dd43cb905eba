"""C19 - scalar elliptic weak forms."""

import numpy as np
from hypothesis import strategies as st

from harness import fields, forms, meshes, poly
from harness.core import Violation, subcheck

TITLE = "Scalar elliptic weak forms evaluate their stated residual and Jacobian"
ASSUMPTIONS = [
    "coefficients smooth and positive (or zero/negative porosity where the form defines a cut-off)",
    "single-component fields, flat consistently oriented meshes, and lines in meshes of a higher dimension (primal form; the flux of the one-dimensional mixed forms is its component along x)",
]
BETA = 1.0e12


@st.composite
def cases(draw, dims=(2, 2, 3), kmax=3, boundary=False, lower=0):
    c = draw(
        meshes.mesh_cases(
            dims=dims, small=True, max_cells=6, flat=True,
            all_tagged_boundary=boundary, scales=(1.0, 1.0, 1e-2, 30.0), lower=lower,
        )
    )
    if c.get("sub"):
        c["sub"] = 1  # lines of a mesh of a higher dimension
    c["k"] = draw(st.integers(1, kmax if c["dim"] < 3 else 2))
    c["family"] = draw(st.sampled_from(["RT", "BDM"] if c["dim"] > 1 else ["RT", "BDM", "Lagrange"]))
    if c["family"] == "Lagrange":
        c["flip1"] = False  # fluxes made of Lagrange functions need segments along +x
    c["kp"] = draw(st.integers(0, 1))
    c["coef"] = draw(st.lists(st.integers(-9, 9), min_size=1, max_size=3))
    c["ints"] = draw(st.lists(st.integers(-5, 5), min_size=4, max_size=6))
    c["base"] = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e4]))
    c["seed"] = draw(st.integers(0, 6))
    c["thin"] = draw(st.integers(0, 5))
    c["vary"] = draw(st.booleans())
    # what boundary functions return: a new array, a list, or an array that is theirs
    c["returns"] = draw(st.sampled_from(["array", "array", "list", "own"])) if boundary else "array"
    c["pick"] = draw(st.lists(st.integers(0, 50), min_size=1, max_size=2))
    return c


def boundary_tags(real):
    """Tags that occur on boundary facets only."""
    fm = fields.facet_map(real)
    tags = real.tags[real.dim - 1]
    inner = {t for f, t in tags.items() if len(fm[f]) > 1}
    return sorted({t for f, t in tags.items() if len(fm[f]) == 1} - inner)


def scalar_data(case, real, deg=2):
    cen, size = poly.box_of(real.points)
    rhs = poly.Poly(real.dim, deg, 1, case["ints"], cen, size)
    return cen, size, rhs


def check_affine(form, args, e, alpha, what, extra=()):
    """r(alpha) = e.r + e.J alpha and J = e.J, for a zero and a non-zero state."""
    r, J = form.evaluate_form(*args, alpha.copy(), *extra)
    forms.compare(J, e.J, e.slices, what + ": Jacobian", Violation)
    want = e.r + e.J @ alpha
    mag = np.abs(e.r) + np.abs(e.J) @ np.abs(alpha)
    r = np.asarray(r, dtype=float)
    if r.shape != want.shape or not np.all(np.isfinite(r)):
        raise Violation("%s: residual has shape %s or is not finite" % (what, r.shape))
    for n, s in e.slices.items():
        if r[s].size and np.abs(r[s] - want[s]).max() > 1e-8 * mag[s].max() + 1e-13 * (mag.max() + e.roundoff(n)):
            raise Violation(
                "%s: residual of field %s differs by %g (terms up to %g)"
                % (what, n, np.abs(r[s] - want[s]).max(), mag[s].max())
            )


def states(n, ints):
    return [np.zeros(n), fields.coefficients(n, ints)]


@subcheck(
    "C19",
    "primal",
    cases(lower=4),
    quick=700,
    thorough=9000,
    rule="LaplacePrimalWeakForm on drawn elements, orders 1-3, coefficient and right-hand side functions, at zero and non-zero states, against grad-grad and load integrals from independent geometry and numerical gradients; non-trivial: every case",
)
def primal(case, ctx):
    from weak_forms.laplace_primal_weak_form import LaplacePrimalWeakForm

    real, mesh = meshes.make(case, ctx.tmp)
    space = fields.product_space(real, mesh, {"p": (real.dim, 1, "Lagrange", case["k"])})
    cen, size, rhs = scalar_data(case, real)
    kappa = forms.Coefficient(case["base"], case["seed"], cen, size, case["vary"])
    form = LaplacePrimalWeakForm(space)
    form.functions = {"rhs": rhs.xyz, "kappa": kappa}
    ctx.mark()
    ctx.event("%dd k=%d" % (real.dim, case["k"]))
    nel = len(space.discrete_spaces["p"].elements)
    for i in {p % nel for p in case["pick"]}:
        e = forms.Element(space, i, real)
        p = e.f["p"]
        e.add("p", "p", forms.dot(e.dx * e.call(kappa), p.G, p.G))
        e.load("p", -forms.moment(e.dx, p.U, e.call(rhs.xyz)))
        for a in states(e.n, case["coef"]):
            check_affine(form, (i,), e, a, "primal Laplace (k=%d, %dd)" % (case["k"], real.dim))


def mixed_space(case, real, mesh, names, boundary=False):
    u, p = names
    k = case["k"]
    kp = k - 1 if (case["kp"] and k > 1) or case["family"] == "RT" else k
    kp = max(kp, 0) if case["kp"] else k
    tags = boundary_tags(real) if boundary else []
    return fields.product_space(
        real, mesh,
        {u: (real.dim, 1, case["family"], k), p: (real.dim, 1, "Lagrange", kp)},
        disc={p: True}, btags={u: tags},
    )


@subcheck(
    "C19",
    "mixed",
    cases(dims=(1, 2, 2, 3)),
    quick=500,
    thorough=9000,
    rule="LaplaceDual, DegenerateElliptic, UnscaledElliptic on drawn elements, families, orders and coefficient functions (degenerate: porosity vanishing or negative on part of the element) against an independent assembly; non-trivial: every case",
)
def mixed(case, ctx):
    from weak_forms.degenerate_elliptic_weak_form import DegenerateEllipticWeakForm
    from weak_forms.laplace_dual_weak_form import LaplaceDualWeakForm
    from weak_forms.unscaled_elliptic_weak_form import UnscaledEllipticWeakForm

    real, mesh = meshes.make(case, ctx.tmp)
    cen, size, rhs = scalar_data(case, real)
    ctx.mark()
    ctx.event("%dd %s%d" % (real.dim, case["family"], case["k"]))
    kappa = forms.Coefficient(case["base"], case["seed"], cen, size, case["vary"])
    delta = forms.Coefficient(1.0, case["seed"] + 1, cen, size, case["vary"])
    pbase = forms.Coefficient(0.3, case["seed"] + 2, cen, size, True)
    cut = [-1e30, 0.2, 1e30][case["seed"] % 3] if case["vary"] else -1e30
    low = [0.0, -0.5, 1e-12][case["seed"] % 3]
    part = [1.0, 1.0, 1.0, 1e-2, 1e-4, 1e-6][case["thin"]]

    def porosity(x, y, z):
        t = pbase.parts(x, y, z)
        return np.where(np.sin(3 * t) > cut, part * pbase(x, y, z), low)

    space = mixed_space(case, real, mesh, ("u", "p"))
    dual = LaplaceDualWeakForm(space)
    dual.functions = {"rhs": rhs.xyz, "kappa": kappa}
    uns = UnscaledEllipticWeakForm(space)
    pos = (lambda x, y, z: np.abs(porosity(x, y, z)))
    uns.functions = {
        "rhs": rhs.xyz, "porosity": pos, "d_phi": delta, "grad_d_phi": delta.gradient,
    }
    space2 = mixed_space(case, real, mesh, ("v", "q"))
    deg = DegenerateEllipticWeakForm(space2)
    deg.functions = {
        "rhs": rhs.xyz, "porosity": porosity, "d_phi": delta, "grad_d_phi": delta.gradient,
    }
    nel = len(space.discrete_spaces["u"].elements)
    what = "%s(%d), %dd" % (case["family"], case["k"], real.dim)
    for i in {p % nel for p in case["pick"]}:
        e = forms.Element(space, i, real)
        u, p = e.f["u"], e.f["p"]
        e.add("u", "u", forms.dot(e.dx / e.call(kappa), u.V, u.V))
        B = forms.dot(e.dx, u.D, p.U)
        e.add("u", "p", -B)
        e.add("p", "u", B.T)
        e.load("p", -forms.moment(e.dx, p.U, e.call(rhs.xyz)))
        check_affine(dual, (i,), e, np.zeros(e.n), "mixed Laplace " + what)

        e = forms.Element(space, i, real)
        u, p = e.f["u"], e.f["p"]
        ph = e.call(pos)
        s = np.sqrt(ph)
        ph = np.where(np.isclose(ph, 0.0), 1e-16, ph)
        e.add("u", "u", forms.dot(e.dx / e.call(delta) ** 2, u.V, u.V))
        e.add("u", "p", -B)
        e.add("p", "u", B.T)
        e.add("p", "p", forms.dot(e.dx * ph, p.U, p.U))
        e.load("p", -forms.moment(e.dx * s, p.U, e.call(rhs.xyz)))
        for a in states(e.n, case["coef"]):
            check_affine(uns, (i,), e, a, "unscaled elliptic " + what)

        e = forms.Element(space2, i, real)
        v, q = e.f["v"], e.f["q"]
        ph = e.call(porosity)
        on = (~np.isclose(ph, 0.0)) & (ph > 0)
        isq = np.where(on, 1.0 / np.sqrt(np.where(on, ph, 1.0)), 0.0)
        dl = e.call(delta)
        gd = e.call(delta.gradient)[: real.dim]
        D = isq[:, None] * (dl[:, None] * v.D[:, :, 0] + np.einsum("jp,pij->pi", gd, v.V[:, :, 0, :]))
        B2 = np.einsum("p,pi,pj->ij", e.dx, D, q.U[:, :, 0])
        e.add("v", "v", forms.dot(e.dx, v.V, v.V))
        e.add("v", "q", -B2)
        e.add("q", "v", B2.T)
        e.add("q", "q", forms.dot(e.dx, q.U, q.U))
        e.load("q", -forms.moment(e.dx, q.U, e.call(rhs.xyz)))
        for a in states(e.n, case["coef"]):
            check_affine(deg, (i,), e, a, "degenerate elliptic " + what)


@subcheck(
    "C19",
    "projection",
    cases(),
    quick=300,
    thorough=4000,
    rule="ScaledToPhysicalL2Projection: residual M (physical - recovered scaled state), Jacobian M, including elements with vanishing porosity; non-trivial: every case",
)
def projection(case, ctx):
    from weak_forms.scaled_to_physical_l2_projection import ScaledToPhysicalL2Projection

    real, mesh = meshes.make(case, ctx.tmp)
    cen, size, rhs = scalar_data(case, real)
    ctx.mark()
    delta = forms.Coefficient(1.0, case["seed"] + 1, cen, size, case["vary"])
    pbase = forms.Coefficient(0.3, case["seed"] + 2, cen, size, True)
    cut = [-1e30, 0.2, 1e30][case["seed"] % 3]
    # porosities of all sizes, also next to where there is none
    part = [1.0, 1e-4, 1e-9][case["thin"] % 3]
    thin = pbase if case["thin"] < 3 else (lambda x, y, z: part * pbase(x, y, z))

    def porosity(x, y, z):
        t = np.sin(3 * pbase.parts(x, y, z))
        return np.where(t > cut, np.where(t > cut + 0.3, thin(x, y, z), part * pbase(x, y, z)), 0.0)

    space = mixed_space(case, real, mesh, ("v", "q"))
    form = ScaledToPhysicalL2Projection(space)
    form.functions = {"porosity": porosity, "d_phi": delta}
    nel = len(space.discrete_spaces["v"].elements)
    for i in {p % nel for p in case["pick"]}:
        e = forms.Element(space, i, real)
        v, q = e.f["v"], e.f["q"]
        a = fields.coefficients(e.n, case["coef"])
        b = fields.coefficients(e.n, case["ints"])
        ph = e.call(porosity)
        on = ph > 0
        fv = np.where(on, e.call(delta), 1.0)
        fq = np.where(on, 1.0 / np.sqrt(np.where(on, ph, 1.0)), 1.0)
        e.add("v", "v", forms.dot(e.dx, v.V, v.V))
        e.add("q", "q", forms.dot(e.dx, q.U, q.U))
        e.load("v", -forms.dot(e.dx * fv, v.V, v.V) @ b[e.slices["v"]])
        e.load("q", -forms.dot(e.dx * fq, q.U, q.U) @ b[e.slices["q"]])
        for alpha in (np.zeros(e.n), a):
            check_affine(form, (i,), e, alpha, "scaled-to-physical projection", extra=(b,))


def check_boundary(space, form, names, fac, ibc, r, J, what, tol=1e-8):
    """Boundary contributions compared in global numbering: r, J are dicts of
    reference arrays over the local dofs of the owning cell."""
    N = space.n_dof
    ref_r, ref_J = np.zeros(N), np.zeros((N, N))
    dest = {n: space.destination_indexes(fac.iel, n) for n in names}
    for n, v in r.items():
        np.add.at(ref_r, dest[n], v)
    for (a, b), v in J.items():
        np.add.at(ref_J, np.ix_(dest[a], dest[b]), v)
    bd = np.concatenate([space.bc_destination_indexes(ibc, n) for n in names])
    rl, jl = form.evaluate_form(ibc, np.zeros(len(bd)))
    rl, jl = np.asarray(rl, float), np.asarray(jl, float)
    if rl.shape != (len(bd),) or jl.shape != (len(bd), len(bd)):
        raise Violation("%s: local shapes %s %s for %d boundary dofs" % (what, rl.shape, jl.shape, len(bd)))
    got_r, got_J = np.zeros(N), np.zeros((N, N))
    np.add.at(got_r, bd, rl)
    np.add.at(got_J, np.ix_(bd, bd), jl)
    # what the loads add up before cancellation (penalised forms carry their factor)
    floor = sum(fac.roundoff(n, fac.table(n)) for n in names) * (BETA if np.abs(ref_J).max() > 0 else 1.0)
    for g, w, lab in ((got_r, ref_r, "residual"), (got_J, ref_J, "Jacobian")):
        d = np.abs(g - w).max()
        if not np.all(np.isfinite(g)) or d > tol * np.abs(w).max() + (1e-13 * floor if w is ref_r else 0.0) + 1e-300:
            raise Violation("%s: %s differs by %g (entries up to %g)" % (what, lab, d, np.abs(w).max()))


@subcheck(
    "C19",
    "boundary",
    cases(dims=(1, 2, 2, 3), boundary=True),
    quick=700,
    thorough=9000,
    rule="boundary forms (penalised Dirichlet of the primal form, natural Dirichlet of the three mixed forms) on drawn boundary facets, compared in global numbering with integrals of the trace of the owning cell; non-trivial: a boundary tag exists",
)
def boundary(case, ctx):
    from weak_forms.degenerate_elliptic_weak_form import DegenerateEllipticWeakFormBCDirichlet
    from weak_forms.laplace_dual_weak_form import LaplaceDualWeakFormBCDirichlet
    from weak_forms.laplace_primal_weak_form import LaplacePrimalWeakFormBCDirichlet
    from weak_forms.unscaled_elliptic_weak_form import UnscaledEllipticWeakFormBCDirichlet

    real, mesh = meshes.make(case, ctx.tmp)
    dim, k = real.dim, case["k"]
    tags = boundary_tags(real)
    if not tags:
        return
    ctx.mark()
    cen, size, data = scalar_data(case, real, deg=0 if case["returns"] == "own" else min(2, k + 1))
    own = np.array(data.xyz(*real.points[0]), dtype=float).ravel()
    before = own.copy()

    def given(x, y, z):
        if np.ndim(x):
            return data.xyz(x, y, z)
        if case["returns"] == "own":
            return own
        return list(data.xyz(x, y, z)) if case["returns"] == "list" else data.xyz(x, y, z)

    delta = forms.Coefficient(1.0, case["seed"] + 1, cen, size, case["vary"])
    poro = forms.Coefficient(0.3 if case["seed"] != 3 else 0.0, case["seed"] + 2, cen, size, True)

    space = fields.product_space(real, mesh, {"p": (dim, 1, "Lagrange", k)}, btags=tags)
    form = LaplacePrimalWeakFormBCDirichlet(space)
    form.functions = {"p": given}
    nbc = len(space.discrete_spaces["p"].bc_elements)
    for ib in {p % nbc for p in case["pick"]}:
        fac = forms.Facet(space, "p", ib, real)
        t = fac.table("p")
        check_boundary(
            space, form, ["p"], fac, ib,
            {"p": -BETA * forms.moment(fac.dx, t.U, fac.call(data.xyz))},
            {("p", "p"): BETA * forms.dot(fac.dx, t.U, t.U)},
            "primal Laplace Dirichlet (k=%d, %dd)" % (k, dim),
        )
    for cls, (u, p), fn in (
        (LaplaceDualWeakFormBCDirichlet, ("u", "p"), "p"),
        (UnscaledEllipticWeakFormBCDirichlet, ("u", "p"), "p"),
        (DegenerateEllipticWeakFormBCDirichlet, ("v", "q"), "q"),
    ):
        space = mixed_space(case, real, mesh, (u, p), boundary=True)
        form = cls(space)
        form.functions = {fn: given, "d_phi": delta, "porosity": poro, "grad_d_phi": delta.gradient}
        nbc = len(space.discrete_spaces[u].bc_elements)
        for ib in {p % nbc for p in case["pick"]}:
            fac = forms.Facet(space, u, ib, real)
            t = fac.table(u)
            g = fac.call(data.xyz)
            if cls is DegenerateEllipticWeakFormBCDirichlet:
                ph = fac.call(poro)
                if ph.min() > 0:
                    g = g * fac.call(delta) / np.sqrt(ph)
            vn = np.einsum("picv,v->pic", t.V, fac.n)
            check_boundary(
                space, form, [u], fac, ib, {u: forms.moment(fac.dx, vn, g)}, {},
                "%s %s(%d), %dd" % (cls.__name__, case["family"], case["k"], dim),
            )
            if not np.array_equal(own, before):
                raise Violation("%s changed the data it was given: %s to %s" % (cls.__name__, before, own))
