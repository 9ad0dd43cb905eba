"""C25 - weak forms of linear elasticity and linear Cosserat elasticity."""

import numpy as np
from hypothesis import strategies as st

from checks.C19 import BETA, boundary_tags, check_affine, check_boundary, states
from harness import fields, forms, meshes, poly
from harness.core import Violation, subcheck

TITLE = "Elasticity and Cosserat weak forms evaluate their stated residual and Jacobian"
ASSUMPTIONS = [
    "positive smooth coefficients; flat meshes in two and three dimensions",
    "the plain mixed elasticity form and the Taylor-Hood form are two-dimensional in the library",
]


@st.composite
def cases(draw, dims=(2, 2, 3), kmax=3, boundary=False):
    c = draw(
        meshes.mesh_cases(
            dims=dims, small=True, max_cells=4, flat=True,
            all_tagged_boundary=boundary, scales=(1.0, 1.0, 1e-1, 10.0),
        )
    )
    c["k"] = draw(st.integers(1, kmax if c["dim"] == 2 else 2))
    c["k2"] = draw(st.integers(1, kmax if c["dim"] == 2 else 2))
    c["fam"] = draw(st.sampled_from(["RT", "BDM"]))
    c["fam2"] = draw(st.sampled_from(["RT", "BDM"]))
    c["kp"] = draw(st.integers(0, 1))
    c["kt"] = draw(st.integers(0, 1))
    c["coef"] = draw(st.lists(st.integers(-9, 9), min_size=1, max_size=3))
    c["ints"] = draw(st.lists(st.integers(-5, 5), min_size=4, max_size=6))
    c["base"] = draw(st.sampled_from([1.0, 1.0, 1e-2, 1e3]))
    c["seed"] = draw(st.integers(0, 6))
    c["vary"] = draw(st.booleans())
    c["pick"] = draw(st.integers(0, 50))
    return c


def data(case, real, ncomp, deg=2):
    cen, size = poly.box_of(real.points)
    return cen, size, poly.Poly(real.dim, deg, ncomp, case["ints"], cen, size)


def coefs(case, cen, size, names):
    return {
        n: forms.Coefficient(case["base"] if i % 2 == 0 else 1.0, case["seed"] + i, cen, size, case["vary"])
        for i, n in enumerate(names)
    }


def col(v):
    """(points,) -> broadcastable against (points, dofs, d, d)."""
    return v[:, None, None, None]


def sym(T):
    return 0.5 * (T + np.swapaxes(T, -1, -2))


def skw(T):
    return 0.5 * (T - np.swapaxes(T, -1, -2))


def volume(T, dim):
    return np.einsum("pijj->pi", T)[:, :, None, None] * np.eye(dim)


def theta(f, dim):
    """Skew matrix of a rotation field, per local dof."""
    U = f.U
    z = np.zeros(U.shape[:2])
    if dim == 2:
        t = U[:, :, 0]
        rows = [[z, -t], [t, z]]
    else:
        a, b, c = (U[:, :, i] for i in range(3))
        rows = [[z, -c, b], [c, z, -a], [-b, a, z]]
    return np.stack([np.stack(r, axis=-1) for r in rows], axis=-2)


def cross(T, dim):
    if dim == 2:
        return (T[:, :, 1, 0] - T[:, :, 0, 1])[:, :, None]
    return np.stack(
        [
            T[:, :, 2, 1] - T[:, :, 1, 2],
            T[:, :, 0, 2] - T[:, :, 2, 0],
            T[:, :, 1, 0] - T[:, :, 0, 1],
        ],
        axis=-1,
    )


def compliance(T, dim, lam, mu, kap=None):
    lam, mu = col(lam), col(mu)
    head = T if kap is None else sym(T)
    out = (head - lam / (2 * mu + dim * lam) * volume(T, dim)) / (2 * mu)
    if kap is not None:
        out = out + skw(T) / (2 * col(kap))
    return out


def element_of(case, space):
    n = len(space.discrete_spaces[list(space.discrete_spaces)[0]].elements)
    return case["pick"] % n


@subcheck(
    "C25",
    "primal",
    cases(),
    quick=500,
    thorough=6000,
    rule="LEPrimal, LEPrimalStressConstraint, LCEPrimal and (in 2D) Taylor-Hood forms on drawn elements, orders and coefficient functions at zero and non-zero states; non-trivial: every case",
)
def primal(case, ctx):
    from weak_forms.lce_primal_weak_form import LCEPrimalWeakForm
    from weak_forms.le_primal_stress_constraint_weak_form import LEPrimalStressConstraintWeakForm
    from weak_forms.le_primal_weak_form import LEPrimalWeakForm
    from weak_forms.le_taylor_hood_weak_form import LETaylorHoodWeakForm

    real, mesh = meshes.make(case, ctx.tmp)
    dim, k, k2 = real.dim, case["k"], case["k2"]
    nt = 1 if dim == 2 else 3
    cen, size, rhs = data(case, real, dim + nt)
    fn = coefs(case, cen, size, ["lambda", "mu", "kappa", "gamma"])
    target = poly.Poly(dim, 1, dim * dim, case["ints"], cen, size)
    ctx.mark()
    ctx.event("%dd k=%d,%d" % (dim, k, k2))

    def s_target(x, y, z):
        return target.xyz(x, y, z).reshape(dim, dim, -1)

    space = fields.product_space(real, mesh, {"u": (dim, dim, "Lagrange", k)})
    form = LEPrimalWeakForm(space)
    form.functions = dict(fn, rhs=rhs.xyz)
    iel = element_of(case, space)
    e = forms.Element(space, iel, real)
    u = e.f["u"]
    gu = u.G[:, :, :, 0]
    lam, mu, kap, gam = (e.call(fn[n]) for n in ("lambda", "mu", "kappa", "gamma"))
    f = e.call(rhs.xyz)

    def stress(G):
        return 2 * col(mu) * sym(G) + col(lam) * volume(G, dim)

    e.add("u", "u", forms.dot(e.dx, gu, stress(gu)))
    e.load("u", forms.moment(e.dx, u.U, f[:dim]))
    for a in states(e.n, case["coef"]):
        check_affine(form, (iel,), e, a, "primal elasticity (k=%d, %dd)" % (k, dim))

    form = LEPrimalStressConstraintWeakForm(space)
    form.functions = dict(fn, s_target=s_target)
    e.J[:] *= 1e6
    e.r[:] = -1e6 * forms.moment(e.dx, gu, e.call(s_target))
    e.fmax *= 1e6 * np.abs(gu).max() / np.abs(u.V).max()
    for a in states(e.n, case["coef"]):
        check_affine(form, (iel,), e, a, "stress constraint (k=%d, %dd)" % (k, dim))

    space = fields.product_space(
        real, mesh, {"u": (dim, dim, "Lagrange", k), "t": (dim, nt, "Lagrange", k2)}
    )
    form = LCEPrimalWeakForm(space)
    form.functions = dict(fn, rhs=rhs.xyz)
    e = forms.Element(space, iel, real)
    u, t = e.f["u"], e.f["t"]
    gu, gt = u.G[:, :, :, 0], t.G
    lam, mu, kap, gam = (e.call(fn[n]) for n in ("lambda", "mu", "kappa", "gamma"))
    f = e.call(rhs.xyz)

    def cstress(T):
        return stress(T) + 2 * col(kap) * skw(T)

    th = theta(t, dim)
    e.add("u", "u", forms.dot(e.dx, gu, cstress(gu)))
    e.add("u", "t", forms.dot(e.dx, gu, cstress(th)))
    e.add("t", "u", forms.dot(e.dx, t.U, cross(cstress(gu), dim)))
    e.add("t", "t", forms.dot(e.dx * gam, gt, gt) + forms.dot(e.dx, t.U, cross(cstress(th), dim)))
    e.load("u", forms.moment(e.dx, u.U, f[:dim]))
    e.load("t", forms.moment(e.dx, t.U, f[dim:]))
    for a in states(e.n, case["coef"]):
        check_affine(form, (iel,), e, a, "primal Cosserat (k=%d,%d, %dd)" % (k, k2, dim))

    if dim == 2:
        space = fields.product_space(
            real, mesh, {"u": (dim, dim, "Lagrange", k), "p": (dim, 1, "Lagrange", k2)}
        )
        form = LETaylorHoodWeakForm(space)
        form.functions = dict(fn, rhs=rhs.xyz)
        e = forms.Element(space, iel, real)
        u, p = e.f["u"], e.f["p"]
        gu = u.G[:, :, :, 0]
        lam, mu = e.call(fn["lambda"]), e.call(fn["mu"])
        f = e.call(rhs.xyz)
        s = 2 * col(mu) * sym(gu)
        dev = s - volume(s, 2) / 2.0
        div = np.einsum("pijj->pi", gu)[:, :, None]
        e.add("u", "u", forms.dot(e.dx, gu, dev))
        B = forms.dot(e.dx, div, p.U)
        e.add("u", "p", B)
        e.add("p", "u", B.T)
        e.add("p", "p", -forms.dot(e.dx / (lam + mu), p.U, p.U))
        e.load("u", forms.moment(e.dx, u.U, f[:dim]))
        for a in states(e.n, case["coef"]):
            check_affine(form, (iel,), e, a, "Taylor-Hood (k=%d,%d)" % (k, k2))


def dual_space(case, real, mesh, couple, tags=None):
    dim, k = real.dim, case["k"]
    nt = 1 if dim == 2 else 3
    spec = {"s": (dim, dim, case["fam"], k)}
    if couple:
        spec["m"] = (dim, nt, case["fam2"], case["k2"])
    spec["u"] = (dim, dim, "Lagrange", max(k - case["kp"], 0))
    spec["t"] = (dim, nt, "Lagrange", max(k - case["kt"], 0))
    b = {n: tags for n in ("s", "m") if n in spec} if tags else {}
    return fields.product_space(real, mesh, spec, disc={"u": True, "t": True}, btags=b)


def check_vectorized(form, iel, e, what, tol=1e-8):
    r, J = form.evaluate_form_vectorized(iel, np.zeros(e.n))
    forms.compare(J, e.J, e.slices, what + " (vectorized): Jacobian", Violation)
    forms.compare(r, e.r, e.slices, what + " (vectorized): residual", Violation, floor={n: e.roundoff(n) for n in e.slices})


@subcheck(
    "C25",
    "mixed",
    cases(dims=(2, 2, 2, 3), kmax=2),
    quick=260,
    thorough=3000,
    rule="LEDual, LCEDual, LCEScaledDual (plain AD form and vectorized form) and the three Riesz maps on drawn elements, families, orders and coefficient functions; non-trivial: every case",
)
def mixed(case, ctx):
    from weak_forms.lce_dual_weak_form import LCEDualWeakForm
    from weak_forms.lce_riesz_map_weak_form import LCERieszMapWeakForm
    from weak_forms.lce_scaled_dual_weak_form import LCEScaledDualWeakForm
    from weak_forms.lce_scaled_riesz_map_weak_form import LCEScaledRieszMapWeakForm
    from weak_forms.le_dual_weak_form import LEDualWeakForm
    from weak_forms.le_riesz_map_weak_form import LERieszMapWeakForm

    real, mesh = meshes.make(case, ctx.tmp)
    dim = real.dim
    if dim == 3:
        case = dict(case, k=1, k2=1) if case["seed"] < 6 else case
    nt = 1 if dim == 2 else 3
    cen, size, rhs = data(case, real, dim + nt)
    ctx.mark()
    what = "%s(%d) %s(%d) %dd" % (case["fam"], case["k"], case["fam2"], case["k2"], dim)
    ctx.event("%dd" % dim)

    # Cauchy elasticity
    fn = coefs(case, cen, size, ["lambda", "mu"])
    space = dual_space(case, real, mesh, False)
    iel = element_of(case, space)
    e = forms.Element(space, iel, real)
    s, u, t = e.f["s"], e.f["u"], e.f["t"]
    lam, mu = e.call(fn["lambda"]), e.call(fn["mu"])
    f = e.call(rhs.xyz)
    A = forms.dot(e.dx, s.V, compliance(s.V, dim, lam, mu))
    B = forms.dot(e.dx, s.D, u.U)
    C = forms.dot(e.dx, cross(s.V, dim), t.U)
    e.add("s", "s", A)
    e.add("s", "u", B)
    e.add("u", "s", B.T)
    e.add("s", "t", -C)
    e.add("t", "s", -C.T)
    e.load("u", -forms.moment(e.dx, u.U, f[:dim]))
    e.load("t", -forms.moment(e.dx, t.U, f[dim:]))
    form = LEDualWeakForm(space)
    form.functions = dict(fn, rhs=rhs.xyz)
    check_vectorized(form, iel, e, "mixed elasticity " + what)
    if dim == 2:
        for a in states(e.n, case["coef"]):
            check_affine(form, (iel,), e, a, "mixed elasticity " + what)
    form = LERieszMapWeakForm(space)
    form.functions = dict(fn, rhs=rhs.xyz)
    e.J[:], e.r[:] = 0.0, 0.0
    e.add("s", "s", A + forms.dot(e.dx, s.D, s.D))
    e.add("u", "u", forms.dot(e.dx, u.U, u.U))
    e.add("t", "t", forms.dot(e.dx, t.U, t.U))
    check_vectorized(form, iel, e, "elasticity Riesz map " + what)
    for a in states(e.n, case["coef"]):
        check_affine(form, (iel,), e, a, "elasticity Riesz map " + what)

    # Cosserat elasticity
    fn = coefs(case, cen, size, ["lambda_s", "mu_s", "kappa_s", "lambda_o", "mu_o", "kappa_o", "l"])
    fn["grad_l"] = fn["l"].gradient
    fn["rhs"] = rhs.xyz
    space = dual_space(case, real, mesh, True)
    e = forms.Element(space, iel, real)
    s, m, u, t = (e.f[n] for n in "smut")
    v = {n: e.call(c) for n, c in fn.items()}
    f = v["rhs"]
    A = forms.dot(e.dx, s.V, compliance(s.V, dim, v["lambda_s"], v["mu_s"], v["kappa_s"]))
    if dim == 2:
        Am = m.V / col(v["mu_o"] + v["kappa_o"])
    else:
        Am = compliance(m.V, dim, v["lambda_o"], v["mu_o"], v["kappa_o"])
    B = forms.dot(e.dx, s.D, u.U)
    C = forms.dot(e.dx, cross(s.V, dim), t.U)
    l = v["l"]
    scaled_div = l[:, None, None] * m.D + np.einsum("vp,picv->pic", v["grad_l"][:dim], m.V)
    for scaled, cls, riesz in (
        (False, LCEDualWeakForm, LCERieszMapWeakForm),
        (True, LCEScaledDualWeakForm, LCEScaledRieszMapWeakForm),
    ):
        dm = scaled_div if scaled else m.D
        M = forms.dot(e.dx if scaled else e.dx / l, m.V, Am)
        D = forms.dot(e.dx, dm, t.U)
        name = ("scaled " if scaled else "") + "mixed Cosserat " + what
        e.J[:], e.r[:] = 0.0, 0.0
        e.add("s", "s", A)
        e.add("m", "m", M)
        e.add("s", "u", B)
        e.add("u", "s", B.T)
        e.add("s", "t", -C)
        e.add("t", "s", -C.T)
        e.add("m", "t", D)
        e.add("t", "m", D.T)
        e.load("u", -forms.moment(e.dx, u.U, f[:dim]))
        e.load("t", -forms.moment(e.dx, t.U, f[dim:]))
        form = cls(space)
        form.functions = fn
        check_vectorized(form, iel, e, name)
        for a in states(e.n, case["coef"])[: 2 if dim == 2 else 1]:
            check_affine(form, (iel,), e, a, name)
        form = riesz(space)
        form.functions = fn
        e.J[:], e.r[:] = 0.0, 0.0
        e.add("s", "s", A + forms.dot(e.dx, s.D, s.D))
        e.add("m", "m", M + forms.dot(e.dx, dm, dm))
        e.add("u", "u", forms.dot(e.dx, u.U, u.U))
        e.add("t", "t", forms.dot(e.dx, t.U, t.U))
        check_vectorized(form, iel, e, name + " Riesz map")
        for a in states(e.n, case["coef"])[: 2 if dim == 2 else 1]:
            check_affine(form, (iel,), e, a, name + " Riesz map")


@subcheck(
    "C25",
    "boundary",
    cases(dims=(2, 2, 3), boundary=True),
    quick=500,
    thorough=6000,
    rule="all boundary forms of the elasticity and Cosserat modules (penalised and natural Dirichlet, traction, normal displacement, penalised normal trace) on drawn facets, compared in global numbering with integrals of the trace of the owning cell; non-trivial: a boundary tag exists",
)
def boundary(case, ctx):
    import weak_forms.lce_dual_weak_form as lce
    import weak_forms.lce_primal_weak_form as lcep
    import weak_forms.lce_scaled_dual_weak_form as lces
    import weak_forms.le_dual_weak_form as le
    import weak_forms.le_primal_weak_form as lep
    import weak_forms.le_taylor_hood_weak_form as lth

    real, mesh = meshes.make(case, ctx.tmp)
    dim, k, k2 = real.dim, case["k"], case["k2"]
    nt = 1 if dim == 2 else 3
    tags = boundary_tags(real)
    if not tags:
        return
    ctx.mark()
    cen, size, da = data(case, real, dim, deg=min(2, k + 1))
    db = poly.Poly(dim, 1, nt, case["ints"][::-1], cen, size)
    lc = forms.Coefficient(case["base"], case["seed"], cen, size, case["vary"])

    def pick(space, name):
        n = len(space.discrete_spaces[name].bc_elements)
        return case["pick"] % n

    space = fields.product_space(real, mesh, {"u": (dim, dim, "Lagrange", k)}, btags=tags)
    ib = pick(space, "u")
    fac = forms.Facet(space, "u", ib, real)
    t = fac.table("u")
    g = fac.call(da.xyz)
    mass, load = forms.dot(fac.dx, t.U, t.U), forms.moment(fac.dx, t.U, g)
    un = np.einsum("pic,c->pi", t.U, fac.n)[:, :, None]
    gn = np.einsum("cp,c->p", g, fac.n)[None]
    for cls, key, r, J in (
        (lep.LEPrimalWeakFormBCDirichlet, "u", -BETA * load, BETA * mass),
        (lth.LETaylorHoodWeakFormBCDirichlet, "u", -BETA * load, BETA * mass),
        (lep.LEPrimalWeakFormBCNeumann, "t", load, 0.0 * mass),
        (
            lep.LEPrimalWeakFormBCNormalDirichlet, "u",
            -BETA * forms.moment(fac.dx, un, gn), BETA * forms.dot(fac.dx, un, un),
        ),
    ):
        form = cls(space)
        form.functions = {key: da.xyz}
        check_boundary(
            space, form, ["u"], fac, ib, {"u": r}, {("u", "u"): J},
            "%s (k=%d, %dd)" % (cls.__name__, k, dim),
        )

    space = fields.product_space(
        real, mesh, {"u": (dim, dim, "Lagrange", k), "t": (dim, nt, "Lagrange", k2)},
        btags={"u": tags, "t": tags},
    )
    ib = pick(space, "u")
    fac = forms.Facet(space, "u", ib, real)
    u, t = fac.table("u"), fac.table("t")
    form = lcep.LCEPrimalWeakFormBCDirichlet(space)
    form.functions = {"u": da.xyz, "t": db.xyz}
    check_boundary(
        space, form, ["u", "t"], fac, ib,
        {
            "u": -BETA * forms.moment(fac.dx, u.U, fac.call(da.xyz)),
            "t": -BETA * forms.moment(fac.dx, t.U, fac.call(db.xyz)),
        },
        {
            ("u", "u"): BETA * forms.dot(fac.dx, u.U, u.U),
            ("t", "t"): BETA * forms.dot(fac.dx, t.U, t.U),
        },
        "LCEPrimalWeakFormBCDirichlet (k=%d,%d, %dd)" % (k, k2, dim),
    )

    for couple in (False, True):
        space = dual_space(case, real, mesh, couple, tags)
        ib = pick(space, "s")
        fac = forms.Facet(space, "s", ib, real)
        names = ["s", "m"] if couple else ["s"]
        nrm = {n: np.einsum("picv,v->pic", fac.table(n).V, fac.n) for n in names}
        val = {"s": fac.call(da.xyz), "m": fac.call(db.xyz)}
        weight = {"s": np.ones_like(fac.dx), "m": fac.call(lc)}
        for cls, scaled, neumann in (
            [
                (lce.LCEDualWeakFormBCDirichlet, False, False),
                (lces.LCEScaledDualWeakFormBCDirichlet, True, False),
                (lce.LCEDualWeakFormBCNeumann, False, True),
                (lces.LCEDualWeakFormBCNeumann, False, True),
            ]
            if couple
            else [
                (le.LEDualWeakFormBCDirichlet, False, False),
                (le.LCEDualWeakFormBCNeumann, False, True),
            ]
        ):
            form = cls(space)
            if neumann:
                form.functions = {"s": da.xyz, "m": db.xyz}
                r = {n: -BETA * forms.moment(fac.dx, nrm[n], val[n]) for n in names}
                J = {(n, n): BETA * forms.dot(fac.dx, nrm[n], nrm[n]) for n in names}
            else:
                form.functions = {"u": da.xyz, "t": db.xyz, "l": lc, "grad_l": lc.gradient}
                w = weight if scaled else {n: weight["s"] for n in names}
                r = {n: -forms.moment(fac.dx * w[n], nrm[n], val[n]) for n in names}
                J = {}
            check_boundary(
                space, form, names, fac, ib, r, J,
                "%s.%s %s(%d) %dd" % (cls.__module__, cls.__name__, case["fam"], k, dim),
            )
