"""C20 - assembled problems reproduce the solutions their spaces contain."""

import numpy as np
from hypothesis import strategies as st

from harness import fields, forms, meshes, poly
from harness.core import Violation, subcheck

TITLE = "Assembled problems reproduce the solutions their spaces contain"
ASSUMPTIONS = [
    "constant and linear coefficients, polynomial solutions of the order the discrete spaces contain, flat consistently oriented meshes",
    "essential conditions of the primal forms are imposed by their penalty of 1e12: agreement up to 1e-5 there",
]


class Q:
    """A polynomial in x, y, z as {exponents: coefficient}."""

    def __init__(self, t):
        self.t = {e: c for e, c in t.items() if c != 0.0}

    def __add__(self, o):
        t = dict(self.t)
        for e, c in o.t.items():
            t[e] = t.get(e, 0.0) + c
        return Q(t)

    def __mul__(self, s):
        if not isinstance(s, Q):
            return Q({e: c * s for e, c in self.t.items()})
        t = {}
        for e, c in self.t.items():
            for f, d in s.t.items():
                g = tuple(i + j for i, j in zip(e, f))
                t[g] = t.get(g, 0.0) + c * d
        return Q(t)

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1.0

    def __sub__(self, o):
        return self + (-o)

    def d(self, j):
        t = {}
        for e, c in self.t.items():
            if e[j]:
                f = list(e)
                f[j] -= 1
                t[tuple(f)] = t.get(tuple(f), 0.0) + c * e[j]
        return Q(t)

    def __call__(self, x, y, z):
        v = 0.0 * (x + y + z)
        for e, c in self.t.items():
            v = v + c * x ** e[0] * y ** e[1] * z ** e[2]
        return v


ZERO = Q({})


def drawn(case, dim, deg, row, L):
    """A polynomial whose terms are of comparable size on the mesh."""
    ints = case["ints"]
    t = {}
    for j, e in enumerate(poly.exponents(dim, max(deg, 0))):
        c = ints[(3 * row + 5 * j + (row * j) % 3) % len(ints)] + 0.25 * ((row + 2 * j) % 3)
        if sum(e) == deg and c == 0.0:
            c = 1.0
        t[e] = c / L ** sum(e)
    return Q(t)


def stack(qs):
    """Callable for a (nested) list of polynomials, as the library calls it."""
    if isinstance(qs, Q):
        return qs
    return lambda x, y, z: np.array([stack(q)(x, y, z) for q in qs])


def grad(q, dim):
    return [q.d(j) for j in range(dim)]


def div(v):
    out = ZERO
    for j, q in enumerate(v):
        out = out + q.d(j)
    return out


def tr(T):
    out = ZERO
    for i in range(len(T)):
        out = out + T[i][i]
    return out


def mat(dim, fn):
    return [[fn(i, j) for j in range(dim)] for i in range(dim)]


def theta(t, dim):
    if dim == 2:
        return [[ZERO, -t[0]], [t[0], ZERO]]
    a, b, c = t
    return [[ZERO, -c, b], [c, ZERO, -a], [-b, a, ZERO]]


def cross(T, dim):
    if dim == 2:
        return [T[1][0] - T[0][1]]
    return [T[2][1] - T[1][2], T[0][2] - T[2][0], T[1][0] - T[0][1]]


def stress(G, dim, lam, mu, kap=0.0):
    t = tr(G)
    return mat(
        dim,
        lambda i, j: mu * (G[i][j] + G[j][i]) + kap * (G[i][j] - G[j][i]) + (lam * t if i == j else ZERO),
    )


def times(row, n):
    out = ZERO
    for q, x in zip(row, n):
        out = out + float(x) * q
    return out


def rotation(G, dim):
    """t with theta(t) = -skew(G)."""
    if dim == 2:
        return [0.5 * (G[0][1] - G[1][0])]
    return [0.5 * (G[1][2] - G[2][1]), 0.5 * (G[2][0] - G[0][2]), 0.5 * (G[0][1] - G[1][0])]


class Dense:
    """Stands in for a PETSc matrix."""

    def __init__(self, n):
        self.a = np.zeros((n, n))

    def setValue(self, row, col, value, addv=None):
        self.a[row, col] += value


class Vectorized:
    """The vectorized evaluation of a form in the place of the plain one."""

    def __init__(self, form):
        self.space = form.space
        self.evaluate_form = form.evaluate_form_vectorized


SCALAR = ["laplace", "laplace", "mixed", "unscaled", "degenerate"]
ELASTIC = ["elastic", "taylor-hood", "cosserat", "elastic-mixed", "cosserat-mixed", "cosserat-scaled"]


@st.composite
def cases(draw, kinds=tuple(SCALAR), large=None):
    kind = draw(st.sampled_from(list(kinds)))
    elastic = kind in ELASTIC
    dims = (2,) if kind == "taylor-hood" else (2, 2, 3) if elastic else (1, 2, 2, 3)
    c = draw(
        meshes.large_cases(dims=dims, top=large) if large else meshes.mesh_cases(
            dims=dims, small=True, max_cells=6, flat=True, interior_tags=False,
            all_tagged_boundary=True, scales=(1.0, 1.0, 0.1, 10.0),
        )
    )
    if large:
        c.update(bmode="all", itag=[0], vtag=[0], etag=[0], scale=draw(st.sampled_from([1.0, 0.1, 10.0])))
    c["problem"] = kind
    c["k"] = draw(st.integers(1, (3 if c["dim"] < 3 else 2) if not elastic else (2 if c["dim"] == 2 else 1)))
    if elastic and kind in ELASTIC[:3]:
        c["k"] = draw(st.integers(2 if kind == "taylor-hood" else 1, 3 if c["dim"] == 2 else 2))
    c["family"] = draw(st.sampled_from(["RT", "BDM"]))
    c["family2"] = draw(st.sampled_from(["RT", "BDM"]))
    c["vary"] = draw(st.integers(0, 1))
    c["less"] = draw(st.integers(0, 1))
    c["ints"] = draw(st.lists(st.integers(-5, 5), min_size=4, max_size=7))
    c["par"] = draw(st.lists(st.sampled_from([0.5, 1.0, 2.0, 5.0]), min_size=6, max_size=6))
    c["split"] = draw(st.booleans())
    c["part"] = draw(st.sampled_from([0, 0, 0, 0, 1, 2]))
    c["vector"] = draw(st.booleans())
    c["loads"] = draw(st.sampled_from([0, 0, 0, 1, 2, 5, 31])) if elastic else 0
    c["rollers"] = draw(st.booleans()) if kind == "elastic" else False
    return c


def coefficient(case, dim, row, value, L):
    """A positive polynomial of degree case["vary"] on the mesh, around value."""
    t = {(0, 0, 0): value}
    if case["vary"]:
        for j in range(dim):
            e = [0, 0, 0]
            e[j] = 1
            t[tuple(e)] = (0.0, 0.25, -0.25, 0.125)[(case["ints"][j] + row + 2 * j) % 4] * value / L
    return Q(t)


def grad3(q):
    return stack([q.d(0), q.d(1), q.d(2)])


def problem(case, dim, L):
    """spec, disc, boundary fields, exact solution, functions of the form and of its
    boundary form, classes, and whether the pair of spaces is known to be stable.

    The degree of the solution is the largest for which every field lies in its
    space; the coefficients may be linear."""
    k, kind, vary = case["k"], case["problem"], case["vary"]
    fam, fam2 = case["family"], case["family2"]
    a, b, c, d, e, f = (coefficient(case, dim, i, v, L) for i, v in enumerate(case["par"]))
    nt = 1 if dim == 2 else 3
    if kind == "laplace":
        import weak_forms.laplace_primal_weak_form as w

        p = drawn(case, dim, k, 0, L)
        return dict(
            spec={"p": (dim, 1, "Lagrange", k)}, bc=["p"], exact={"p": [p]},
            form=w.LaplacePrimalWeakForm, bform=w.LaplacePrimalWeakFormBCDirichlet,
            fn={"rhs": stack([-div([a * g for g in grad(p, dim)])]), "kappa": a},
            bfn={"p": stack([p])}, penalty=True, solve=True,
        )
    # degree of the polynomials that the flux spaces contain
    kf = k - 1 if fam == "RT" and dim > 1 else k
    km = k - 1 if fam2 == "RT" else k
    if kind in SCALAR:
        import weak_forms.degenerate_elliptic_weak_form as wd
        import weak_forms.laplace_dual_weak_form as wl
        import weak_forms.unscaled_elliptic_weak_form as wu

        kp = k - 1
        stable = True
        if case["less"] and fam == "BDM":
            kp, stable = k, False
        un, pn = ("v", "q") if kind == "degenerate" else ("u", "p")
        deg = max(min(kp, kf + 1 - vary * (2 if kind == "unscaled" else 1)), 0)
        # divergences of fluxes see the projection of the potential only
        rough = kind == "mixed" or not vary
        if rough:
            deg = max(kf + 1 - vary, 0)
        p = drawn(case, dim, deg, 0, L)
        root = coefficient(case, dim, 7, np.sqrt(case["par"][1]), L)
        if kind == "mixed":
            u = [-a * g for g in grad(p, dim)]
            fn = {"rhs": stack([div(u)]), "kappa": a}
            forms_ = wl.LaplaceDualWeakForm, wl.LaplaceDualWeakFormBCDirichlet
        elif kind == "unscaled":
            u = [-(a * a) * g for g in grad(p, dim)]
            total = div(u) + b * p
            fn = {
                "rhs": lambda x, y, z: np.array([total(x, y, z) / np.sqrt(b(x, y, z))]),
                "porosity": b, "d_phi": a, "grad_d_phi": grad3(a),
            }
            forms_ = wu.UnscaledEllipticWeakForm, wu.UnscaledEllipticWeakFormBCDirichlet
        else:
            # porosity = root^2 and q = root p, so that the scaled pressure is p
            if vary and deg + 1 > kp:  # not rough
                root = Q({(0, 0, 0): np.sqrt(case["par"][1])})
            q = root * p
            u = [-a * g for g in grad(p, dim)]
            flow = div([a * v for v in u])
            fn = {
                "rhs": lambda x, y, z: np.array([flow(x, y, z) / root(x, y, z) + q(x, y, z)]),
                "porosity": root * root, "d_phi": a, "grad_d_phi": grad3(a),
            }
            p = q
            forms_ = wd.DegenerateEllipticWeakForm, wd.DegenerateEllipticWeakFormBCDirichlet
        return dict(
            spec={un: (dim, 1, fam, k), pn: (dim, 1, "Lagrange", kp)}, disc={pn: True}, bc=[un],
            exact={un: [u], pn: [p]}, form=forms_[0], bform=forms_[1], fn=fn, bfn=dict(fn, **{pn: stack([p])}),
            penalty=False, solve=stable, project=[pn] if rough else [],
        )
    lam, mu, kap, gam = a, b, c, d
    if kind in ("elastic", "taylor-hood"):
        import weak_forms.le_primal_weak_form as w
        import weak_forms.le_taylor_hood_weak_form as wt

        deg = k - vary if kind == "taylor-hood" else k
        u = [drawn(case, dim, deg, i, L) for i in range(dim)]
        G = [grad(q, dim) for q in u]
        S = stress(G, dim, lam, mu)
        fn = {"rhs": stack([div(r) for r in S]), "lambda": lam, "mu": mu}
        out = dict(
            spec={"u": (dim, dim, "Lagrange", k)}, bc=["u"], exact={"u": u}, fn=fn, bfn={"u": stack(u)},
            form=w.LEPrimalWeakForm, bform=w.LEPrimalWeakFormBCDirichlet, penalty=True, solve=True,
        )
        # the load is counted as the source is: with the opposite sign
        out.update(load=w.LEPrimalWeakFormBCNeumann, load_fn=lambda n: {"t": stack([-times(r, n) for r in S])})
        if kind == "taylor-hood":
            out["spec"]["p"] = (dim, 1, "Lagrange", k - 1)
            out["exact"]["p"] = [(lam + mu) * tr(G)]
            out.update(form=wt.LETaylorHoodWeakForm, bform=wt.LETaylorHoodWeakFormBCDirichlet)
        return out
    if kind == "cosserat":
        import weak_forms.lce_primal_weak_form as w

        k2 = max(k - case["less"], 1)
        u = [drawn(case, dim, k, i, L) for i in range(dim)]
        t = [drawn(case, dim, k2, dim + i, L) for i in range(nt)]
        th = theta(t, dim)
        T = mat(dim, lambda i, j: u[i].d(j) + th[i][j])
        S = stress(T, dim, lam, mu, kap)
        X = cross(S, dim)
        rhs = [div(r) for r in S] + [div([gam * g for g in grad(t[i], dim)]) - X[i] for i in range(nt)]
        return dict(
            spec={"u": (dim, dim, "Lagrange", k), "t": (dim, nt, "Lagrange", k2)}, bc=["u", "t"],
            exact={"u": u, "t": t}, form=w.LCEPrimalWeakForm, bform=w.LCEPrimalWeakFormBCDirichlet,
            fn={"rhs": stack(rhs), "lambda": lam, "mu": mu, "kappa": kap, "gamma": gam},
            bfn={"u": stack(u), "t": stack(t)}, penalty=True, solve=True,
        )
    # mixed forms with weakly imposed symmetry
    import weak_forms.lce_dual_weak_form as wc
    import weak_forms.lce_scaled_dual_weak_form as ws
    import weak_forms.le_dual_weak_form as we

    ku, kt = k - 1, k - 1 if fam == "BDM" else k - case["less"]
    # divergences of stresses see the projection of the displacement only
    u = [drawn(case, dim, max(min(kt + 1, kf + 1 - vary), 0), i, L) for i in range(dim)]
    G = [grad(q, dim) for q in u]
    if kind == "elastic-mixed":
        t = rotation(G, dim)
        S = stress(G, dim, lam, mu)
        rhs = [div(r) for r in S] + [-x for x in cross(S, dim)]
        return dict(
            spec={"s": (dim, dim, fam, k), "u": (dim, dim, "Lagrange", ku), "t": (dim, nt, "Lagrange", kt)},
            disc={"u": True, "t": True}, bc=["s"], exact={"s": S, "u": u, "t": t},
            form=we.LEDualWeakForm, bform=we.LEDualWeakFormBCDirichlet, vector=True,
            fn={"rhs": stack(rhs), "lambda": lam, "mu": mu}, bfn={"u": stack(u), "t": stack(t)},
            penalty=False, solve=fam == "BDM", project=["u"],
            load=we.LCEDualWeakFormBCNeumann, load_fn=lambda n: {"s": stack([times(r, n) for r in S])},
        )
    # the stress holds the rotation itself, the couple stress its gradient and the length
    t = [drawn(case, dim, max(min(kt, kf - vary, km + 1 - 2 * vary), 0), dim + i, L) for i in range(nt)]
    if vary and kf == 0:
        # a constant stress has no room for varying moduli
        t = [ZERO] * nt
    th = theta(t, dim)
    S = stress(mat(dim, lambda i, j: G[i][j] + th[i][j]), dim, lam, mu, kap)
    l = e
    lo, mo, ko = coefficient(case, dim, 8, 1.0, L), gam, f
    M = [[l * q for q in grad(t[i], dim)] for i in range(nt)]
    M = [[(mo + ko) * q for q in M[0]]] if dim == 2 else stress(M, 3, lo, mo, ko)
    X = cross(S, dim)
    scaled = kind == "cosserat-scaled"
    rhs = [div(r) for r in S] + [div([l * q if scaled else q for q in M[i]]) - X[i] for i in range(nt)]
    fn = {
        "rhs": stack(rhs), "lambda_s": lam, "mu_s": mu, "kappa_s": kap,
        "lambda_o": lo, "mu_o": mo, "kappa_o": ko, "l": l, "grad_l": grad3(l),
    }
    return dict(
        spec={
            "s": (dim, dim, fam, k), "m": (dim, nt, fam2, k),
            "u": (dim, dim, "Lagrange", ku), "t": (dim, nt, "Lagrange", kt),
        },
        disc={"u": True, "t": True}, bc=["s", "m"], exact={"s": S, "m": M, "u": u, "t": t},
        form=ws.LCEScaledDualWeakForm if scaled else wc.LCEDualWeakForm,
        bform=ws.LCEScaledDualWeakFormBCDirichlet if scaled else wc.LCEDualWeakFormBCDirichlet, vector=True,
        fn=fn, bfn={"u": stack(u), "t": stack(t), "l": l, "grad_l": grad3(l)},
        penalty=False, solve=fam == "BDM" and fam2 == "BDM", project=["u"],
        load=(ws if scaled else wc).LCEDualWeakFormBCNeumann,
        load_fn=lambda n: {"s": stack([times(r, n) for r in S]), "m": stack([times(r, n) for r in M])},
    )


def exact_at(rows, v, x):
    """(points, components, values) of an exact field."""
    x, y, z = x.T
    out = np.array([stack(r)(x, y, z) for r in rows])  # (c, n) or (c, v, n)
    if out.ndim == 2:
        out = out[:, None, :]
    return out.transpose(2, 0, 1)


def outer_normal(mesh, points, facet, cells):
    """Unit normal of a facet of the boundary that points out of its cell."""
    nodes = [int(v) for v in mesh.cells[facet].node_tags]
    for c in cells:
        own = [int(v) for v in mesh.cells[c].node_tags]
        if set(nodes) <= set(own):
            other = next(v for v in own if v not in nodes)
            break
    P = points[nodes]
    if len(nodes) == 2:
        t = P[1] - P[0]
        n = np.array([t[1], -t[0], 0.0])
    else:
        n = np.cross(P[1] - P[0], P[2] - P[0])
    n = n / np.linalg.norm(n)
    return -n if n @ (points[other] - P[0]) > 0 else n


def held(mesh, cells, facets):
    """Whether every part of the cells that is connected through facets has one of the facets.

    Parts that hang together at a vertex only can rotate about it."""
    own = {c: frozenset(int(v) for v in mesh.cells[c].node_tags) for c in cells}
    boundary = [frozenset(int(v) for v in mesh.cells[f].node_tags) for f in facets]
    done = set()
    for start in cells:
        if start in done:
            continue
        part, front = {start}, [start]
        while front:
            a = own[front.pop()]
            more = [c for c in cells if c not in part and len(a & own[c]) == len(a) - 1]
            part.update(more)
            front += more
        done |= part
        if not any(b <= own[c] for b in boundary for c in part):
            return False
    return True


def rollers(case, ctx, mesh, dim, points, space, P, seqs, piece_of_facet, pieces, ex, what):
    """Facets that hold the displacement along their normal only: the condition holds for the
    exact displacement, however it is moved along the facet, and for no other normal one."""
    from assembly.SequentialAssembler import SequentialAssembler
    from weak_forms.le_primal_weak_form import LEPrimalWeakFormBCNormalDirichlet

    first = space.discrete_spaces["u"]
    for j in range(len(first.bc_elements))[:: 1 + len(first.bc_elements) // 6]:
        facet = first.bc_element_ids[j]
        i = piece_of_facet(facet)
        form = LEPrimalWeakFormBCNormalDirichlet(space)
        form.functions = P[i]["bfn"]
        J, r = Dense(space.n_dof), np.zeros(space.n_dof)
        asm = SequentialAssembler(space, J, r)
        asm.form_to_input_list = {"roller": ("bc_form", [j], form, np.zeros(space.n_dof))}
        asm.scatter_forms()
        A = J.a
        n = outer_normal(mesh, points, facet, pieces[i])[:dim]
        dest = np.asarray(space.bc_destination_indexes(j))
        if np.any(np.delete(r, dest)) or np.any(np.delete(A, dest, axis=0)):
            raise Violation("%s: a normal displacement contributes to dofs of other facets" % what)
        A, r, x = A[np.ix_(dest, dest)], r[dest], ex[dest].reshape(-1, dim)
        v = fields.coefficients(x.size, case["ints"]).reshape(x.shape)
        v *= max(np.abs(x).max(), 1e-300) / max(np.abs(v).max(), 1e-300)
        along = v - np.outer(v @ n, n)
        ctx.event("rollers %dd" % dim)
        for name, y in (("exact displacement", x), ("displacement moved along the facet", x + along)):
            y = y.ravel()
            off = np.abs(A @ y + r).max()
            if off > 1e-8 * (np.abs(A) @ np.abs(y) + np.abs(r)).max() + 1e-12 * np.abs(A).max() * np.abs(x).max():
                raise Violation("%s: the normal displacement of facet %d does not hold for the %s (by %g)" % (what, facet, name, off))
        normal = np.outer(v @ n, n).ravel()
        if np.abs(normal).max() > 1e-3 * np.abs(v).max() and not normal @ A @ normal > 1e-6 * np.abs(A).max() * (normal @ normal):
            raise Violation("%s: facet %d does not hold the displacement along its normal" % (what, facet))


def run(case, ctx):
    if case.get("part"):
        case = dict(case, interfaces=15)
    real, mesh = meshes.make(case, ctx.tmp)
    dim = real.dim
    tags = fields.tags_of(real, dim)
    if case.get("part"):
        # the problem of one material, with data on its whole boundary
        tags = [tags[case["part"] % len(tags)]]
        real.cells = [c for c in real.cells if real.tags[dim][tuple(sorted(c))] in tags]
        ctx.event("one material")
    fm = fields.facet_map(real)
    ctx.mark(any(len(v) > 1 for v in fm.values()))
    cells = [c.id for c in mesh.cells if c.dimension == dim and c.material_id in tags]
    check(
        case, ctx, mesh, dim, real.points, tags, fields.tags_of(real, dim - 1),
        [cells], lambda i: 0, sum(len(v) == 1 for v in fm.values()),
    )


def check(case, ctx, mesh, dim, points, tags, btags, pieces, piece_of_facet, n_boundary):
    """pieces: ids of the cells of the parts of the mesh, each with a solution of its own."""
    from assembly.SequentialAssembler import SequentialAssembler

    L = max(np.abs(points).max(), 1e-300)
    ints = case["ints"]
    P = [problem(dict(case, ints=ints[i % len(ints) :] + ints[: i % len(ints)] + [i % 5]), dim, L) for i in range(len(pieces))]
    p = P[0]
    space = fields.product_space(
        None, mesh, p["spec"], disc=p.get("disc"), btags={n: btags for n in p["bc"]}, tags=tags
    )
    what = "%s %s k=%d %dd" % (case["problem"], case["family"] if not p["penalty"] else "", case["k"], dim)
    ctx.event("%s %dd" % (case["problem"], dim))
    names = list(p["spec"])
    look = {n: space.discrete_spaces[n] for n in names}
    first, bfirst = look[names[0]], look[p["bc"][0]]
    n_el, n_bc = len(first.elements), len(bfirst.bc_elements)
    if n_el != sum(map(len, pieces)):
        raise Violation("%d elements on %d cells" % (n_el, sum(map(len, pieces))))
    if n_bc != n_boundary:
        raise Violation("%d boundary elements on %d facets of the boundary" % (n_bc, n_boundary))
    N = space.n_dof
    J, r = Dense(N), np.zeros(N)
    alpha = np.zeros(N)
    asm = SequentialAssembler(space, J, r)
    seqs, piece = {}, {}
    # dofs on the facets with a load and on the others of the boundary
    loaded, fixed, free = set(), set(), False
    for i, (cells, q) in enumerate(zip(pieces, P)):
        form, bform = q["form"](space), q["bform"](space)
        form.functions, bform.functions = q["fn"], q["bfn"]
        # the plain form of mixed elasticity is not implemented in three dimensions
        if q.get("vector") and (case["vector"] or (case["problem"] == "elastic-mixed" and dim == 3)):
            form = Vectorized(form)
        own = [first.id_to_element[c] for c in cells]
        piece.update({e: i for e in own})
        for j, part in enumerate((own[::2], own[1::2]) if case["split"] else (own,)):
            seqs["form %d %d" % (i, j)] = ("form", part, form, alpha)
        facets = [j for j, f in enumerate(bfirst.bc_element_ids) if piece_of_facet(f) == i]
        loads = []
        if case.get("loads") and q.get("load"):
            # all but one of the facets may carry a load
            loads = [j for k, j in enumerate(facets[1:]) if case["loads"] >> (k % 5) & 1]
            facets = [j for j in facets if j not in loads]
        seqs["bc %d" % i] = ("bc_form", facets, bform, alpha)
        free |= bool(loads) and not held(mesh, cells, [bfirst.bc_element_ids[j] for j in facets])
        for j in loads:
            n = outer_normal(mesh, points, bfirst.bc_element_ids[j], cells)
            lform = q["load"](space)
            lform.functions = q["load_fn"](n)
            seqs["load %d %d" % (i, j)] = ("bc_form", [j], lform, alpha)
            ctx.event("%s with loads" % case["problem"])
            loaded.update(int(d) for d in space.bc_destination_indexes(j))
        fixed.update(int(d) for j in facets for d in space.bc_destination_indexes(j))
    asm.form_to_input_list = {n: q for n, q in seqs.items() if not n.startswith("load")}
    asm.scatter_forms()
    plain = J.a.copy()
    if loaded:
        asm.form_to_input_list = {n: q for n, q in seqs.items() if n.startswith("load")}
        asm.scatter_forms()
    A = J.a
    # coefficients of the exact solution, cell by cell
    ex = np.full(N, np.nan)
    pts, weights = space.quadrature[dim]
    size = {n: 0.0 for n in names}
    for n in names:
        for i in range(n_el):
            nodes = np.asarray(look[n].elements[i].data.cell.node_tags)
            x = np.hstack([1 - pts.sum(1, keepdims=True), pts]) @ points[nodes]
            _, phi, _, _ = fields.evaluate(space, n, i, np.zeros(N), pts, True)
            v = exact_at(P[piece[i]]["exact"][n], None, x)
            size[n] = max(size[n], np.abs(v).max())
            B = phi[:, :, :, : v.shape[2]][0].transpose(0, 2, 1).reshape(-1, phi.shape[2])
            rhs = v.transpose(0, 2, 1).reshape(-1, v.shape[1])
            if n in p.get("project", []):
                root = np.sqrt(weights)[:, None]
                c, *_ = np.linalg.lstsq(root * B, root * rhs, rcond=None)
                ex[space.destination_indexes(i, n)] = c.ravel()
                continue
            c, *_ = np.linalg.lstsq(B, rhs, rcond=None)
            if np.abs(B @ c - rhs).max() > 1e-8 * (np.abs(rhs).max() + 1e-300):
                raise RuntimeError("the exact field %s is not in the space: %s" % (n, what))
            c = c.ravel()
            dest = space.destination_indexes(i, n)
            old = ex[dest]
            if np.nanmax(np.abs(old - c), initial=0.0) > 1e-6 * (np.abs(c).max() + 1e-9 * size[n]):
                raise Violation("%s: cells that share dofs of %s disagree on the solution" % (what, n))
            ex[dest] = c
    if np.isnan(ex).any():
        raise Violation("%s: dofs that belong to no cell" % what)
    res = A @ ex + r
    mag = np.abs(A) @ np.abs(ex) + np.abs(r)
    if not p["penalty"]:
        off = 0
        rest = np.array([d for d in range(N) if d not in loaded], dtype=int)
        for n in names:
            s = slice(off, off + look[n].dof_map.dof_number())
            off = s.stop
            # normal traces are imposed by a penalty as well: their rows are of another size
            pen = np.array(sorted(d for d in loaded if s.start <= d < s.stop), dtype=int)
            top = mag[pen].max(initial=0.0) + 1e-2 * np.abs(A[pen]).max(initial=0.0) * max(size.values())
            # the equations that the penalty outweighs lack the term of the boundary there
            top += 4e8 * (np.abs(plain[pen]) @ np.abs(ex)).max(initial=0.0)
            if np.any(np.abs(res[pen]) > 1e-8 * top):
                raise Violation(
                    "%s: the exact %s leaves a residual of %g in the rows of its normal trace (terms up to %g)"
                    % (what, n, np.abs(res[pen]).max(), top)
                )
            s = np.array([d for d in range(s.start, s.stop) if d not in loaded], dtype=int)
            if np.abs(res[s]).max(initial=0.0) > 1e-8 * mag[s].max(initial=0.0) + 1e-13 * mag[rest].max(initial=0.0):
                raise Violation(
                    "%s: the exact solution leaves a residual of %g in the equations of %s (terms up to %g)"
                    % (what, np.abs(res[s]).max(), n, mag[s].max())
                )
    elif loaded:
        # the rows without a penalty are those of the equilibrium with the load
        s = np.array([d for d in range(N) if d not in fixed], dtype=int)
        if np.abs(res[s]).max(initial=0.0) > 1e-8 * mag[s].max(initial=0.0):
            raise Violation(
                "%s: the exact solution leaves a residual of %g next to the load (terms up to %g)"
                % (what, np.abs(res[s]).max(), mag[s].max())
            )
    if case.get("rollers"):
        rollers(case, ctx, mesh, dim, points, space, P, seqs, piece_of_facet, pieces, ex, what)
    if p["solve"] and N <= 1500 and (p["penalty"] or not loaded) and not free:
        # rows of one size, so that no pivot is taken from a penalised row
        rows = np.abs(A).max(axis=1, keepdims=True)
        if not (rows > 0).all():
            raise Violation("%s: a row of the assembled system is empty" % what)
        x = np.linalg.solve(A / rows, -r / rows[:, 0])
        tol = 1e-6 if p["penalty"] else 1e-7
        for n in names:
            worst = 0.0
            for i in range(n_el):
                worst = max(worst, np.abs(fields.evaluate(space, n, i, x - ex, pts)).max())
            if not worst < tol * (size[n] + 1e-2 * max(size.values())):
                raise Violation(
                    "%s: the solution of the assembled system differs from the exact one by %g in %s (of size %g)"
                    % (what, worst, n, size[n])
                )


@subcheck(
    "C20",
    "scalar",
    cases(),
    quick=700,
    thorough=8000,
    rule="primal, mixed, unscaled and degenerate elliptic problems assembled on drawn meshes with polynomial solutions and matching data on the whole boundary: the residual vanishes at the solution and solving the system returns it; non-trivial: at least one interior facet",
)
def scalar(case, ctx):
    run(case, ctx)


@subcheck(
    "C20",
    "elastic",
    cases(kinds=tuple(ELASTIC)),
    quick=500,
    thorough=5000,
    rule="the same for primal, Taylor-Hood and mixed elasticity and primal, mixed and scaled mixed Cosserat problems, with tractions on a drawn part of the boundary; non-trivial: at least one interior facet",
)
def elastic(case, ctx):
    run(case, ctx)


@subcheck(
    "C20",
    "large",
    cases(kinds=tuple(SCALAR) + tuple(ELASTIC), large=(60, 7, 2)),
    quick=48,
    thorough=400,
    weight=2.0,
    rule="both kinds of problems on meshes of up to a hundred cells in random numbering",
)
def large(case, ctx):
    run(case, ctx)
