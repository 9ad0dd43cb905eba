"""C02 - geometric mapping of every simplex, and quadrature exactness."""

import math

import numpy as np
from hypothesis import strategies as st

from harness import meshes
from harness.core import Violation, subcheck

TITLE = "Cell mapping, measure, inverse Jacobian and quadrature are exact"
ASSUMPTIONS = ["non-degenerate simplices with straight edges"]


@st.composite
def mapping_cases(draw):
    c = draw(meshes.mesh_cases(dims=(1, 2, 2, 3), flat=draw(st.booleans()), scales=(1.0, 1e-3, 1e3), small=True))
    c["k"] = draw(st.integers(1, 5))
    c["thin"] = draw(st.lists(st.sampled_from([0, 0, 0, 3, 8, 15, 18]), min_size=3, max_size=3))
    c["pts"] = draw(
        st.lists(st.lists(st.integers(0, 8), min_size=3, max_size=3), min_size=1, max_size=4)
    )
    return c


def ref_points(raw, dim):
    out = []
    for p in raw:
        v = np.array(p[:dim], dtype=float) / 8.0
        s = v.sum()
        if s > 1.0:
            v = v / s
        out.append(v)
    return np.array(out).reshape(-1, dim)


def simplex_measure(p):
    """Without squares of small lengths, so that thin cells keep their measure."""
    e = p[1:] - p[0]
    if len(e) == 1:
        return np.linalg.norm(e)
    n = np.cross(e[0], e[1])
    return (np.linalg.norm(n) if len(e) == 2 else abs(np.dot(n, e[2]))) / math.factorial(len(e))


def close(a, b, scale=1.0, rtol=1e-10):
    return np.all(np.abs(np.asarray(a) - np.asarray(b)) <= rtol * scale)


@subcheck(
    "C02",
    "mapping",
    mapping_cases(),
    quick=3600,
    thorough=36000,
    rule="generated mesh, flat or affinely tilted in 3D, at three length scales; every cell and every facet is mapped at drawn reference points; non-trivial: tilted or skewed geometry",
)
def mapping(case, ctx):
    from basis.element_family import family_by_name
    from basis.finite_element import FiniteElement
    from mesh import mesh_metrics

    real, mesh = meshes.make(case, ctx.tmp)
    # squeezed by powers of two along the axes
    real.points = real.points * 0.5 ** np.array(case["thin"])
    mesh.points = mesh.points * 0.5 ** np.array(case["thin"])
    ctx.event("thin" if max(case["thin"]) > 8 else "fat")
    ctx.mark(any(case["aff"]) or any(case["jitter"]))
    ctx.event("flat" if case["flat"] else "tilted")
    for c in mesh.cells:
        d = c.dimension
        if d == 0:
            fe = None
            continue
        fe = FiniteElement(c.id, family_by_name("Lagrange"), 1, mesh)
        X = ref_points(case["pts"], d)
        x, jac, det, inv = fe.evaluate_mapping(X)
        P = real.points[np.asarray(c.node_tags)]
        h = max(np.linalg.norm(P[i] - P[j]) for i in range(d + 1) for j in range(i))
        org = np.abs(P).max()
        bary = np.hstack([1 - X.sum(1, keepdims=True), X])
        xe = bary @ P
        if np.shape(x) != xe.shape or not close(x, xe, h + org, 1e-12):
            raise Violation("mapped points of a %d-cell are wrong" % d)
        J = (P[1:] - P[0]).T
        meas = simplex_measure(P)
        det_e = meas * math.factorial(d)
        for i in range(len(X)):
            if np.shape(jac[i]) != J.shape or not close(jac[i], J, h + 1e-3 * org, 1e-11):
                raise Violation("Jacobian of a %d-cell is not the edge matrix" % d)
            if not abs(det[i] - det_e) <= 1e-9 * det_e + 1e-13 * org * h ** (d - 1):
                raise Violation("determinant %r, %d! * measure is %r" % (float(det[i]), d, det_e))
            cond = np.linalg.cond(J)
            if np.shape(inv[i]) != (d, 3) or not np.allclose(inv[i] @ jac[i], np.eye(d), atol=1e-9 * cond):
                raise Violation("inverse Jacobian times Jacobian is not the identity")
            pj = jac[i] @ inv[i]
            if not np.allclose(pj, pj.T, atol=1e-9 * cond):
                raise Violation("inverse Jacobian is not the Moore-Penrose inverse")
        # metrics
        if not close(mesh_metrics.cell_diam(c, mesh), h, h + 1e-3 * org, 1e-11):
            raise Violation("cell diameter is wrong")
        if not close(mesh_metrics.cell_centroid(c, mesh), P.mean(0), h + org, 1e-12):
            raise Violation("cell centroid is wrong")
    for d in range(1, real.dim + 1):
        ent = meshes.entities(real, d)
        hs = [max(np.linalg.norm(real.points[a] - real.points[b]) for a in e for b in e) for e in ent]
        got = mesh_metrics.mesh_size(mesh, d)
        if not np.allclose(got, [min(hs), np.mean(hs), max(hs)], rtol=1e-10):
            raise Violation("mesh size (min, mean, max) is wrong in dimension %d" % d)
    tags = sorted(set(real.tags[real.dim].values()))
    for t in tags:
        hs = [
            max(np.linalg.norm(real.points[a] - real.points[b]) for a in e for b in e)
            for e, tt in real.tags[real.dim].items() if tt == t
        ]
        got = mesh_metrics.mesh_size(mesh, physical_tag=t)
        if not np.allclose(got, [min(hs), np.mean(hs), max(hs)], rtol=1e-10):
            raise Violation("mesh size restricted to a physical tag is wrong")


@st.composite
def quad_cases(draw):
    c = draw(meshes.mesh_cases(dims=(1, 2, 2, 3), small=True, flat=draw(st.booleans())))
    fields = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    c["ks"] = fields
    c["expo"] = draw(st.lists(st.integers(0, 9), min_size=4, max_size=4))
    return c


def exact_bary(expo, d):
    """Integral of prod lambda_i^a_i over the reference simplex."""
    num = 1
    for a in expo:
        num *= math.factorial(a)
    return num / math.factorial(sum(expo) + d)


@subcheck(
    "C02",
    "quadrature",
    quad_cases(),
    quick=2400,
    thorough=24000,
    rule="product space of 1-3 fields of drawn orders; a drawn barycentric monomial of degree <= 2*max(k)+1 is integrated over every cell and every boundary facet and compared with the closed form; non-trivial: degree >= 2",
)
def quadrature(case, ctx):
    from spaces.product_space import ProductSpace

    real, mesh = meshes.make(case, ctx.tmp)
    dim = real.dim
    data = {"f%d" % i: (dim, 1, "Lagrange", k, mesh) for i, k in enumerate(case["ks"])}
    space = ProductSpace(data)
    tags = sorted(set(real.tags[dim].values()))
    btags = sorted(set(real.tags[dim - 1].values()))
    space.build_structures({n: tags for n in data}, {n: btags for n in data})
    deg = 2 * max(case["ks"]) + 1
    f0 = space.discrete_spaces["f0"]
    if dim - 1 == 0:
        todo = [(dim, f0.elements, space.quadrature[dim])]
    else:
        todo = [
            (dim, f0.elements, space.quadrature[dim]),
            (dim - 1, f0.bc_elements, space.bc_quadrature[dim - 1]),
            (dim - 1, f0.bc_elements, space.quadrature[dim - 1]),
        ]
    for d, elements, (pts, w) in todo:
        expo = list(case["expo"][: d + 1])
        while sum(expo) > deg:
            expo[int(np.argmax(expo))] -= 1
        ctx.mark(sum(expo) >= 2)
        bary = np.hstack([1 - pts.sum(1, keepdims=True), pts])
        vals = np.prod(bary ** np.array(expo), axis=1)
        for el in elements:
            x, jac, det, inv = el.evaluate_mapping(pts)
            P = real.points[np.asarray(el.data.cell.node_tags)]
            meas = simplex_measure(P)
            got = float(np.sum(w * det * vals))
            want = exact_bary(expo, d) * meas * math.factorial(d)
            if abs(got - want) > 1e-10 * max(abs(want), meas * 1e-6):
                raise Violation(
                    "degree %d integrand on a %d-cell: quadrature %r, exact %r (order announced %d)"
                    % (sum(expo), d, got, want, deg)
                )
    total = sum(
        simplex_measure(real.points[list(c)]) for c in real.cells
    )
    got = sum(
        float(np.sum(space.quadrature[dim][1] * el.evaluate_mapping(space.quadrature[dim][0])[2]))
        for el in f0.elements
    )
    if abs(got - total) > 1e-10 * total:
        raise Violation("quadrature weights do not add up to the measure of the mesh")
