"""C03 - points of a facet are transferred to the same physical points of the
neighbouring cell, and traces are the basis at those points."""

import numpy as np
from hypothesis import strategies as st

from harness import meshes
from harness.core import Violation, subcheck
from checks.C02 import ref_points

TITLE = "Facet points and traces map to the same physical points in the neighbour"
ASSUMPTIONS = ["the facet belongs to the neighbouring cell it is transferred to"]


@st.composite
def cases(draw):
    c = draw(meshes.mesh_cases(dims=(1, 2, 3, 3), flat=draw(st.booleans()), small=True))
    c["pts"] = draw(
        st.lists(st.lists(st.integers(0, 8), min_size=3, max_size=3), min_size=1, max_size=4)
    )
    c["k"] = draw(st.integers(1, 3))
    c["family"] = draw(st.sampled_from(["Lagrange", "RT", "BDM", "N1E"]))
    return c


@subcheck(
    "C03",
    "transfer",
    cases(),
    quick=4200,
    thorough=42000,
    rule="every (facet, neighbour) pair of a generated mesh with free node orders in both; non-trivial: some facet's node order differs from the neighbour's local order",
)
def transfer(case, ctx):
    from basis.element_family import family_by_name
    from basis.finite_element import FiniteElement
    from basis.parametric_transformation import transform_lower_to_higher

    real, mesh = meshes.make(case, ctx.tmp)
    dim = real.dim
    scale = np.abs(real.points).max() + 1.0
    lag = family_by_name("Lagrange")
    for cell in mesh.cells:
        if cell.dimension != dim:
            continue
        c0 = FiniteElement(cell.id, lag, 1, mesh)
        for li, fid in enumerate(cell.sub_cells_ids[dim - 1]):
            facet = mesh.cells[fid]
            if dim == 1:
                c1 = FiniteElement(fid, lag, 0, mesh)
                pts = np.array([1.0])
                mapped = transform_lower_to_higher(pts, c1.data, c0.data)
                want = real.points[facet.node_tags]
            else:
                c1 = FiniteElement(fid, lag, 1, mesh)
                pts = ref_points(case["pts"], dim - 1)
                mapped = transform_lower_to_higher(pts, c1.data, c0.data)
                bary = np.hstack([1 - pts.sum(1, keepdims=True), pts])
                want = bary @ real.points[np.asarray(facet.node_tags)]
                local = [v for v in cell.node_tags if v in set(facet.node_tags)]
                ctx.mark(list(local) != list(facet.node_tags))
            mapped = np.asarray(mapped)
            if mapped.shape != (len(want), dim):
                raise Violation("transferred points have shape %s" % (mapped.shape,))
            bary0 = np.hstack([1 - mapped.sum(1, keepdims=True), mapped])
            got = bary0 @ real.points[np.asarray(cell.node_tags)]
            if not np.allclose(got, want, atol=1e-11 * scale):
                raise Violation(
                    "facet %s (nodes %s) of cell %s: transferred points land elsewhere (off by %g)"
                    % (fid, list(facet.node_tags), list(cell.node_tags), np.abs(got - want).max())
                )
    if dim == 1:
        ctx.mark(len(real.cells) > 1)


@subcheck(
    "C03",
    "trace",
    cases(),
    quick=1500,
    thorough=15000,
    rule="traces of a drawn family/order on every facet, from each neighbour, all dofs and facet dofs only; oracle: the neighbour's basis tabulated at the independently computed points; non-trivial: facet with two neighbours",
)
def trace(case, ctx):
    from basis.basis_trace import trace_product_space
    from basis.element_family import family_by_name
    from basis.finite_element import FiniteElement
    from mesh.topological_queries import find_higher_dimension_neighs
    from spaces.product_space import ProductSpace

    real, mesh = meshes.make(case, ctx.tmp)
    dim = real.dim
    if dim == 1:
        family = "Lagrange"
    else:
        family = case["family"]
    space = ProductSpace({"q": (dim, 1, family, case["k"], mesh)})
    tags = sorted(set(real.tags[dim].values()))
    space.build_structures({"q": tags}, {"q": []})
    sub = space.discrete_spaces["q"]
    facets = sorted({int(f) for el in sub.elements for f in el.data.cell.sub_cells_ids[dim - 1]})
    for fid in facets:
        facet = mesh.cells[fid]
        if dim == 1:
            c1 = FiniteElement(fid, family_by_name("Lagrange"), 0, mesh)
            pts = np.array([1.0])
            phys = real.points[facet.node_tags]
        else:
            c1 = FiniteElement(fid, family_by_name("Lagrange"), 1, mesh)
            pts = ref_points(case["pts"], dim - 1)
            bary = np.hstack([1 - pts.sum(1, keepdims=True), pts])
            phys = bary @ real.points[np.asarray(facet.node_tags)]
        neighs = find_higher_dimension_neighs(facet, sub.dof_map.mesh_topology)
        ctx.mark(len(neighs) > 1)
        for ni, (nd, nid) in enumerate(neighs):
            el = sub.elements[sub.id_to_element[nid]]
            P = real.points[np.asarray(el.data.cell.node_tags)]
            J = (P[1:] - P[0]).T
            X = np.array([np.linalg.lstsq(J, p - P[0], rcond=None)[0] for p in phys])
            X = np.clip(X, 0.0, 1.0)
            _, jac, det, inv = el.evaluate_mapping(X)
            want = el.evaluate_basis(X, jac, det, inv)
            got = trace_product_space(["q"], space, pts, c1.data, True, ni)["q"]
            if np.shape(got) != np.shape(want) or not np.allclose(got, want, atol=1e-8 * (1 + np.abs(want).max())):
                raise Violation("trace on facet %d from neighbour %d is not its basis there" % (fid, nid))
            li = [int(s) for s in el.data.cell.sub_cells_ids[dim - 1]].index(fid)
            dofs = el.data.dof.entity_dofs[dim - 1][li]
            got = trace_product_space(["q"], space, pts, c1.data, False, ni)["q"]
            if np.shape(got) != np.shape(want[:, :, dofs, :]) or not np.allclose(
                got, want[:, :, dofs, :], atol=1e-8 * (1 + np.abs(want).max())
            ):
                raise Violation("facet-dof trace on facet %d from neighbour %d is wrong" % (fid, nid))
