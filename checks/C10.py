"""C10 - facet normals."""

import numpy as np
from hypothesis import strategies as st

from harness import meshes
from harness.core import Violation, subcheck

TITLE = "Facet normals are unit, orthogonal to the facet and point out of the cell"
ASSUMPTIONS = ["non-degenerate simplices (aspect ratio up to about 1e3)"]


@st.composite
def cases(draw):
    c = draw(
        meshes.mesh_cases(
            dims=(1, 2, 2, 3, 3), flat=draw(st.booleans()), small=True,
            scales=(1.0, 1e-6, 1e-3, 1e4),
        )
    )
    c["stretch"] = draw(st.lists(st.sampled_from([1.0, 1.0, 10.0, 0.02]), min_size=3, max_size=3))
    c["far"] = draw(st.sampled_from([0.0, 0.0, 100.0]))
    return c


@subcheck(
    "C10",
    "outward",
    cases(),
    quick=4000,
    thorough=60000,
    rule="every (cell, facet) pair of a generated mesh in R^1..R^3 or embedded in R^3, any node order, scale, stretching: length 1, orthogonal to the facet, in the plane of the cell, away from the opposite vertex; non-trivial: the mesh is embedded, stretched or not of unit scale",
)
def outward(case, ctx):
    from geometry.compute_normal import normal

    real = meshes.realize(case)
    S = np.array(case["stretch"])
    if case["flat"]:
        S[real.dim :] = 1.0
    real.points = real.points * S + (0.0 if case["flat"] else case["far"] * case["scale"])
    mesh = meshes.build(real, ctx.tmp)
    dim = real.dim
    ctx.mark(not case["flat"] or case["scale"] != 1.0 or np.any(S != 1.0))
    ctx.event("%dd" % dim)
    for cell in [c for c in mesh.cells if c.dimension == dim]:
        nodes = [int(v) for v in cell.node_tags]
        for fid in cell.sub_cells_ids[dim - 1]:
            face = mesh.cells[fid]
            fn = [int(v) for v in face.node_tags]
            n = np.asarray(normal(mesh, cell, face), dtype=float)
            P = real.points
            opp = [v for v in nodes if v not in fn]
            if n.shape != (3,) or not np.all(np.isfinite(n)) or abs(np.linalg.norm(n) - 1.0) > 1e-9:
                raise Violation("the normal of a facet of a %dd cell is %s: not a unit vector" % (dim, n))
            for a in fn[1:]:
                e = P[a] - P[fn[0]]
                if abs(n @ e) > 1e-6 * np.linalg.norm(e):
                    raise Violation("the normal is not orthogonal to the facet (%dd)" % dim)
            Q = np.linalg.qr((P[nodes[1:]] - P[nodes[0]]).T)[0]
            if np.linalg.norm(n - Q @ (Q.T @ n)) > 1e-6:
                raise Violation("the normal leaves the space of the cell (%dd)" % dim)
            if n @ (P[fn[0]] - P[opp[0]]) <= 0.0:
                raise Violation("the normal points into the cell (%dd)" % dim)
