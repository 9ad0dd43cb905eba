"""C23 - fields on meshes that are cut along fractures."""

from collections import Counter

import numpy as np
from hypothesis import strategies as st

from checks import C17, C20
from checks.C04 import reference
from checks.C16 import AREA, LINE, SIDES
from harness import fields
from harness.core import Violation, subcheck

TITLE = "Fields on cut meshes are independent across fractures, conforming elsewhere"
ASSUMPTIONS = C17.ASSUMPTIONS
CLONES = C17.LINE_CLONES


class Cut:
    """A cut mesh and what its entities are, from the mesh before the cut."""

    def __init__(self, case, ctx):
        from mesh.mesh_operations import cut_conformity_along_c1_lines

        self.ok = False
        ready = C17.prepare(case, ctx)
        if ready is None:
            return
        self.ok = True
        self.mesh, b, fracture, inner, ends, size = ready
        self.before = b
        self.interfaces = cut_conformity_along_c1_lines(ends, C17.cut_tags(case), self.mesh)
        self.points = np.asarray(self.mesh.points)
        # sets of triangles around the vertices and edges of the cut complex
        self.stars = {0: Counter(), 1: Counter(), 2: Counter()}
        parts = {}
        for (v, t), root in b.part.items():
            parts.setdefault((v, root), set()).add(t)
        for s in parts.values():
            self.stars[0][frozenset(s)] += 1
        for e, ts in b.of_edge.items():
            for s in [{t} for t in ts] if e in b.fracture else [ts]:
                self.stars[1][frozenset(s)] += 1
        for t in b.triangles:
            self.stars[2][frozenset([t])] += 1
        # triangles connected through edges off the fractures
        self.piece = {}
        for t in b.triangles:
            if t in self.piece:
                continue
            n = len(set(self.piece.values()))
            stack = [t]
            while stack:
                x = stack.pop()
                if x in self.piece:
                    continue
                self.piece[x] = n
                for e in b.triangles[x][2]:
                    if e not in b.fracture:
                        stack.extend(y for y in b.of_edge[e] if y not in self.piece)
        self.owner = {}
        for c in self.mesh.cells:
            if c.dimension == 2:
                for e in c.sub_cells_ids[1]:
                    self.owner.setdefault(int(e), []).append(c.id)


FAMILIES = ["Lagrange", "Lagrange", "RT", "BDM", "N1E", "N2E"]


@st.composite
def cases(draw):
    c = draw(C17.cuts())
    c["same"] = c["same"] if c["same"] in ("ends", "point") else None
    c["fields"] = draw(
        st.lists(
            st.tuples(st.sampled_from(FAMILIES), st.integers(1, 3), st.integers(1, 2), st.sampled_from([False, False, False, True])).map(list),
            min_size=1, max_size=2,
        )
    )
    c["line"] = draw(st.tuples(st.sampled_from(["Lagrange", "RT"]), st.integers(1, 3), st.integers(1, 2)).map(list))
    c["coef"] = draw(st.lists(st.integers(-9, 9), min_size=1, max_size=3))
    c["gap"] = draw(st.sampled_from([0, 0, 11]))
    return c


def stars_of(space, name):
    """How many dofs of a field each set of elements shares, and all dofs."""
    sub = space.discrete_spaces[name]
    seen = {}
    for i, el in enumerate(sub.elements):
        dest = space.destination_indexes(i, name)
        if len(set(dest.tolist())) != len(dest):
            raise Violation("a dof of %s appears twice in a cell" % name)
        for d in dest.tolist():
            seen.setdefault(d, set()).add(int(el.data.cell.id))
    return Counter(frozenset(s) for s in seen.values()), seen


def trace(family, values, tangent):
    if family in ("RT", "BDM"):
        return values[:, :, 0] * tangent[1] - values[:, :, 1] * tangent[0]
    if family in ("N1E", "N2E"):
        return values[:, :, 0] * tangent[0] + values[:, :, 1] * tangent[1]
    return values


@subcheck(
    "C23",
    "fields",
    cases(),
    quick=240,
    thorough=5000,
    rule="one or two fields on the triangles and one on the edges of gmsh meshes cut along their fractures: which cells share how many dofs, traces over uncut edges, boundary elements of both sides of every fracture edge; non-trivial: at least two fracture edges",
)
def on_cut(case, ctx):
    cut = Cut(case, ctx)
    if not cut.ok:
        return
    m, b = cut.mesh, cut.before
    spec = {"f%d" % i: (2, f[2], f[0], f[1]) for i, f in enumerate(case["fields"])}
    disc = {"f%d" % i: f[3] for i, f in enumerate(case["fields"])}
    # continuous fields have boundary elements
    btags = {n: (SIDES + [CLONES] if not disc[n] else []) for n in spec}
    space = fields.product_space(None, m, spec, disc=disc, btags=btags, tags=[AREA])
    alpha = fields.coefficients(space.n_dof, case["coef"])
    scale = 4.0 * np.abs(alpha).max()
    s = np.array([0.13, 0.5, 0.81])
    used = {}
    for name, (_, nc, fam, k) in spec.items():
        sub = space.discrete_spaces[name]
        what = "%s(%d)%s x%d" % (fam, k, " discontinuous" if disc[name] else "", nc)
        per = [int(r[0]) for r in reference(fam, 2, k, disc[name]).num_entity_dofs]
        want = Counter()
        for d in (0, 1, 2):
            for star, n in cut.stars[d].items():
                if per[d]:
                    want[star] += n * per[d] * nc
        got, seen = stars_of(space, name)
        used[name] = seen
        if got != want:
            for x in set(got) | set(want):
                if got[x] != want[x]:
                    raise Violation("%s: triangles %s share %d dofs, expected %d" % (what, sorted(x), got[x], want[x]))
        index = {int(c): i for i, c in enumerate(sub.element_ids)}

        def at(t, phys):
            nodes = m.cells[t].node_tags
            return fields.evaluate(space, name, index[t], alpha, fields.local_points(cut.points, nodes, phys))

        def points(e):
            x, y = cut.points[m.cells[e].node_tags]
            return x + s[:, None] * (y - x), (y - x) / np.linalg.norm(y - x)

        if disc[name]:
            continue
        for e, ts in b.of_edge.items():
            if e in b.fracture or len(ts) < 2:
                continue
            phys, tan = points(e)
            v = [trace(fam, at(t, phys), tan) for t in ts]
            if not np.allclose(v[0], v[1], atol=1e-8 * scale * (1.0 if fam == "Lagrange" else np.abs(v[0]).max() + 1.0)):
                raise Violation("%s jumps by %g over an edge that is not cut" % (what, np.abs(v[0] - v[1]).max()))
        # boundary elements: the sides of the box and both sides of every fracture
        outer = [e for e, ts in b.of_edge.items() if len(ts) == 1 and b.edges[e][1] in SIDES]
        clones = [int(c.id) for c in m.cells if c.dimension == 1 and c.material_id == CLONES]
        if len(clones) != 2 * len(b.fracture):
            raise Violation("%d clones of %d fracture edges" % (len(clones), len(b.fracture)))
        if sorted(map(int, sub.bc_element_ids)) != sorted(outer + clones):
            raise Violation("%s has %d boundary elements, expected %d" % (what, len(sub.bc_element_ids), len(outer + clones)))
        lone = per[1] * nc + 2 * per[0] * nc
        for i, e in enumerate(sub.bc_element_ids):
            dest = space.bc_destination_indexes(i, name)
            owner = cut.owner.get(int(e), [])
            if len(owner) != 1:
                raise Violation("boundary edge %d bounds triangles %s" % (e, owner))
            t = owner[0]
            if len(dest) != lone or len(set(dest.tolist())) != lone or not set(dest.tolist()) <= set(space.destination_indexes(index[t], name).tolist()):
                raise Violation("%s: dofs %s of boundary edge %d of a triangle with dofs %s" % (what, dest, e, space.destination_indexes(index[t], name)))
            phys, tan = points(e)
            full = trace(fam, at(t, phys), tan)
            keep, alpha = alpha, np.zeros_like(alpha)
            alpha[dest] = keep[dest]
            only = trace(fam, at(t, phys), tan)
            alpha = keep
            if not np.allclose(full, only, atol=1e-8 * (np.abs(full).max() + scale)):
                raise Violation("%s: the dofs of boundary edge %d do not give its trace" % (what, e))
            if fam == "Lagrange":
                el = sub.bc_elements[i]
                X = fields.local_points(cut.points, el.data.cell.node_tags, phys)
                _, jac, det, inv = el.evaluate_mapping(X)
                phi = el.evaluate_basis(X, jac, det, inv)
                v = np.einsum("pdv,dc->pcv", phi[0], alpha[dest].reshape(phi.shape[2], nc))
                if not np.allclose(v, full, atol=1e-8 * scale):
                    raise Violation("%s: boundary element %d differs from the trace by %g" % (what, e, np.abs(v - full).max()))
        ctx.event(fam)
    # the fractures carry a field of their own
    fam, k, nc = case["line"]
    line = fields.product_space(None, m, {"g": (1, nc, fam, k)}, tags=[LINE])
    line.dof_shift = space.n_dof + case["gap"]
    got, seen = stars_of(line, "g")
    edges = sorted(b.fracture)
    if sorted(int(c) for c in line.discrete_spaces["g"].element_ids) != edges:
        raise Violation("the field of the fractures has elements %s on edges %s" % (sorted(line.discrete_spaces["g"].element_ids), edges))
    want = Counter()
    around = {}
    for e in edges:
        want[frozenset([e])] += (k - 1) * nc
        for v in m.cells[e].node_tags:
            around.setdefault(int(v), set()).add(e)
    for star in around.values():
        want[frozenset(star)] += nc
    if +want != got:
        raise Violation("fracture field %s(%d): dofs %s, expected %s" % (fam, k, dict(got), dict(want)))
    if sorted(seen) != list(range(line.dof_shift, line.dof_shift + line.n_dof)):
        raise Violation("the dofs of the fractures do not follow those of the triangles")
    g = line.discrete_spaces["g"]
    X = s[:, None]
    for inter in cut.interfaces:
        for orig, *sides in zip(*inter["c1"]):
            x, *_ = g.elements[g.id_to_element[orig.id]].evaluate_mapping(X)
            for name in spec:
                sub = space.discrete_spaces[name]
                if disc[name]:
                    continue
                dofs = []
                for c in sides:
                    i = sub.id_to_bc_element[c.id]
                    y, *_ = sub.bc_elements[i].evaluate_mapping(X)
                    if not np.array_equal(x, y):
                        raise Violation("the sides of fracture edge %d map reference points to %s, the fracture to %s" % (orig.id, y, x))
                    dofs.append({d for d in space.bc_destination_indexes(i, name).tolist() if len(used[name][d] - {cut.owner[c.id][0]}) == 0})
                if dofs[0] & dofs[1]:
                    raise Violation("both sides of fracture edge %d share dofs of their own" % orig.id)


@st.composite
def solved(draw):
    c = draw(C17.cuts())
    c["same"] = c["same"] if c["same"] in ("ends", "point") else None
    c["h"] = max(c["h"], 0.3)
    c["problem"] = draw(st.sampled_from(["laplace", "mixed", "mixed", "unscaled", "degenerate", "elastic", "elastic-mixed", "cosserat", "cosserat-mixed", "cosserat-scaled"]))
    c["k"] = draw(st.integers(1, 2))
    for f in ("family", "family2"):
        c[f] = draw(st.sampled_from(["RT", "BDM"]))
    c["vary"] = draw(st.integers(0, 1))
    c["less"] = draw(st.integers(0, 1))
    c["ints"] = draw(st.lists(st.integers(-5, 5), min_size=4, max_size=7))
    c["par"] = draw(st.lists(st.sampled_from([0.5, 1.0, 2.0, 5.0]), min_size=6, max_size=6))
    c["split"] = draw(st.booleans())
    c["vector"] = draw(st.booleans())
    return c


@subcheck(
    "C23",
    "problems",
    solved(),
    quick=80,
    thorough=1600,
    rule="the problems of C20 on cut meshes, with conditions on both sides of the fractures and solutions that differ from one part of the mesh to the next; non-trivial: at least two fracture edges",
)
def problems(case, ctx):
    cut = Cut(case, ctx)
    if not cut.ok:
        return
    m, b = cut.mesh, cut.before
    n = len(set(cut.piece.values()))
    ctx.event("%d parts" % n)
    pieces = [[t for t in b.triangles if cut.piece[t] == i] for i in range(n)]
    outer = sum(len(ts) == 1 for ts in b.of_edge.values())
    C20.check(
        case, ctx, m, 2, cut.points, [AREA], SIDES + [CLONES], pieces,
        lambda e: cut.piece[cut.owner[int(e)][0]], outer + 2 * len(b.fracture),
    )
