"""C04 - numbering of degrees of freedom."""

import numpy as np
from hypothesis import strategies as st

from harness import fields, meshes
from harness.core import Violation, subcheck

TITLE = "Global dof numbering: bijective, shared exactly on shared entities"
ASSUMPTIONS = ["simplicial meshes; dof layout per entity taken from the basix reference element"]

FAM = {1: ["Lagrange", "Lagrange", "RT", "BDM"], 2: ["Lagrange", "RT", "BDM", "N1E", "N2E"], 3: ["Lagrange", "RT", "BDM", "N1E", "N2E"]}


@st.composite
def cases(draw, dims=(1, 2, 2, 3), large=None):
    if large:
        c = draw(meshes.large_cases(dims=dims, top=large))
    else:
        c = draw(meshes.mesh_cases(dims=dims, small=True, lower=4))
    d = meshes.fdim(c)
    nf = draw(st.integers(1, 3))
    fl = []
    for _ in range(nf):
        fam = draw(st.sampled_from(FAM[d]))
        k = draw(st.integers(1, 4 if d < 3 else 3))
        fl.append([fam, k, draw(st.integers(1, 3)), draw(st.booleans())])
    c["fields"] = fl
    c["shift"] = c["shift"]
    c["dofshift"] = draw(st.sampled_from([0, 0, 7, 1000]))
    c["select"] = draw(st.integers(0, 7))
    c["bselect"] = draw(st.integers(1, 15))
    # parts of the mesh and of its boundary per field, or the same for all
    c["own"] = draw(st.sampled_from([None, None, [draw(st.integers(0, 7)) for _ in range(3)]]))
    c["bown"] = draw(st.sampled_from([None, None, [draw(st.integers(1, 15)) for _ in range(3)]]))
    c["bfields"] = draw(st.sampled_from([0, 0, 1, 2, 5]))  # fields without boundary tags
    return c


def reference(fam, dim, k, disc):
    import basix

    F = {
        "Lagrange": basix.ElementFamily.P,
        "RT": basix.ElementFamily.RT,
        "BDM": basix.ElementFamily.BDM,
        "N1E": basix.ElementFamily.N1E,
        "N2E": basix.ElementFamily.N2E,
    }[fam if dim > 1 else "Lagrange"]
    C = {1: basix.CellType.interval, 2: basix.CellType.triangle, 3: basix.CellType.tetrahedron}[dim]
    return basix.create_element(F, C, k, basix.LagrangeVariant.gll_centroid, discontinuous=disc)


@subcheck(
    "C04",
    "numbering",
    cases(),
    quick=3000,
    thorough=36000,
    rule="product space of 1-3 fields (family, order, components, continuity) on a generated mesh restricted to a drawn set of physical tags; oracle: independent count per entity plus the sharing relation; non-trivial: a continuous field with a shared entity carrying dofs",
)
def numbering(case, ctx):
    real, mesh = meshes.make(case, ctx.tmp)
    dim = real.dim
    all_tags = fields.tags_of(real, dim)
    spec = {"f%d" % i: (dim, f[2], f[0], f[1]) for i, f in enumerate(case["fields"])}
    disc = {"f%d" % i: f[3] for i, f in enumerate(case["fields"])}
    tags = {n: [t for i, t in enumerate(all_tags) if not ((case["own"][j] if case["own"] else case["select"]) >> i) & 1] or all_tags for j, n in enumerate(spec)}
    space = fields.product_space(real, mesh, spec, disc=disc, tags=tags)
    ctx.event("parts per field" if case["own"] else "one part")
    space.dof_shift = case["dofshift"]
    base = case["dofshift"]
    total = 0
    offset = 0
    for name, (d, nc, fam, k) in spec.items():
        chosen = [c for c in real.cells if real.tags[dim][tuple(sorted(c))] in tags[name]]
        ref = reference(fam, dim, k, disc[name])
        per = [int(r[0]) for r in ref.num_entity_dofs]
        n_ent = [
            len({e for c in chosen for e in meshes.facets_of(c, dd)}) for dd in range(dim + 1)
        ]
        want_n = nc * sum(per[dd] * n_ent[dd] for dd in range(dim + 1))
        sub = space.discrete_spaces[name]
        if sub.n_dof != want_n:
            raise Violation("field %s(%d) x%d has %d dofs, counting entities gives %d" % (fam, k, nc, sub.n_dof, want_n))
        if len(sub.elements) != len(chosen):
            raise Violation("field has %d elements on %d selected cells" % (len(sub.elements), len(chosen)))
        look = fields.element_lookup(space, name)
        if set(look) != {tuple(sorted(c)) for c in chosen}:
            raise Violation("elements do not sit on the selected cells")
        owner = {}
        covered = set()
        n_local = ref.dim * nc
        for c in chosen:
            i = look[tuple(sorted(c))]
            dest = np.asarray(space.destination_indexes(i, name))
            if dest.shape != (n_local,):
                raise Violation("element has %s destinations, %d dofs" % (dest.shape, n_local))
            if len(set(dest.tolist())) != n_local:
                raise Violation("an element receives the same dof twice")
            lo, hi = dest.min(), dest.max()
            if lo < base + offset or hi >= base + offset + want_n:
                raise Violation("field %s dofs %d..%d leave its block [%d,%d)" % (name, lo, hi, base + offset, base + offset + want_n))
            covered |= set(dest.tolist())
            # attribute dofs to entities
            nodes = list(sub.elements[i].data.cell.node_tags)
            ed = ref.entity_dofs
            import basix

            topo = basix.topology(ref.cell_type)
            for dd in range(dim + 1):
                for li, dofs in enumerate(ed[dd]):
                    if not dofs:
                        continue
                    ent = tuple(sorted(int(nodes[v]) for v in topo[dd][li]))
                    got = tuple(
                        int(x) for ld in dofs for x in dest[ld * nc : (ld + 1) * nc]
                    )
                    prev = owner.setdefault((dd, ent), got)
                    if prev != got:
                        raise Violation(
                            "entity %s of dimension %d has dofs %s from one cell and %s from another" % (ent, dd, prev, got)
                        )
            if not disc[name]:
                ctx.mark(len(chosen) > 1 and any(per[dd] for dd in range(dim)))
        if len(covered) != want_n:
            raise Violation("%d of %d dofs of field %s are attached to no cell" % (want_n - len(covered), want_n, name))
        rev = {}
        for e, ds in owner.items():
            for x in ds:
                if rev.setdefault(x, e) != e:
                    raise Violation("dof %d belongs to two entities %s and %s" % (x, rev[x], e))
        offset += want_n
        total += want_n
        ctx.event("%s%s" % (fam, "-disc" if disc[name] else ""))
    if space.n_dof != total:
        raise Violation("product space counts %d dofs, its fields have %d" % (space.n_dof, total))
    # the product destination is the concatenation of the fields'
    n_el = min(len(s.elements) for s in space.discrete_spaces.values())
    for i in range(n_el):
        per_field = space.discrete_spaces_destination_indexes(i)
        cat = np.concatenate([per_field[n] for n in spec])
        if not np.array_equal(space.destination_indexes(i), cat):
            raise Violation("product destination is not the concatenation over fields")


@subcheck(
    "C04",
    "boundary",
    cases(dims=(1, 2, 2, 3)),
    quick=2400,
    thorough=30000,
    rule="boundary elements on a drawn set of facet tags; oracle: facet-closure dofs of the neighbouring cell; non-trivial: at least one boundary element",
)
def boundary(case, ctx):
    import basix

    real, mesh = meshes.make(case, ctx.tmp)
    dim = real.dim
    spec = {"f%d" % i: (dim, f[2], f[0], f[1]) for i, f in enumerate(case["fields"])}
    pick = lambda mask: [t for i, t in enumerate(fields.tags_of(real, dim - 1)) if (mask >> (i % 4)) & 1]
    btags = {n: pick(case["bown"][j] if case["bown"] else case["bselect"]) for j, n in enumerate(spec)}
    if not any(btags.values()):
        return
    ctx.event("boundary per field" if case["bown"] else "one boundary")
    all_tags = fields.tags_of(real, dim)
    tags = [t for i, t in enumerate(all_tags) if not (case["select"] >> i) & 1] or all_tags
    with_b = [n for i, n in enumerate(spec) if not (case["bfields"] >> i) & 1] or list(spec)
    space = fields.product_space(real, mesh, spec, btags={n: btags[n] for n in with_b}, tags=tags)
    space.dof_shift = case["dofshift"]
    # the facets of the selected cells, each with the cells it may be seen from
    fmap = {}
    for f, cs in fields.facet_map(real).items():
        cs = [i for i in cs if real.tags[dim][tuple(sorted(real.cells[i]))] in tags]
        if cs:
            fmap[f] = cs
    spec = {n: s for n, s in spec.items() if n in with_b}
    count = {}
    for name, (d, nc, fam, k) in spec.items():
        want_f = {f for f, t in real.tags[dim - 1].items() if t in btags[name] and f in fmap}
        ctx.mark(bool(want_f))
        count[name] = len(want_f)
        sub = space.discrete_spaces[name]
        got_f = [tuple(sorted(int(v) for v in el.data.cell.node_tags)) for el in sub.bc_elements]
        if sorted(got_f) != sorted(want_f):
            raise Violation("boundary elements of %s sit on %s, tags %s mark %s" % (name, sorted(got_f), btags[name], sorted(want_f)))
        look = fields.element_lookup(space, name)
        ref = reference(fam, dim, k, False)
        topo = basix.topology(ref.cell_type)
        for bi, f in enumerate(got_f):
            bdest = [int(x) for x in space.bc_destination_indexes(bi, name)]
            # oracle
            c = real.cells[fmap[f][0]]
            i = look[tuple(sorted(c))]
            dest = np.asarray(space.destination_indexes(i, name))
            nodes = [int(v) for v in sub.elements[i].data.cell.node_tags]
            want = []
            for dd in range(dim):
                for li, dofs in enumerate(ref.entity_dofs[dd]):
                    ent = {nodes[v] for v in topo[dd][li]}
                    if ent <= set(f):
                        for ld in dofs:
                            want += [int(x) for x in dest[ld * nc : (ld + 1) * nc]]
            if sorted(bdest) != sorted(want):
                raise Violation(
                    "boundary dofs of %s(%d) on facet %s: %s, dofs of the facet's closure are %s" % (fam, k, f, sorted(bdest), sorted(want))
                )
            if len(set(bdest)) != len(bdest):
                raise Violation("a boundary element receives the same dof twice")
        ctx.event(fam)
    n_b = [n for n in count.values() if n]
    for bi in range(min(n_b, default=0)):
        per = space.discrete_spaces_bc_destination_indexes(bi)
        cat = np.concatenate([per[n] for n in spec if count[n]])
        if not np.array_equal(space.bc_destination_indexes(bi), cat):
            raise Violation("product boundary destination is not the concatenation over fields")


@st.composite
def mixed_cases(draw):
    c = draw(meshes.mesh_cases(dims=(1, 2, 2, 3), small=True))
    fl = []
    for _ in range(draw(st.integers(2, 4))):
        d = draw(st.integers(0, c["dim"]))
        fam = draw(st.sampled_from(FAM[d])) if d == c["dim"] else "Lagrange"
        fl.append([d, fam, draw(st.integers(1, 3)) if d else 0, draw(st.integers(1, 3)), draw(st.booleans()), draw(st.integers(0, 7))])
    c["fields"] = fl
    c["dofshift"] = draw(st.sampled_from([0, 0, 7, 1000]))
    return c


@subcheck(
    "C04",
    "mixed",
    mixed_cases(),
    quick=1500,
    thorough=20000,
    rule="product space of 2-4 fields that live on tagged entities of drawn dimensions (points, lines, surfaces, volumes) of one mesh: the dofs of every field in its own block, counted and shared as in the complex of its entities, the l2 norm of a field over the entities of its dimension only; non-trivial: two dimensions occur",
)
def mixed(case, ctx):
    import basix
    from postprocess.l2_error_post_processor import l2_error_projected

    real, mesh = meshes.make(case, ctx.tmp)
    spec, tags, parts = {}, {}, {}
    for i, (d, fam, k, nc, disc, mask) in enumerate(case["fields"]):
        every = fields.tags_of(real, d)
        if not every:
            continue
        n = "f%d" % i
        spec[n] = (d, nc, fam, k)
        tags[n] = [t for j, t in enumerate(every) if not (mask >> j) & 1] or every
        if d == real.dim:
            ents = [c for c in real.cells if real.tags[d][tuple(sorted(c))] in tags[n]]
        else:
            ents = [e for e, t in real.tags[d].items() if t in tags[n]]
        parts[n] = {tuple(sorted(e)) for e in ents}
    if not spec:
        return
    disc = {"f%d" % i: f[4] and f[0] > 0 for i, f in enumerate(case["fields"])}
    space = fields.product_space(real, mesh, spec, disc=disc, tags=tags)
    space.dof_shift = case["dofshift"]
    dims = {s[0] for s in spec.values()}
    ctx.mark(len(dims) > 1)
    ctx.event("dimensions %s" % sorted(dims))
    if space.dimension() != max(dims):
        raise Violation("a space of fields of dimensions %s has dimension %s" % (sorted(dims), space.dimension()))
    offset = case["dofshift"]
    for n, (d, nc, fam, k) in spec.items():
        sub = space.discrete_spaces[n]
        if d == 0:
            per, ref = [1], None
        else:
            ref = reference(fam, d, k, disc[n])
            per = [int(r[0]) for r in ref.num_entity_dofs]
        want_n = nc * sum(per[q] * len({e for c in parts[n] for e in meshes.facets_of(c, q)}) for q in range(d + 1))
        what = "%s(%d)x%d in %dd" % (fam, k, nc, d)
        if sub.n_dof != want_n:
            raise Violation("%s has %d dofs, counting entities gives %d" % (what, sub.n_dof, want_n))
        look = {tuple(sorted(int(v) for v in el.data.cell.node_tags)): i for i, el in enumerate(sub.elements)}
        if len(sub.elements) != len(look) or set(look) != parts[n] or any(el.data.cell.dimension != d for el in sub.elements):
            raise Violation("%s: elements sit on %s, its tags mark %s" % (what, sorted(look), sorted(parts[n])))
        owner, held = {}, {}
        for e, i in look.items():
            dest = [int(x) for x in space.destination_indexes(i, n)]
            if len(dest) != nc * (ref.dim if ref else 1) or len(set(dest)) != len(dest):
                raise Violation("%s: an element has the dofs %s" % (what, dest))
            if min(dest) < offset or max(dest) >= offset + want_n:
                raise Violation("%s: dofs %s leave the block [%d,%d)" % (what, dest, offset, offset + want_n))
            nodes = [int(v) for v in sub.elements[i].data.cell.node_tags]
            topo = basix.topology(ref.cell_type) if ref else [[[0]]]
            layout = ref.entity_dofs if ref else [[[0]]]
            for q in range(d + 1):
                for li, dofs in enumerate(layout[q]):
                    ent = tuple(sorted(nodes[v] for v in topo[q][li]))
                    got = tuple(x for ld in dofs for x in dest[ld * nc : (ld + 1) * nc])
                    if owner.setdefault((q, ent), got) != got:
                        raise Violation("%s: entity %s has the dofs %s and %s" % (what, ent, got, owner[(q, ent)]))
        for e, ds in owner.items():
            for x in ds:
                if held.setdefault(x, e) != e:
                    raise Violation("%s: dof %d belongs to %s and %s" % (what, x, e, held[x]))
        if len(held) != want_n:
            raise Violation("%s: %d of %d dofs are used" % (what, len(held), want_n))
        offset += want_n
    if space.n_dof != offset - case["dofshift"]:
        raise Violation("the product space counts %d dofs, its fields %d" % (space.n_dof, offset - case["dofshift"]))
    # functionals of one dimension see the fields of that dimension only
    alpha = fields.coefficients(offset, [1])
    for d in sorted(dims - {0}):
        got = l2_error_projected(d, space, alpha)
        if len(got) != len(spec):
            raise Violation("%d values for %d fields" % (len(got), len(spec)))
        for n, v in zip(spec, got):
            if (v > 0) != (spec[n][0] == d):
                raise Violation("the norm of %s (dimension %d) over the cells of dimension %d is %r" % (n, spec[n][0], d, v))


@subcheck(
    "C04",
    "large",
    cases(large=(400, 14, 4)),
    quick=40,
    thorough=700,
    weight=2.0,
    rule="numbering and boundary elements on meshes of hundreds of cells in random numbering",
)
def large(case, ctx):
    numbering(case, ctx)
    boundary(case, ctx)
