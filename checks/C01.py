"""C01 - a mesh is built with every sub-entity exactly once, tags kept."""

import itertools

import numpy as np

from harness import meshes
from harness.core import Violation, subcheck

TITLE = "Mesh entities: complete, unique, tagged, consistently linked"
ASSUMPTIONS = [
    "input files are conforming simplicial gmsh meshes (no repeated or degenerate cells, no dangling nodes)",
]

EDGES_TRI = [(1, 2), (0, 2), (0, 1)]
EDGES_TET = [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)]
FACES_TET = [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)]
LOCAL = {
    (0, 0): [(0,)],
    (1, 0): [(0,), (1,)],
    (2, 0): [(0,), (1,), (2,)],
    (2, 1): EDGES_TRI,
    (3, 0): [(0,), (1,), (2,), (3,)],
    (3, 1): EDGES_TET,
    (3, 2): FACES_TET,
}


def key(nodes):
    return tuple(sorted(int(v) for v in nodes))


@subcheck(
    "C01",
    "entities",
    meshes.mesh_cases(dims=(1, 2, 2, 3, 3)),
    quick=5400,
    thorough=54000,
    rule="generated mesh (dim, template, dropped cells, numbering, node order, tags); non-trivial: at least two cells sharing a facet",
)
def entities(case, ctx):
    real, mesh = meshes.make(case, ctx.tmp)
    dim = real.dim
    ctx.event("dim=%d" % dim)
    ctx.mark(len(real.cells) > 1)
    if not np.array_equal(np.asarray(mesh.points)[:, :3], real.points):
        if not np.allclose(np.asarray(mesh.points)[:, :3], real.points, rtol=1e-14, atol=0):
            raise Violation("mesh points differ from the file's points")
    seen = {}
    for pos, c in enumerate(mesh.cells):
        if c is None:
            raise Violation("cell slot %d is empty" % pos)
        if c.id != pos:
            raise Violation("cell at position %d carries id %s" % (pos, c.id))
        k = (c.dimension, key(c.node_tags))
        if len(set(k[1])) != c.dimension + 1:
            raise Violation("cell %d has node tags %s" % (pos, c.node_tags))
        if k in seen:
            raise Violation("entity %s appears twice (cells %d, %d)" % (k, seen[k], pos))
        seen[k] = pos
    expect = set()
    for d in range(dim + 1):
        expect |= {(d, e) for e in meshes.entities(real, d)}
    if set(seen) != expect:
        miss, extra = expect - set(seen), set(seen) - expect
        raise Violation("entities missing %s, invented %s" % (sorted(miss)[:4], sorted(extra)[:4]))
    for (d, nodes), cid in seen.items():
        c = mesh.cells[cid]
        tag = real.tags[d].get(nodes)
        if (c.material_id is None) != (tag is None) or (
            tag is not None and int(c.material_id) != tag
        ):
            raise Violation("entity %s has physical tag %s, file says %s" % ((d, nodes), c.material_id, tag))
        if len(c.sub_cells_ids) != d + 1:
            raise Violation("entity %s lists sub-cells of %d dimensions" % ((d, nodes), len(c.sub_cells_ids)))
        for sd in range(d):
            subs = [int(s) for s in c.sub_cells_ids[sd]]
            want = [key(np.asarray(c.node_tags)[list(l)]) for l in LOCAL[(d, sd)]]
            got = []
            for s in subs:
                if mesh.cells[s].dimension != sd:
                    raise Violation("sub-cell of wrong dimension on %s" % ((d, nodes),))
                got.append(key(mesh.cells[s].node_tags))
            if got != want:
                raise Violation(
                    "sub-cells of dimension %d of %s are %s, reference order gives %s"
                    % (sd, (d, tuple(c.node_tags)), got, want)
                )
        own = [int(s) for s in c.sub_cells_ids[d]]
        if d > 0 and own != [cid]:
            raise Violation("a cell is not its own sub-cell of full dimension")
    # the node order of the given cells is kept (it fixes their orientation)
    for c in real.cells:
        got = tuple(int(v) for v in mesh.cells[seen[(dim, key(c))]].node_tags)
        if got != tuple(c):
            raise Violation("cell %s was stored with node order %s" % (c, got))


@subcheck(
    "C01",
    "large",
    meshes.large_cases(dims=(1, 2, 2, 3, 3), top=(1500, 40, 8)),
    quick=64,
    thorough=900,
    weight=2.0,
    rule="the same on meshes of hundreds to thousands of nodes in random numbering, with up to 400 material tags; non-trivial: at least two cells sharing a facet",
)
def large(case, ctx):
    entities(case, ctx)


@subcheck(
    "C01",
    "adjacency",
    meshes.mesh_cases(dims=(1, 2, 2, 3)),
    quick=3000,
    thorough=30000,
    rule="same meshes; adjacency queries at every (dimension, co-dimension), on all cells and on a drawn set of physical tags; non-trivial: the tag set selects a proper non-empty subset of cells",
)
def adjacency(case, ctx):
    from mesh.mesh_topology import MeshTopology

    real, mesh = meshes.make(case, ctx.tmp)
    ids = {(c.dimension, key(c.node_tags)): c.id for c in mesh.cells}
    # the topology of the cells and the ones of tagged lower-dimensional entities
    hosts = [real] + [meshes.lower_real(real, d) for d in range(1, real.dim) if real.tags[d]]
    for host in hosts:
        dim = host.dim
        all_tags = sorted(set(host.tags[dim].values()))
        sel = [t for i, t in enumerate(all_tags) if (case["corder"] >> i) & 1]
        # one topology is rebuilt for one selection after the other
        topo = MeshTopology(mesh, dim)
        rest = [t for t in all_tags if t not in sel]
        for now in [sel, rest, None, all_tags[:1]]:
            if now is None and host is not real:
                continue  # every entity of the dimension, tagged or not
            adjacent(ctx, mesh, host, ids, topo, now)


def adjacent(ctx, mesh, real, ids, topo, sel):
    from mesh.topological_queries import (
        find_higher_dimension_neighs,
        find_lower_dimension_neighs,
        sub_entity_by_co_dimension,
    )

    dim = real.dim
    if sel is None:
        topo.build_data()
        chosen = [key(c) for c in real.cells]
    else:
        topo.build_data_on_pysical_tags(sel)
        chosen = [key(c) for c in real.cells if real.tags[dim][key(c)] in sel]
        ctx.mark(0 < len(chosen) < len(real.cells))
    for d in range(dim + 1):
        want = sorted({ids[(d, e)] for c in chosen for e in meshes.facets_of(c, d)})
        got = sorted(int(i) for i in topo.entities_by_dimension(d))
        if got != want:
            raise Violation("entities of dimension %d on tags %s: %s, expected %s" % (d, sel, got, want))
        gotc = sorted(int(i) for i in topo.entities_by_codimension(dim - d))
        if gotc != want:
            raise Violation("codimension accessor disagrees with the dimension accessor")
        if d == dim:
            continue
        around = {}
        for c in chosen:
            for e in meshes.facets_of(c, d):
                around.setdefault(e, []).append(ids[(dim, c)])
        for e in sorted(around):
            cell = mesh.cells[ids[(d, e)]]
            want_up = sorted(around[e])
            got_up = sorted(
                int(n[1]) for n in find_higher_dimension_neighs(cell, topo) if n[0] == dim
            )
            if got_up != want_up:
                raise Violation("cells around entity %s: %s, expected %s" % ((d, e), got_up, want_up))
    for c in chosen:
        cell = mesh.cells[ids[(dim, c)]]
        for cod in range(1, dim + 1):
            want = sorted(ids[(dim - cod, e)] for e in meshes.facets_of(c, dim - cod))
            got = sorted(int(i) for i in sub_entity_by_co_dimension(cell, cod))
            if got != want:
                raise Violation("sub-entities of co-dimension %d of %s" % (cod, c))
            g = topo.entity_map_by_codimension(cod)
            got = sorted(int(n[1]) for n in g.successors(cell.index()))
            if got != want:
                raise Violation("co-dimension %d adjacency of %s: %s, expected %s" % (cod, c, got, want))


@subcheck(
    "C01",
    "large_adjacency",
    meshes.large_cases(dims=(1, 2, 2, 3), top=(600, 24, 5)),
    quick=48,
    thorough=500,
    weight=2.0,
    rule="adjacency on meshes of hundreds to thousands of cells in random numbering",
)
def large_adjacency(case, ctx):
    case = dict(case, corder=case["large"])
    adjacency(case, ctx)
