"""Helpers shared by the finite-element checks: spaces over generated meshes,
and evaluation of a discrete field from the global coefficient vector."""

import numpy as np

VECTOR = ("RT", "BDM", "N1E", "N2E")


def coefficients(n, ints):
    """n reproducible, non-zero coefficients in [-2, 2] from a few drawn ints."""
    a = np.arange(n, dtype=float)
    out = np.zeros(n)
    for j, s in enumerate(ints):
        out += np.cos((0.7 + 0.37 * j + 0.013 * s) * (a + 1.0) + s)
    return 2.0 * out / max(1, len(ints)) + 0.05


def tags_of(real, d):
    return sorted(set(real.tags[d].values()))


def product_space(real, mesh, fields, disc=None, btags=None, tags=None):
    """fields: {name: (dim, n_comp, family, k)}"""
    from spaces.product_space import ProductSpace

    data = {n: (f[0], f[1], f[2], f[3], mesh) for n, f in fields.items()}
    space = ProductSpace(data)
    if disc:
        space.make_subspaces_discontinuous(disc)
    if isinstance(tags, dict):
        t = {n: tags[n] for n in fields}
    else:
        t = {n: (tags_of(real, f[0]) if tags is None else tags) for n, f in fields.items()}
    if isinstance(btags, dict):
        b = {n: btags.get(n, []) for n in fields}
    else:
        b = {n: (btags or []) for n in fields}
    space.build_structures(t, b)
    return space


def local_points(points, nodes, phys):
    """Reference coordinates of physical points in the simplex with `nodes`."""
    P = np.asarray(points)[np.asarray(nodes)]
    J = (P[1:] - P[0]).T
    X = np.array([np.linalg.lstsq(J, p - P[0], rcond=None)[0] for p in phys])
    return X.reshape(len(phys), P.shape[0] - 1)


def evaluate(space, name, iel, alpha, X, derivatives=False):
    """Values (n_pts, n_comp, value_size) of field `name` on element iel."""
    sub = space.discrete_spaces[name]
    el = sub.elements[iel]
    _, jac, det, inv = el.evaluate_mapping(X)
    phi = el.evaluate_basis(X, jac, det, inv)
    dest = space.destination_indexes(iel, name)
    a = alpha[dest].reshape(phi.shape[2], sub.n_comp)
    # (pts, dofs, comp) x (dofs, n_comp)
    vals = np.einsum("pdv,dc->pcv", phi[0], a)
    if derivatives:
        return vals, phi, a, (jac, det, inv)
    return vals


def facet_sample(real, nodes, weights):
    """Physical points inside the simplex spanned by `nodes`."""
    out = []
    n = len(nodes)
    for w in weights:
        lam = np.array([1.0 + w[i % len(w)] for i in range(n)], dtype=float)
        lam = lam / lam.sum()
        out.append(lam @ real.points[list(nodes)])
    return np.array(out)


def facet_map(real):
    """sorted facet nodes -> list of positions of cells in real.cells."""
    from harness.meshes import facets_of

    m = {}
    for i, c in enumerate(real.cells):
        for f in facets_of(c, real.dim - 1):
            m.setdefault(f, []).append(i)
    return m


def element_lookup(space, name):
    """sorted node tuple -> element index."""
    sub = space.discrete_spaces[name]
    return {
        tuple(sorted(int(v) for v in el.data.cell.node_tags)): i
        for i, el in enumerate(sub.elements)
    }
