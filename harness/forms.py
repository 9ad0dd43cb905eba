"""Reference tables for weak forms: basis values, physical gradients and
divergences of every local dof, from the verified basis (C05-C07) by numerical
differentiation and from independent geometry."""

import auto_diff.true_np as _true_np
import numpy as np

from harness import fields

# the installed auto_diff predates numpy 2, where np.product is gone
if not hasattr(_true_np, "product"):
    _true_np.product = np.prod

STENCIL = [(-2, 1.0 / 12), (-1, -2.0 / 3), (1, 2.0 / 3), (2, -1.0 / 12)]


class Field:
    pass


def table(space, name, iel, X, real, grads=True):
    """V[p, i, c, v], G[p, i, c, v, j], D[p, i, c] for the local dofs i of a
    field; i runs over (basis function, component) like the destination indexes."""
    sub = space.discrete_spaces[name]
    el = sub.elements[iel]
    dim = real.dim
    nodes = np.asarray(el.data.cell.node_tags)
    P = real.points[nodes]
    J = (P[1:] - P[0]).T

    def values(X):
        _, jac, det, inv = el.evaluate_mapping(X)
        return np.asarray(el.evaluate_basis(X, jac, det, inv))[0]

    phi = values(X)
    n, nb, v = phi.shape
    f = Field()
    f.nc, f.nb, f.v = sub.n_comp, nb, (1 if v == 1 else dim)
    phi = phi[:, :, : f.v]
    I = np.eye(f.nc)

    def spread(T):  # (p, nb, ...) -> (p, nb*nc, nc, ...)
        out = np.einsum("pb...,kc->pbkc...", T, I)
        return out.reshape((T.shape[0], nb * f.nc, f.nc) + T.shape[2:])

    f.n = nb * f.nc
    f.V = spread(phi)
    if grads:
        h = 0.1 * np.abs(J).max()
        embedded = getattr(real, "host", None) is not None

        def derivative(e):  # along the tangential part of a direction
            dX = np.linalg.lstsq(J, e, rcond=None)[0]
            return sum(w * values(X + s * h * dX)[:, :, : f.v] for s, w in STENCIL) / h

        g = np.stack([derivative(e) for e in np.eye(3)[: 3 if embedded else dim]], axis=-1)  # p, b, v, j
        f.G = spread(g)
        if not (embedded and dim == 1) and (f.v == dim and v > 1 or dim == 1):
            f.D = np.einsum("picvv->pic", f.G)
    f.U = f.V[..., 0]
    return f


class Element:
    """All fields of one element at the quadrature points of the space."""

    def __init__(self, space, iel, real):
        dim = real.dim
        self.X, w = (np.asarray(a) for a in space.quadrature[dim])
        self.names = list(space.discrete_spaces)
        el = space.discrete_spaces[self.names[0]].elements[iel]
        nodes = np.asarray(el.data.cell.node_tags)
        P = real.points[nodes]
        E = P[1:] - P[0]
        self.x = np.hstack([1 - self.X.sum(1, keepdims=True), self.X]) @ P
        self.dx = w * np.sqrt(np.linalg.det(E @ E.T))
        self.f = {n: table(space, n, iel, self.X, real) for n in self.names}
        self.slices = {}
        o = 0
        for n in self.names:
            self.slices[n] = slice(o, o + self.f[n].n)
            o += self.f[n].n
        self.n = o
        self.J = np.zeros((o, o))
        self.r = np.zeros(o)

    fmax = 0.0

    def call(self, fn):
        v = np.asarray(fn(self.x[:, 0], self.x[:, 1], self.x[:, 2]), dtype=float)
        self.fmax = max(self.fmax, np.abs(v).max(initial=0.0))
        return v

    def roundoff(self, name, field=None):
        """Bound of a load integral of this field before cancellation."""
        V = (field or self.f[name]).V
        return np.abs(self.dx).sum() * np.abs(V).max(initial=0.0) * self.fmax

    def add(self, a, b, block):
        self.J[self.slices[a], self.slices[b]] += block

    def load(self, a, vec):
        self.r[self.slices[a]] += vec


def dot(dx, A, B):
    """sum_p dx_p <A_pi, B_pj> over all trailing axes."""
    n = A.shape[0]
    A2 = A.reshape(n, A.shape[1], -1)
    B2 = B.reshape(n, B.shape[1], -1)
    return np.einsum("p,pia,pja->ij", dx, A2, B2)


def moment(dx, A, F):
    """sum_p dx_p <A_pi, F_p>; F has the point axis last."""
    F = np.moveaxis(np.asarray(F), -1, 0).reshape(A.shape[0], -1)
    return np.einsum("p,pia,pa->i", dx, A.reshape(A.shape[0], A.shape[1], -1), F)


class Facet:
    """A boundary element seen from its (only) cell: trace tables on all dofs of
    the cell, own geometry, outward normal."""

    def __init__(self, space, name, ibc, real, weights_from=None):
        dim = real.dim
        sub = space.discrete_spaces[name]
        cell = sub.bc_elements[ibc].data.cell
        self.nodes = tuple(sorted(int(v) for v in cell.node_tags))
        from harness.meshes import facets_of

        owners = [
            i for i, e in enumerate(sub.elements)
            if set(self.nodes) <= {int(v) for v in e.data.cell.node_tags}
        ]
        assert len(owners) == 1
        self.iel = owners[0]
        # the element's own node order: its quadrature points need not be symmetric
        P = real.points[[int(v) for v in cell.node_tags]]
        if dim == 1:
            Xf, w = np.zeros((1, 0)), np.array([1.0])
            meas = 1.0
        else:
            Xf, w = (np.asarray(a) for a in space.bc_quadrature[dim - 1])
            E = P[1:] - P[0]
            meas = np.sqrt(np.linalg.det(E @ E.T))
        self.dx = w * meas
        self.x = np.hstack([1 - Xf.sum(1, keepdims=True), Xf]) @ P
        cn = [int(v) for v in sub.elements[self.iel].data.cell.node_tags]
        self.X = fields.local_points(real.points, cn, self.x)
        opp = real.points[[v for v in cn if v not in self.nodes][0]]
        if dim == 1:
            n = P[0] - opp
        elif dim == 2:
            t = P[1] - P[0]
            n = np.array([t[1], -t[0], 0.0])
        else:
            n = np.cross(P[1] - P[0], P[2] - P[0])
        n = n / np.linalg.norm(n)
        if n @ (P[0] - opp) < 0:
            n = -n
        self.n = n[:dim]
        self.space, self.real = space, real

    def table(self, name):
        return table(self.space, name, self.iel, self.X, self.real, grads=False)

    fmax = 0.0

    def call(self, fn):
        v = np.asarray(fn(self.x[:, 0], self.x[:, 1], self.x[:, 2]), dtype=float)
        self.fmax = max(self.fmax, np.abs(v).max(initial=0.0))
        return v

    def roundoff(self, name, field=None):
        """Bound of a load integral of this field before cancellation."""
        V = (field or self.f[name]).V
        return np.abs(self.dx).sum() * np.abs(V).max(initial=0.0) * self.fmax


class Coefficient:
    """A smooth positive function of position (scalar or array arguments)."""

    def __init__(self, base, seed, center, size, vary=True):
        self.base, self.k = float(base), float(seed)
        self.c, self.s, self.vary = np.asarray(center), float(size), vary

    def parts(self, x, y, z):
        u = (np.asarray(x, float) - self.c[0]) / self.s
        v = (np.asarray(y, float) - self.c[1]) / self.s
        w = (np.asarray(z, float) - self.c[2]) / self.s
        return 1.3 * u + 0.7 * v - 0.4 * w + self.k

    def __call__(self, x, y, z):
        t = self.parts(x, y, z)
        return self.base * (1.5 + np.cos(t)) if self.vary else self.base * (1.5 + 0.0 * t)

    def gradient(self, x, y, z):
        t = self.parts(x, y, z)
        g = (-self.base * np.sin(t) if self.vary else 0.0 * t) / self.s
        return np.array([1.3 * g, 0.7 * g, -0.4 * g])


def compare(got, want, slices, what, Violation, tol=1e-8, floor=None):
    """Block-wise comparison of local matrices or vectors."""
    got = np.asarray(got, dtype=float)
    if got.shape != want.shape:
        raise Violation("%s has shape %s instead of %s" % (what, got.shape, want.shape))
    if not np.all(np.isfinite(got)):
        raise Violation("%s is not finite" % what)
    allmax = np.abs(want).max(initial=0.0)
    names = list(slices)
    for a in names:
        for b in names if got.ndim == 2 else [None]:
            idx = (slices[a], slices[b]) if got.ndim == 2 else (slices[a],)
            w, g = want[idx], got[idx]
            if w.size == 0:
                continue
            d = np.abs(g - w).max()
            if d > tol * np.abs(w).max() + 1e-12 * allmax + 1e-13 * (floor or {}).get(a, 0.0):
                raise Violation(
                    "%s, block %s%s: differs by %g (entries up to %g)"
                    % (what, a, "," + b if b else "", d, np.abs(w).max())
                )
