"""Polynomial fields in x, y, z with drawn integer coefficients."""

import itertools

import numpy as np


def exponents(dim, deg):
    return [
        e + (0,) * (3 - dim)
        for e in itertools.product(range(deg + 1), repeat=dim)
        if sum(e) <= deg
    ]


class Poly:
    """Vector of polynomials; value(points (n,3)) -> (n_rows, n)."""

    def __init__(self, dim, deg, rows, ints, center, scale):
        self.ex = exponents(dim, deg)
        self.dim, self.deg = dim, deg
        self.c = np.asarray(center, dtype=float)
        self.s = float(scale)
        n = len(self.ex)
        self.A = np.zeros((rows, n))
        m = len(ints)
        for r in range(rows):
            for j in range(n):
                # depends on all of (r, j) with no short period
                self.A[r, j] = ints[(3 * r + 5 * j + (r * j) % 3) % m] + ((r + 2 * j) % 3) * 0.25
        # make sure the top degree is really present
        top = [j for j, e in enumerate(self.ex) if sum(e) == deg]
        for r in range(rows):
            if not np.any(self.A[r, top]):
                self.A[r, top[r % len(top)]] = 1.0

    def _mon(self, P, e):
        return P[:, 0] ** e[0] * P[:, 1] ** e[1] * P[:, 2] ** e[2]

    def __call__(self, P):
        P = (np.atleast_2d(np.asarray(P, dtype=float)) - self.c) / self.s
        M = np.array([self._mon(P, e) for e in self.ex])
        return self.A @ M

    def grad(self, P):
        """(rows, 3, n)"""
        P = (np.atleast_2d(np.asarray(P, dtype=float)) - self.c) / self.s
        out = np.zeros((self.A.shape[0], 3, len(P)))
        for d in range(3):
            M = []
            for e in self.ex:
                if e[d] == 0:
                    M.append(np.zeros(len(P)))
                else:
                    f = list(e)
                    f[d] -= 1
                    M.append(e[d] * self._mon(P, f))
            out[:, d, :] = self.A @ np.array(M) / self.s
        return out

    def xyz(self, x, y, z):
        """The call signature of the library's functions, array or scalar."""
        x, y, z = np.asarray(x, float), np.asarray(y, float), np.asarray(z, float)
        P = np.stack(np.broadcast_arrays(x, y, z), axis=-1).reshape(-1, 3)
        v = self(P)
        return v.reshape(v.shape[0], *x.shape)


def box_of(points):
    points = np.asarray(points)
    c = points.mean(0)
    s = max(np.abs(points - c).max(), 1e-300)
    return c, s
