"""Numerical derivatives with an error estimate (central differences, Richardson tableau)."""
import numpy as np


def tableau(f, h, levels=4, shrink=2.0):
    """f(s) -> array, s a scalar offset.  Returns (estimate, error estimate) of df/ds at 0."""
    T = [[None] * levels for _ in range(levels)]
    best = err = None
    for i in range(levels):
        hi = h / shrink**i
        T[i][0] = (np.asarray(f(hi), float) - np.asarray(f(-hi), float)) / (2 * hi)
        for j in range(1, i + 1):
            fac = shrink ** (2 * j)
            T[i][j] = (fac * T[i][j - 1] - T[i - 1][j - 1]) / (fac - 1)
            e = np.maximum(np.abs(T[i][j] - T[i][j - 1]), np.abs(T[i][j] - T[i - 1][j - 1]))
            if best is None:
                best, err = T[i][j], e
            else:
                m = e < err
                best, err = np.where(m, T[i][j], best), np.where(m, e, err)
    return best, err
