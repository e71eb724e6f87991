"""Independent occultation oracle: quadratic limb darkening by radial quadrature.

The blocked flux is int_0^1 I(r) arc(r) r dr with arc(r) the angle of the circle of radius r
that lies inside the planet's disk; Gauss-Legendre in theta with r = mid - half*cos(theta),
which removes the square-root end points."""
import numpy as np

_GL = {n: np.polynomial.legendre.leggauss(n) for n in (96, 160)}


def intensity(mu, u1, u2):
    return 1 - u1 * (1 - mu) - u2 * (1 - mu) ** 2


def disk_flux(u1, u2):
    return np.pi * (1 - u1 / 3 - u2 / 6)


def _full(rho, u1, u2):
    """2 pi int_0^rho I r dr = 2 pi int_mu^1 I mu dmu."""
    m = np.sqrt(np.maximum(1 - rho**2, 0.0))
    c0, c1, c2 = 1 - u1 - u2, u1 + 2 * u2, -u2
    return 2 * np.pi * (c0 * (1 - m**2) / 2 + c1 * (1 - m**3) / 3 + c2 * (1 - m**4) / 4)


def _blocked(b, k, u1, u2, n):
    r1 = np.abs(b - k)
    r2 = np.minimum(b + k, 1.0)
    out = np.where(k > b, _full(np.minimum(np.maximum(k - b, 0), 1.0), u1, u2), 0.0)
    lo = np.minimum(r1, 1.0)
    x, w = _GL[n]
    th = 0.5 * np.pi * (x + 1)
    mid, half = 0.5 * (lo + r2), 0.5 * (r2 - lo)
    half = np.maximum(half, 0.0)
    r = mid[..., None] - half[..., None] * np.cos(th)
    dr = half[..., None] * np.sin(th) * 0.5 * np.pi * w
    B, K = b[..., None], k[..., None]
    om = np.maximum((K - r + B) * (K + r - B), 0)
    op = np.maximum((r + B - K) * (r + B + K), 0)
    arc = 4 * np.arctan2(np.sqrt(om), np.sqrt(op))
    mu = np.sqrt(np.maximum((1 - r) * (1 + r), 0))
    out = out + np.sum(intensity(mu, u1, u2) * arc * r * dr, axis=-1)
    return np.where(b >= 1 + k, 0.0, out)


def transit(b, k, u1, u2, with_error=False):
    """Relative flux change (<= 0) for impact parameter b and radius ratio k."""
    b, k = np.broadcast_arrays(np.abs(np.asarray(b, float)), np.abs(np.asarray(k, float)))
    f = -_blocked(b, k, u1, u2, 160) / disk_flux(u1, u2)
    if not with_error:
        return f
    g = -_blocked(b, k, u1, u2, 96) / disk_flux(u1, u2)
    return f, np.abs(f - g)


def light_curve(X, Y, Z, k, u1, u2):
    """X, Y, Z in stellar radii; Z > 0 in front."""
    return np.where(Z > 0, transit(np.hypot(X, Y), k, u1, u2), 0.0)


def unsafe(b, k):
    """b equals k to within rounding: the dependency's kernel is wrong there (known finding of
    C12), so other checks do not judge such points."""
    b, k = np.broadcast_arrays(np.abs(np.asarray(b, float)), np.asarray(k, float))
    return bool(np.any((np.abs(b - k) < 1e-9) & (k > 0)))
