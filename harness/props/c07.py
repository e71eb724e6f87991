"""C07 transit durations."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Check, LU, SkipCase, U, UO, agree, info, maybe, mix, require, vec
from harness.sutorbit import get, make

RULE = (
    "random period, duration, b, ror, r_star, epoch, planet mass (scalars or 1-3 planets) for "
    "which the transit exists; eccentric cases are generated from a target b and a transit "
    "geometry; non-trivial always (b = 0 and missing ror are labelled)"
)
ASSUMPTIONS = ["Winn (2010) eqs 14-16 as the documented approximation for eccentric orbits"]


@st.composite
def circ_case(draw):
    n = draw(maybe(st.integers(1, 3)))
    V = lambda el: draw(el) if n is None else draw(vec(el, n))  # noqa: E731
    ror = V(mix(U(0.0, 0.3), 0.1, 0.0))
    has_ror = draw(st.integers(0, 4)) > 0
    k = np.asarray(ror if has_ror else 0.0)
    near = LU(1e-5, 0.03).map(lambda d: 1 - d)
    b = (np.asarray(V(mix(mix(U(0.0, 0.98), 0.0, 0.0, 0.3), 0.0, 0.99, 0.9999) if draw(st.booleans())
                     else near)) * (1 + k)).tolist()
    P = V(LU(0.5, 500.0))
    p = dict(period=P, b=b, duration=(np.asarray(P) * np.asarray(V(U(0.002, 0.25)))).tolist())
    if has_ror:
        p["ror"] = ror
    if draw(st.booleans()):
        p["r_star"] = draw(LU(0.1, 5.0))
    if draw(st.booleans()):
        p["t0"] = V(U(-20.0, 20.0))
    if draw(st.integers(0, 3)) == 0:
        p["m_planet"] = V(LU(1e-7, 1e-4))
    if draw(st.integers(0, 3)) == 0:
        p["Omega"] = V(U(-3.0, 3.0))
    return dict(p=p, k=draw(st.integers(-20, 20)), x_in=draw(U(0.0, 0.999)), x_out=draw(U(1.001, 1.5)))


def circular(c):
    p = c["p"]
    o = make(p)
    n = len(p["period"]) if isinstance(p["period"], list) else 1
    F = lambda v: np.broadcast_to(np.asarray(v, float), (n,))  # noqa: E731
    P, D, b = F(p["period"]), F(p["duration"]), F(p["b"])
    k, R, t0 = F(p.get("ror", 0.0)), float(p.get("r_star", 1.0)), F(p.get("t0", 0.0))
    off = np.array([-1, 1, -c["x_in"], c["x_in"], -c["x_out"], c["x_out"]])
    t = (t0[:, None] + c["k"] * P[:, None] + 0.5 * D[:, None] * off).ravel()
    K = len(off)
    X, Y, Z = [np.reshape(x, (n, K, n)) for x in get(
        lambda: o.get_relative_position(t), "positions of an orbit with a duration")]
    i = np.arange(n)
    S = np.hypot(X, Y)[i, :, i] / R
    Z = Z[i, :, i]
    a_, b_, r_ = get(lambda: [o.a, o.b, o.r_star], "attributes")
    aor = F(np.squeeze(a_) / R if n == 1 else a_ / R)
    agree(np.squeeze(b_), np.squeeze(b if n > 1 else b[0]), 1e-14, 0, "b as given", shape=False)
    agree(np.squeeze(r_), R, 1e-14, 0, "r_star", shape=False)
    phi = np.pi * D / P
    want = np.sqrt((1 + k) ** 2 - (b * np.cos(phi)) ** 2) / np.sin(phi)
    # conditioning of the square root near the grazing limit
    cond = (1 + k) ** 2 / ((1 + k) ** 2 - (b * np.cos(phi)) ** 2)
    agree(aor, want, 0, want * (1e-13 + 4e-16 * cond), "a / r_star")
    dt_err = 2e-15 * (np.abs(t0) + abs(c["k"]) * P + P) * 2 * np.pi / P
    tol = (aor * (dt_err * 4 + 1e-14) + 1e-12)[:, None]
    edge = S[:, :2]
    agree(edge, (1 + k)[:, None] + 0 * edge, 0, tol + 0 * edge,
          "separation half a duration from t0 is (1+ror) r_star")
    inside, outside = S[:, 2:4], S[:, 4:]
    dphi = 0.5 * D / P * 2 * np.pi
    exact = lambda f: np.sqrt((aor * np.sin(f * dphi)) ** 2 + (b * np.cos(f * dphi)) ** 2)  # noqa: E731
    require(inside <= (1 + k)[:, None] + tol, "separation inside the transit is too large")
    require(outside >= (1 + k)[:, None] - tol, "separation outside the transit is too small")
    agree(inside, exact(c["x_in"])[:, None] + np.zeros(inside.shape), 0, tol + np.zeros(inside.shape), "path inside")
    agree(outside, exact(c["x_out"])[:, None] + np.zeros(outside.shape), 0, tol + np.zeros(outside.shape), "path outside")
    require(Z > 0, "planet behind the star during its transit")
    return info(True, "no ror" if "ror" not in p else "ror", "b=0" if np.all(b == 0) else "b>0",
                "r_star" if "r_star" in p else "default r_star")


@st.composite
def ecc_case(draw):
    n = draw(maybe(st.integers(1, 3)))
    V = lambda el: draw(el) if n is None else draw(vec(el, n))  # noqa: E731
    p = dict(period=V(LU(1.0, 300.0)), ecc=V(mix(U(0.0, 0.85), 0.0, 0.3)), omega=V(gen.omega_s()))
    star = draw(st.sampled_from(["none", "mr", "rho"]))
    if star == "mr":
        p["m_star"], p["r_star"] = draw(LU(0.3, 3.0)), draw(LU(0.3, 1.5))
    elif star == "rho":
        p["rho_star"] = draw(LU(0.3, 10.0))
    if draw(st.booleans()):
        p["t0"] = V(U(-20.0, 20.0))
    if draw(st.integers(0, 2)) == 0:
        p["m_planet"] = V(LU(1e-6, 0.05))
    return dict(p=p, b=V(mix(U(0.0, 0.95), 0.0, 0.5)))


def ecc_duration(o):
    """Winn (2010) eq 14 x 16, centre-crossing."""
    x = np.sqrt(1 - o.b**2) * o.R / (o.a * o.si)
    return o.P / np.pi * np.arcsin(x) * np.sqrt(1 - o.e**2) / (1 + o.e * o.sw), x


def eccentric(c):
    p = dict(c["p"], b=c["b"])
    orb = ref.Orbit(p)
    if np.any(orb.a * (1 - orb.e) < 1.5 * orb.R) or np.any(np.abs(orb.ci) > 0.9):
        raise SkipCase()
    T, x = ecc_duration(orb)
    if not np.all(x < 0.9):
        raise SkipCase()
    q = dict(c["p"], duration=np.asarray(T).tolist())
    o = make(q)
    bgot, ci, ainc = get(lambda: [o.b, o.cos_incl, o.incl], "b implied by an eccentric duration")
    b2 = np.asarray(c["b"], float) ** 2
    # the longest possible duration, b = 0, may be exceeded by its rounding: no such orbit
    nan = np.isnan(bgot)
    require(~nan | (b2 + np.zeros(bgot.shape) < 1e-11), "b implied by the duration is nan")
    if nan.any():
        raise SkipCase()
    # d(b^2)/d(T) is (1-b^2) * 2/T: relative rounding of T and aor only
    agree(bgot**2 + 0 * b2, b2 + np.zeros(bgot.shape), 0, 2e-12, "b^2 implied by the duration", shape=False)
    agree(ci, bgot * orb.dcosidb, 1e-12, 1e-300, "cos(incl) = b * dcosi/db")
    agree(np.cos(ainc), ci, 1e-9, 1e-14, "incl")
    # and the actual crossing duration, where the approximation is good (a/R large)
    e2 = ref.Orbit(dict(c["p"], b=np.asarray(bgot).tolist()))
    half = []
    good = (orb.a * (1 - orb.e) / orb.R > 15) & (np.asarray(c["b"]) < 0.8) & (orb.e < 0.6)
    if not np.all(good):
        return info(True, "formula only")
    n = orb.nplanets[0] if orb.nplanets else 1
    F = lambda v: np.broadcast_to(np.asarray(v, float), (n,))  # noqa: E731
    t0 = F(orb.t0)
    Tn = F(T)
    fr = np.linspace(0.8, 1.2, 81)
    t = np.concatenate([(t0[:, None] + s * 0.5 * Tn[:, None] * fr).ravel() for s in (-1, 1)])
    X, Y, Z = get(lambda: o.get_relative_position(t), "positions")
    S = np.hypot(X, Y).reshape((2, n, len(fr), n))[:, np.arange(n), :, np.arange(n)] / np.min(orb.R)
    # S: (n, 2, len(fr))
    dur = np.zeros(n)
    for i in range(n):
        for s in range(2):
            g = S[i, s] - 1
            require(g[0] < 0 < g[-1], "crossing duration differs from the requested one by > 20%")
            j = int(np.argmax(g > 0))
            dur[i] += 0.5 * (fr[j - 1] - g[j - 1] / (g[j] - g[j - 1]) * (fr[j] - fr[j - 1]))
    tol = 0.02 + 3 * F(orb.R / (orb.a * (1 - orb.e)))
    agree(dur, np.ones(n), 0, tol, "actual crossing duration / requested duration")
    return info(True, "formula and actual duration")


CHECKS = [
    Check("circular", circ_case(), circular, 800),
    Check("eccentric", ecc_case(), eccentric, 700),
]
