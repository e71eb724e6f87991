"""C01 orbit geometry against an independent Kepler solver."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Check, U, LU, agree, info, maybe, mix, vec
from harness.sutorbit import get, make, out_shape, squeeze

RULE = (
    "random valid orbit specifications (parameterisation, scalar/vector parameters, 1-5 "
    "planets, e in [0, 0.999], any omega/incl/Omega) and times up to 100 periods away; a case is "
    "non-trivial when the sky positions differ between at least two instants or the time is a "
    "special phase"
)
ASSUMPTIONS = ["astropy constants G, c, R_sun, au", "float64 rounding bounds in ref.angle_error"]


@st.composite
def case(draw, **kw):
    kw.setdefault("max_ecc", 0.999)
    kw.setdefault("wide", True)
    p = gen.fix_b(draw(gen.system(**kw)), ref)
    shape = draw(st.sampled_from(["scalar", "vector", "vector", "matrix"]))
    if shape == "scalar":
        tau = draw(mix(U(-3.0, 3.0), 0.0, 0.5, 1.0, 100.0))
    elif shape == "vector":
        tau = draw(gen.times_s(1, 10))
    else:
        k = draw(st.integers(1, 3))
        tau = draw(st.lists(vec(U(-3.0, 3.0), k), min_size=1, max_size=3))
    return dict(p=p, tau=tau, parallax=draw(maybe(LU(1e-3, 0.8))),
                mode=draw(st.sampled_from(["raw"] * 9 + ["fast"])))


def days(tau, orb):
    tau = np.asarray(tau, float)
    return tau * np.max(orb.P) + np.min(orb.t0)


def positions(c):
    orb = ref.Orbit(c["p"])
    t = days(c["tau"], orb)
    o = make(c["p"])
    px = c["parallax"]
    kw = {} if px is None else dict(parallax=px)
    scale = 1.0 if px is None else px * ref.AU_PER_RSUN
    err = orb.angle_error(t) * (1 + orb.e)
    bodies = (
        ("get_relative_position", orb.A_rel),
        ("get_planet_position", orb.A_planet),
        ("get_star_position", orb.A_star),
    )
    allgot = get(
        lambda: [x for name, _ in bodies for x in getattr(o, name)(t, **kw)],
        "positions", c["mode"],
    )
    for k, (name, A) in enumerate(bodies):
        got = allgot[3 * k : 3 * k + 3]
        want = orb.body_pos(A, t)
        tol = squeeze(np.abs(A) * scale * err + 0 * want[0]) + 1e-300
        for ax, g, w in zip("XYZ", got, want):
            agree(g, squeeze(w * scale), 0, tol, f"{name} {ax}")
    return info(
        True, "circ" if orb.circ else "ecc", "parallax" if px else "no parallax",
        f"{np.ndim(t)}-d times, {orb.nplanets[0] if orb.nplanets else 'scalar'} planets",
    )


def angles(c):
    orb = ref.Orbit(c["p"])
    t = days(c["tau"], orb)
    o = make(c["p"])
    px = c["parallax"]
    kw = {} if px is None else dict(parallax=px)
    scale = 1.0 if px is None else px * ref.AU_PER_RSUN
    rho, theta = get(lambda: o.get_relative_angles(t, **kw), "get_relative_angles")
    X, Y, Z = [w * scale for w in orb.body_pos(orb.A_rel, t)]
    err = squeeze(orb.a * scale * (1 + orb.e) * orb.angle_error(t) + 0 * X)
    want = squeeze(np.hypot(X, Y))
    agree(rho, want, 0, 2 * err, "separation")
    th = squeeze(np.arctan2(Y, X))
    if theta.shape != th.shape:
        agree(theta, th, what="position angle")
    # compare on the circle; the angle is ill conditioned where the separation vanishes
    d = np.angle(np.exp(1j * (theta - th)))
    with np.errstate(all="ignore"):
        tol = 4 * err / np.maximum(want, 1e-300) + 1e-14
    ok = (tol > 0.1) | (np.abs(d) <= tol)
    agree(np.where(ok, 0.0, d), np.zeros_like(d), 0, 0, "position angle difference")
    agree(np.abs(theta) <= np.pi + 1e-12, np.ones_like(theta), what="position angle range")
    return info(True, "circ" if orb.circ else "ecc")


@st.composite
def ta_case(draw):
    n = draw(st.integers(1, 6))
    return dict(
        M=draw(vec(mix(U(-30.0, 30.0), 0.0, np.pi, -np.pi, 1e-8, 2 * np.pi), n)),
        e=draw(vec(mix(U(0.0, 0.98), 0.0, 0.9, 0.99), n)),
    )


def true_anomaly(c):
    from harness.env import xo

    M, e = np.array(c["M"]), np.array(c["e"])
    f = get(lambda: xo.orbits.get_true_anomaly(M, e), "get_true_anomaly")
    s, co = ref.anomalies(M, e)
    amp = (1 + e) ** 2 / (1 - e**2) ** 1.5
    tol = 8 * ref.EPS * (np.abs(M) + 10) * amp + 1e-13 * amp + ref.solver_error(M, e)
    agree(np.sin(f), s, 0, tol, "sin f")
    agree(np.cos(f), co, 0, tol, "cos f")
    agree(np.abs(f) <= np.pi + 1e-12, np.ones_like(f), what="range of f")
    # inverse direction: Kepler's equation recovered from f
    E = 2 * np.arctan2(np.sqrt(1 - e) * np.sin(f / 2), np.sqrt(1 + e) * np.cos(f / 2))
    d = np.angle(np.exp(1j * (E - e * np.sin(E) - M)))
    agree(d, np.zeros_like(d), 0, 4 * tol, "Kepler's equation residual")
    return info(np.any(e > 0))


CHECKS = [
    Check("positions", case(), positions, 900),
    Check("angles", case(), angles, 500),
    Check("true_anomaly", ta_case(), true_anomaly, 800),
]
