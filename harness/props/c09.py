"""C09 light travel time delay."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref, refflux
from harness.core import Check, LU, SkipCase, U, agree, arr, info, maybe, mix, require, sut, vec
from harness.env import xo
from harness.props.c01 import days
from harness.sutorbit import get, make, make_ttv, squeeze

RULE = (
    "random orbits (e to 0.95, masses, any orientation, scalar/vector), random times "
    "(scalar/vector/matrix), parallax or not, TTV orbits away from the switch between two "
    "transits; non-trivial when the delay moves some body by more than 100 tolerances"
)
ASSUMPTIONS = [
    "second-order accuracy in v/c is the documented accuracy; the allowed error is the "
    "third-order term of the expansion of Z(t')",
    "astropy constants G, c",
]


def delayed(orb, A, t):
    """Reference position at t' = t + Z(t')/c, and the tolerance of a second-order expansion."""
    t = np.asarray(t, float)
    tt = t[..., None] if orb.nplanets else t
    tt = tt + np.zeros(orb.nplanets)
    te = tt
    for _ in range(60):
        new = tt + orb.body_pos(A, te, pad=False)[2] / ref.C_LIGHT
        if np.array_equal(new, te):
            break
        te = new
    d = np.abs(te - tt)
    s = np.abs(A) / orb.a
    r = np.inf
    GM = ref.G * orb.mt
    for f in (-2, -1, -0.5, 0, 0.5, 1, 2):
        x = orb.body_pos(orb.A_rel, tt + f * d, pad=False)
        r = np.minimum(r, np.sqrt(x[0] ** 2 + x[1] ** 2 + x[2] ** 2))
    v = np.sqrt(GM * (2 / r - 1 / orb.a))
    ddelay = s * 4 * GM * v / r**3 * d**3 / 6 / ref.C_LIGHT * 1.5
    rnd = orb.angle_error(t)
    scale = np.abs(t)[..., None] if orb.nplanets else np.abs(t)
    tol = s * v * ddelay + np.abs(A) * (1 + orb.e) * rnd * 2 + s * v * (scale + d) * 4e-16
    # the delay itself is only as good as the undelayed z
    tol = tol + s * v / ref.C_LIGHT * np.abs(A) * (1 + orb.e) * rnd * 2
    if not orb.circ:
        tol = tol + np.abs(A) * (1 + orb.e) * ref.solver_error(orb._M(te, pad=False), orb.e)
    return te, orb.body_pos(A, te, pad=False), tol + 1e-300


@st.composite
def case(draw):
    p = gen.fix_b(draw(gen.system(max_planets=3)), ref)
    shape = draw(st.sampled_from(["scalar", "vector", "vector", "matrix"]))
    if shape == "scalar":
        tau = draw(mix(U(-3.0, 3.0), 0.0, 0.25, 0.5, 0.75))
    elif shape == "vector":
        tau = draw(gen.times_s(1, 8))
    else:
        tau = draw(st.lists(vec(U(-3.0, 3.0), 2), min_size=1, max_size=3))
    return dict(p=p, tau=tau, parallax=draw(maybe(LU(1e-3, 0.8))),
                body=draw(st.integers(0, 2)),
                mode=draw(st.sampled_from(["raw"] * 9 + ["fast"])))


BODIES = (("get_relative_position", "A_rel"), ("get_planet_position", "A_planet"),
          ("get_star_position", "A_star"))


def _compare(c, orb, o, t):
    px = c.get("parallax")
    kw = {} if px is None else dict(parallax=px)
    scale = 1.0 if px is None else px * ref.AU_PER_RSUN

    name, an = BODIES[c["body"]]
    angles = c["body"] == 0

    def outs():
        r = list(getattr(o, name)(t, light_delay=True, **kw))
        return r + (list(o.get_relative_angles(t, light_delay=True, **kw)) if angles else [])

    got = get(outs, "delayed positions", c["mode"])
    A = getattr(orb, an)
    te, want, tol = delayed(orb, A, t)
    plain = orb.body_pos(A, t)
    moved = False
    for ax, g, w, w0 in zip("XYZ", got, want, plain):
        agree(g, squeeze(w * scale), 0, squeeze((tol + 0 * w) * scale), f"{name} {ax}")
        moved |= bool(np.any(np.abs(w - w0) > 100 * tol))
    if angles:
        X, Y = got[0], got[1]
        agree(got[3], np.hypot(X, Y), 1e-14, 1e-300, "separation")
        d = got[4] - np.arctan2(Y, X)
        agree(np.sin(0.5 * d), 0 * d, 0, 1e-13, "position angle")
    return moved


def positions(c):
    orb = ref.Orbit(c["p"])
    t = days(c["tau"], orb)
    moved = _compare(c, orb, make(c["p"]), t)
    return info(moved, "circ" if orb.circ else "ecc", f"ndim{t.ndim}",
                "parallax" if c["parallax"] else "R_sun")


@st.composite
def ttv_case(draw):
    c = gen.ttv_fix_b(draw(gen.ttv_system(max_planets=3)), ref)
    return dict(c, tau=draw(st.lists(U(-2.0, 9.0), min_size=1, max_size=6)),
                parallax=draw(maybe(LU(1e-3, 0.8))), body=draw(st.integers(0, 2)), mode="raw")


def ttv(c):
    orb = ref.TTV(c)
    i = 0
    t = np.min(orb.t0) + np.asarray(c["tau"]) * np.max(orb.ttv_period)
    # the emission time must belong to the same transit
    gap = orb.nearest(t)[1]
    lim = 2 * np.max(orb.a * (1 + orb.e)) / ref.C_LIGHT + 1e-6
    t = t[np.all(gap > lim, axis=-1)]
    if len(t) == 0:
        raise SkipCase()
    moved = _compare(c, orb, make_ttv(c), t)
    return info(moved, "ttvs" if c.get("ttvs") is not None else "times")


@st.composite
def lc_case(draw):
    p = gen.fix_b(draw(gen.system(max_planets=2, orient=("b", "b", "none"), bmax=0.9,
                                  max_ecc=0.8, Omega=False, period=(1.0, 1000.0))), ref)
    tt = None
    if draw(st.integers(0, 3)) == 0:
        tt = gen.ttv_fix_b(draw(gen.ttv_system(max_planets=2, orient=("b",), bmax=0.9,
                                               max_ecc=0.7)), ref)
    return dict(p=p, ttv=tt, k=draw(U(0.02, 0.3)), u=[draw(U(0.0, 0.6)), draw(U(0.0, 0.4))],
                x=draw(vec(mix(U(-1.3, 1.3), 0.0), 5)), texp=draw(maybe(U(0.05, 0.6))),
                order=draw(st.integers(0, 2)), n=draw(st.integers(-2, 2)))


def light_curve(c):
    orb = ref.Orbit(c["p"]) if c["ttv"] is None else ref.TTV(c["ttv"])
    o = make(c["p"]) if c["ttv"] is None else make_ttv(c["ttv"])
    # observed mid-transit of the first planet: t' = t0 with Z > 0 -> t = t0 - Z/c
    first = lambda x: float(np.ravel(np.broadcast_to(x, orb.nplanets or (1,)))[0])  # noqa: E731
    P = first(orb.P)
    t0 = first(orb.t0) if c["ttv"] is None else float(orb.all_times[0][0])
    tc = t0 + (c["n"] * P if c["ttv"] is None else 0.0)
    te = np.array([tc]) if not orb.nplanets else np.full((1,) + orb.nplanets, tc)
    z = first(orb.body_pos(orb.A_rel, te, pad=False)[2][0])
    v = orb.body_vel(orb.A_rel, te, pad=False)
    v = first(np.hypot(np.hypot(v[0], v[1]), v[2])[0])
    R = float(np.max(orb.R)) if np.size(orb.R) == 1 else None
    if R is None:
        raise SkipCase()
    half = R * (1 + c["k"]) / v
    t = tc - z / ref.C_LIGHT + np.asarray(c["x"]) * half
    # keep clear of the switch between two labelled transits
    if c["ttv"] is not None:
        gap = orb.nearest(t)[1]
        if np.any(gap < 2 * np.max(orb.a * (1 + orb.e)) / ref.C_LIGHT + 2 * half):
            raise SkipCase()
    texp = None if c["texp"] is None else c["texp"] * half
    lc = xo.LimbDarkLightCurve(*c["u"])
    kw = {} if texp is None else dict(texp=texp, order=c["order"], oversample=5)
    n = orb.nplanets[0] if orb.nplanets else 1
    r = np.full(n, c["k"] * R)
    got = get(lambda: lc.get_light_curve(orbit=o, r=r, t=t, light_delay=True, **kw),
              "light curve with light_delay")
    if texp is None:
        grid, w = t, None
    else:
        S = 5
        if c["order"] == 0:
            off, w = (np.arange(S) + 0.5) / S - 0.5, np.ones(S)
        else:
            off = np.linspace(-0.5, 0.5, S)
            w = np.array([1, 2, 2, 2, 1.0]) if c["order"] == 1 else np.array([1, 4, 2, 4, 1.0])
        w = w / w.sum()
        grid = t[:, None] + texp * off
    _, (X, Y, Z), tol = delayed(orb, orb.A_rel, grid)
    tol = tol + 0 * X
    if not orb.nplanets:
        X, Y, Z, tol = X[..., None], Y[..., None], Z[..., None], tol[..., None]
    sep = np.hypot(X, Y) / R
    if np.any((np.abs(Z) <= 2 * tol) & (sep < 1.01 + c["k"])):
        raise SkipCase()
    if refflux.unsafe(sep, c["k"]):
        raise SkipCase()
    f = refflux.light_curve(X / R, Y / R, Z, c["k"], *c["u"])
    e = 3 * tol / R * np.minimum(1.0, 4 * c["k"]) + 3e-13
    if w is not None:
        f, e = (f * w[None, :, None]).sum(1), (e * w[None, :, None]).sum(1)
    agree(got, f, 0, e, "light curve of the delayed positions")
    return info(np.any(f < 0), "ttv" if c["ttv"] else "kepler", "texp" if texp else "instant")


CHECKS = [
    Check("positions", case(), positions, 700),
    Check("ttv", ttv_case(), ttv, 240),
    Check("light_curve", lc_case(), light_curve, 250),
]
