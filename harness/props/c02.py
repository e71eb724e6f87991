"""C02 velocities and accelerations: Newtonian two-body dynamics."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Check, agree, info, require
from harness.props.c01 import days
from harness.sutorbit import get, make, squeeze

RULE = (
    "random valid orbits (scalar or 1-5 planets, circular/eccentric, massless and massive) and "
    "1-10 times; every case is non-trivial (all nine vectors are compared); labels count "
    "massless/massive and circular/eccentric"
)
ASSUMPTIONS = ["astropy constant G", "float64 rounding bounds in ref.angle_error"]


@st.composite
def case(draw, **kw):
    kw.setdefault("max_ecc", 0.999)
    kw.setdefault("wide", True)
    p = gen.fix_b(draw(gen.system(**kw)), ref)
    return dict(p=p, tau=draw(gen.times_s(1, 8)),
                mode=draw(st.sampled_from(["raw"] * 9 + ["fast"])))


def _tols(orb, t):
    err = orb.angle_error(t) + 1e-14
    one = 0 * err
    e, a, n = orb.e, orb.a, orb.n
    return (
        a * (1 + e) * err + one,
        n * a / np.sqrt(1 - e**2) * err * 2 + one,
        n**2 * a * (1 + e) ** 2 / (1 - e**2) ** 2 * err * 4 + one,
    )


def derivatives(c):
    orb = ref.Orbit(c["p"])
    t = days(c["tau"], orb)
    o = make(c["p"])
    names = [
        f"get_{b}_{q}" for b in ("relative", "planet", "star")
        for q in ("velocity", "acceleration")
    ]
    flat = get(lambda: [x for n in names for x in getattr(o, n)(t)], "kinematics", c["mode"])
    tp, tv, ta = _tols(orb, t)
    k = 0
    for body, A in (("relative", orb.A_rel), ("planet", orb.A_planet), ("star", orb.A_star)):
        for q, fn, tol in (("velocity", orb.body_vel, tv), ("acceleration", orb.body_acc, ta)):
            want = fn(A, t)
            fac = np.abs(A) / orb.a
            for ax, w in zip("XYZ", want):
                agree(flat[k], squeeze(w), 1e-13, squeeze(tol * fac + 0 * w) + 1e-300,
                      f"{body} {q} {ax}")
                k += 1
    return info(True, "circ" if orb.circ else "ecc",
                "massless" if np.all(orb.mp == 0) else "massive")


def invariants(c):
    """Relations between the code's own outputs only (masses and a from its attributes)."""
    o = make(c["p"])
    orb = ref.Orbit(c["p"])
    t = days(c["tau"], orb)
    ms = [f"get_{b}_{q}" for q in ("position", "velocity", "acceleration")
          for b in ("relative", "planet", "star")]

    def f():
        out = []
        for n in ms:
            out += list(getattr(o, n)(t))
        return out + [o.m_star, o.m_planet, o.a, o.m_total, o.period]

    flat = get(f, "state vectors", c["mode"])
    V = {n: np.array(flat[3 * i : 3 * i + 3]) for i, n in enumerate(ms)}
    mstar, mp, a, mt, P = flat[27:]
    # planet axis is last unless it was squeezed away
    sh = V["get_relative_position"].shape[1:]
    lay = np.zeros(t.shape + (orb.nplanets or ()))

    def lift(x):
        return np.squeeze(x + lay)

    mstar, mp, a, mt, P = [lift(x) for x in (mstar, mp, a, mt, P)]
    require(V["get_relative_position"].shape[1:] == np.squeeze(lay).shape,
            f"layout {sh} vs {np.squeeze(lay).shape}")
    tols = [squeeze(x + lay) for x in _tols(orb, t)]
    for q, tol in zip(("position", "velocity", "acceleration"), tols):
        rel, pl, st_ = (V[f"get_{b}_{q}"] for b in ("relative", "planet", "star"))
        require(np.all(np.isfinite(np.stack([rel, pl, st_]))), f"non-finite {q}")
        agree(rel, pl - st_, 1e-12, 1e-12 * np.abs(pl).max() + 1e-300, f"relative {q} = planet - star")
        agree(mstar * st_ + mp * pl, 0 * rel, 0,
              1e-12 * np.broadcast_to(mp * np.abs(pl).max(0), rel.shape) + 1e-300,
              f"barycentre {q}")
        scale = np.sqrt((rel**2).sum(0))
        require(np.all(scale >= 0), q)
    r, v, acc = (V[f"get_relative_{q}"] for q in ("position", "velocity", "acceleration"))
    R = np.sqrt((r**2).sum(0))
    GM = ref.G * (mstar + mp)
    agree(mt, mstar + mp, 1e-14, 0, "m_total")
    rerr = tols[0] / R + 1e-12
    agree(acc, -GM * r / R**3, 0, GM / R**2 * (6 * rerr), "gravity")
    E0 = -GM / (2 * a)
    agree((v**2).sum(0) / 2 - GM / R, E0, 0,
          (GM / R + (v**2).sum(0)) * (8 * rerr) , "energy (vis-viva)")
    L = np.array([r[1] * v[2] - r[2] * v[1], r[2] * v[0] - r[0] * v[2], r[0] * v[1] - r[1] * v[0]])
    e = lift(orb.e)
    # size of the angular momentum
    agree(np.sqrt((L**2).sum(0)), np.sqrt(GM * a * (1 - e**2)), 0,
          R * np.sqrt((v**2).sum(0)) * 8 * rerr, "angular momentum")
    return info(True, "circ" if orb.circ else "ecc",
                "massless" if np.all(orb.mp == 0) else "massive")


CHECKS = [
    Check("derivatives", case(), derivatives, 600),
    Check("invariants", case(), invariants, 450),
]
