"""C04 every accepted parameterisation resolves to the same self-consistent system."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Check, agree, arr, info, require
from harness.props.c01 import days
from harness.sutorbit import get, make, squeeze

RULE = (
    "random accepted combinations of period/a/m_star/r_star/rho_star/m_planet with random "
    "orientation, then re-expressed through another accepted combination; non-trivial when the "
    "two specifications use different arguments (round_trip) or any stellar argument is given "
    "or defaulted (attributes: always)"
)
ASSUMPTIONS = ["astropy constants G, M_sun, R_sun"]
ATTRS = ["a", "period", "rho_star", "r_star", "m_star", "m_planet"]


@st.composite
def case(draw):
    p = gen.fix_b(draw(gen.system(wide=True)), ref)
    return dict(p=p, mode=draw(st.sampled_from(["raw"] * 9 + ["fast"])))


def bc(x, y):
    return np.broadcast_arrays(np.asarray(x, float), np.asarray(y, float))


def attributes(c):
    p = c["p"]
    o = make(p)
    orb = ref.Orbit(p)
    names = ATTRS + ["m_total", "incl", "b", "t0", "t_periastron", "n", "a_star", "a_planet"]
    vals = dict(zip(names, get(lambda: [getattr(o, k) for k in names], "attributes", c["mode"])))
    want = dict(a=orb.a, period=orb.P, rho_star=orb.rho, r_star=orb.R, m_star=orb.m,
                m_planet=orb.mp, m_total=orb.mt, n=orb.n, a_star=orb.A_star,
                a_planet=orb.A_planet, t0=orb.t0)
    for k, w in want.items():
        g, w = bc(vals[k], w)
        agree(g, w, 2e-12, 1e-13 if k == "t0" else 1e-300, k)
        if k in p and k != "rho_star":
            agree(vals[k], arr(p[k]), 1e-14, 0, f"{k} as given")
    g, w = bc(vals["t_periastron"], orb.tp)
    agree(g, w, 0, 1e-12 * (np.abs(orb.P) + np.abs(orb.t0)), "t_periastron")
    g, w = bc(np.cos(vals["incl"]), orb.ci)
    agree(g, w, 1e-12, 1e-14, "cos(incl)")
    g, w = bc(vals["b"], orb.b)
    agree(g, w, 1e-11, 1e-15 / np.min(orb.dcosidb), "b")
    # the laws themselves, on the code's own attributes
    G = ref.G
    lhs, rhs = bc(vals["period"] ** 2 * G * (vals["m_star"] + vals["m_planet"]),
                  4 * np.pi**2 * vals["a"] ** 3)
    agree(lhs, rhs, 1e-11, 0, "Kepler's third law")
    lhs, rhs = bc(vals["m_star"], 4 / 3 * np.pi * vals["r_star"] ** 3 * vals["rho_star"] / ref.GCC)
    agree(lhs, rhs, 1e-11, 0, "stellar density")
    if p.get("ecc") is None:
        require(o.ecc is None, "ecc attribute of a circular orbit")
    else:
        e, s, co = get(lambda: [o.ecc, o.sin_omega, o.cos_omega], "ecc attributes")
        agree(e, arr(p["ecc"]), 0, 0, "ecc as given")
        agree(s, orb.sw, 0, 1e-15, "sin_omega")
        agree(co, orb.cw, 0, 1e-15, "cos_omega")
        om = get(lambda: o.omega, "omega attribute")
        agree(np.angle(np.exp(1j * (om - orb.w))), 0 * orb.w, 0, 4e-15, "omega")
    if p.get("Omega") is not None:
        agree(get(lambda: o.Omega, "Omega attribute"), arr(p["Omega"]), 0, 0, "Omega as given")
    star = "+".join(k for k in ("rho_star", "m_star", "r_star") if k in p) or "no star"
    return info(True, star, "+".join(k for k in ("period", "a") if k in p),
                "massive" if "m_planet" in p else "massless")


TARGETS = [
    ("period", "m_star", "r_star"), ("period", "rho_star", "r_star"),
    ("period", "rho_star", "m_star"), ("a", "m_star", "r_star"), ("a", "rho_star", "r_star"),
    ("a", "rho_star", "m_star"), ("a", "period", "r_star"),
]


@st.composite
def rt_case(draw):
    p = gen.fix_b(draw(gen.system(wide=True)), ref)
    return dict(
        p=p, target=list(draw(st.sampled_from(TARGETS))),
        orient=draw(st.sampled_from(["incl", "b"])),
        sincos=draw(st.booleans()), peri=draw(st.booleans()),
        tau=draw(gen.times_s(1, 4)), mode=draw(st.sampled_from(["raw"] * 9 + ["fast"])),
    )


def round_trip(c):
    p = c["p"]
    orb = ref.Orbit(p)
    o = make(p)
    t = days(c["tau"], orb)
    q_attrs = list(c["target"]) + ["m_planet", c["orient"], "t_periastron" if c["peri"] else "t0"]
    vals = get(lambda: [getattr(o, k) for k in q_attrs], "attributes")
    q = dict(zip(q_attrs, vals))
    if p.get("ecc") is not None:
        if c["sincos"]:
            keys = ["ecc", "sin_omega", "cos_omega"]
        else:
            keys = ["ecc", "omega"]
        for k, v in zip(keys, get(lambda: [getattr(o, k) for k in keys], "ecc attributes")):
            q[k] = v
    if p.get("Omega") is not None:
        q["Omega"] = get(lambda: o.Omega, "Omega")
    if c["orient"] == "b" and np.any(np.abs(orb.si) < 1e-3):
        q.pop("b")  # b = a/R cos(i) cannot be inverted at an exactly face-on orbit
        q["incl"] = get(lambda: o.incl, "incl")
    o2 = make(q)
    names = ATTRS + ["t0", "t_periastron"]
    one = dict(zip(names, get(lambda: [getattr(o, k) for k in names], "attributes")))
    two = dict(zip(names, get(lambda: [getattr(o2, k) for k in names], "attributes of the re-built orbit")))
    P = one["period"]
    for k in names:
        g, w = bc(two[k], one[k])
        tol = 1e-11 * (np.abs(P) + np.abs(w)) if k in ("t0", "t_periastron") else 1e-300
        agree(g, w, 1e-11, tol, f"{k} after re-building from {sorted(q)}")
    a1, a2 = get(lambda: [list(o.get_relative_position(t)), list(o2.get_relative_position(t))][0]
                 + list(o2.get_relative_position(t)), "positions")[:3], None
    a2 = get(lambda: list(o2.get_relative_position(t)), "positions of the re-built orbit")
    # incl = arccos(cos i) loses sqrt(eps) near face-on; time tolerance as in ref
    n = orb.n
    dM = 1e-11 * n * (np.abs(orb.P) + np.abs(orb.t0) + np.abs(t)[..., None] if orb.nplanets
                      else np.abs(orb.P) + np.abs(orb.t0) + np.abs(t))
    amp = (1 + orb.e) ** 2 / (1 - orb.e**2) ** 1.5
    tol = squeeze(orb.a * (1 + orb.e) * (orb.angle_error(t) * 4 + dM * amp
                                        + (3e-8 if np.any(np.abs(orb.si) < 0.02) else 1e-11))
                  + 0 * orb.body_pos(1.0, t)[0])
    for ax, g, w in zip("XYZ", a2, a1):
        agree(g, w, 0, tol, f"{ax} after re-building from {sorted(q)}")
    return info(set(q) - set(p), "->".join(["+".join(sorted(set(p) & set(ATTRS))), "+".join(c["target"])]))


CHECKS = [
    Check("attributes", case(), attributes, 500),
    Check("round_trip", rt_case(), round_trip, 400),
]
