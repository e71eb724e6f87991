"""C15 transit timing variations."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref, refflux
from harness.core import (Check, LU, SkipCase, U, agree, arr, info, maybe, mix, require, sut, value,
                          vec)
from harness.env import xo
from harness.props.c12 import _u
from harness.sutorbit import get, make, make_ttv, squeeze

RULE = (
    "random TTV orbits (1-3 planets, 1-6 labelled transits each, differing numbers, missing and "
    "unordered labels, ttvs or transit_times, separate period, delta_log_period, circular and "
    "eccentric), offsets up to 10% of the period, times between and beyond the labelled "
    "transits; non-trivial when some offset is non-zero"
)
ASSUMPTIONS = ["times within rounding of the switch between two neighbouring transits are not judged"]


@st.composite
def case(draw, **kw):
    c = gen.ttv_fix_b(draw(gen.ttv_system(**kw)), ref)
    return dict(c, tau=draw(st.lists(mix(U(-2.0, 9.0), 0.0, 0.25), min_size=1, max_size=6)),
                u=_u(draw), k=draw(U(0.01, 0.2)),
                dx=draw(vec(mix(U(-1.2, 1.2), 0.0), 3)), body=draw(st.integers(0, 2)),
                mode=draw(st.sampled_from(["raw"] * 9 + ["fast"])))


def _labels(c):
    off = c.get("ttvs") or [[1.0]]
    nz = c.get("transit_times") is not None or any(any(x) for x in off)
    lab = ["ttvs" if c.get("ttvs") is not None else "times",
           "labels" if c.get("transit_inds") else "consecutive"]
    if c.get("delta_log_period") is not None:
        lab.append("delta_log_period")
    if c.get("transit_times") is not None and "period" in c["p"]:
        lab.append("separate period")
    return info(nz, *lab)


def ephemeris(c):
    orb = ref.TTV(c)
    o = make_ttv(c)
    n = orb.nplanets[0]
    F = lambda v: np.broadcast_to(np.asarray(v, float), (n,))  # noqa: E731
    outs = get(lambda: [o.ttv_period, o.period, o.t0] + list(o.transit_times) + list(o.ttvs),
               "ephemeris")
    scale = max(np.max(np.abs(x)) for x in orb.all_times) + np.max(orb.ttv_period)
    tol = orb.fit_error + 1e-15 * scale
    agree(outs[0], orb.ttv_period, 0, tol, "ttv_period")
    agree(outs[2], F(orb.t0), 0, tol * 4, "t0")
    agree(outs[1], F(orb.P), 1e-13, tol, "period")
    for i in range(n):
        agree(outs[3 + i], orb.times[i], 0, 1e-14 * scale, f"transit_times of planet {i}")
        agree(outs[3 + n + i], orb.ttvs[i], 0, 1e-14 * scale + tol[i] * (1 + orb.inds[i].max()) * 2,
              f"ttvs of planet {i}")
    return _labels(c)


def transits(c):
    """Conjunction at every labelled transit."""
    orb = ref.TTV(c)
    o = make_ttv(c)
    n = orb.nplanets[0]
    for i in range(n):
        t = orb.times[i]
        X, Y, Z, b, R, incl = get(lambda: list(o.get_relative_position(t)) + [o.b, o.r_star, o.incl],
                                  "positions at the transit times", c["mode"])
        sh = (len(t), n)
        X, Y, Z = [np.reshape(q, sh)[:, i] for q in (X, Y, Z)]
        P = lambda v: np.broadcast_to(np.squeeze(np.asarray(v, float)), (n,))[i]  # noqa: E731
        tol = P(orb.a * (1 + orb.e)) * (orb.angle_error(t)[:, i]) * 2 + 1e-12
        Om = P(orb.Om)
        agree(np.cos(Om) * X + np.sin(Om) * Y, 0 * X, 0, tol, f"conjunction of planet {i}")
        agree(np.hypot(X, Y), abs(P(b)) * P(R) + 0 * X, 0, tol, f"impact parameter of planet {i}")
        si = abs(np.sin(P(incl)))
        require((Z > 0) | (si * P(orb.a) * (1 - P(orb.e)) < tol), "behind the star at a transit")
    return _labels(c)


def motion(c):
    """Everything is the Keplerian motion about the nearest transit."""
    orb = ref.TTV(c)
    o = make_ttv(c)
    t = np.min(orb.t0) + np.asarray(c["tau"]) * np.max(orb.ttv_period)
    gap = orb.nearest(t)[1]
    t = t[np.all(gap > 1e-9 + 1e-12 * np.abs(t)[:, None] + orb.fit_error * 20, axis=-1)]
    if len(t) == 0:
        raise SkipCase()
    pos, vel, A = [("get_relative_position", "get_relative_velocity", orb.A_rel),
                   ("get_planet_position", "get_planet_velocity", orb.A_planet),
                   ("get_star_position", "get_star_velocity", orb.A_star)][c["body"]]
    got = get(lambda: list(getattr(o, pos)(t)) + list(getattr(o, vel)(t)), "motion", c["mode"])
    err = orb.angle_error(t)
    tp = np.abs(A) * (1 + orb.e) * err
    tv = np.abs(A) * orb.n / np.sqrt(1 - orb.e**2) * err * 2
    tv = tv + np.abs(A) * orb.n / np.sqrt(1 - orb.e**2) * 2 * orb.fit_error / orb.P * 10
    wp, wv = orb.body_pos(A, t), orb.body_vel(A, t)
    ferr = 2 * orb.fit_error / orb.P * np.abs(A) * 3
    for j, ax in enumerate("XYZ"):
        agree(got[j], squeeze(wp[j]), 0, squeeze(tp + ferr + 0 * wp[j]) + 1e-300, f"{pos} {ax}")
        agree(got[3 + j], squeeze(wv[j]), 1e-13, squeeze(tv + 0 * wv[j]) + 1e-300, f"{vel} {ax}")
    return _labels(c)


def light_curve(c):
    orb = ref.TTV(c)
    o = make_ttv(c)
    n = orb.nplanets[0]
    R = np.ravel(orb.R)
    a, e = np.broadcast_to(orb.a, (n,)), np.broadcast_to(orb.e, (n,))
    if np.ptp(R) > 0 or np.any(a * (1 - e) < 1.3 * R[0] * (1 + c["k"])):
        raise SkipCase()
    R = R[0]
    t = []
    for i in range(n):
        v = (a * orb.n / np.sqrt(1 - e**2) * (1 + e * np.sin(orb.w)))[i]
        tt = orb.all_times[i]
        for j, x in enumerate(c["dx"]):
            t.append(tt[(7 * j + i) % len(tt)] + x * R * (1 + c["k"]) / v)
    t = np.array(t)
    gap = orb.nearest(t)[1]
    t = t[np.all(gap > 0.2 * orb.ttv_period, axis=-1)]
    if len(t) == 0:
        raise SkipCase()
    X, Y, Z = orb.body_pos(orb.A_rel, t)
    err = orb.angle_error(t) * orb.a * (1 + orb.e) + 0 * X
    sep = np.hypot(X, Y) / R
    if np.any((np.abs(Z) < 3 * err) & (sep < 1 + c["k"])) or refflux.unsafe(sep, c["k"]):
        raise SkipCase()
    want = np.where(Z > 0, refflux.transit(sep, c["k"], *c["u"]), 0.0)
    lc = xo.LimbDarkLightCurve(*c["u"])
    got = get(lambda: lc.get_light_curve(orbit=o, r=np.full(n, c["k"] * R), t=t), "light curve",
              c["mode"])
    agree(got, want, 0, 2e-9 + 3 * err / R, "light curve of a TTV orbit")
    return info(np.any(want < 0))


@st.composite
def zero_case(draw):
    c = draw(gen.ttv_system(modes=("ttvs",), max_planets=3))
    c = gen.ttv_fix_b(c, ref)
    c["ttvs"] = [[0.0] * len(x) for x in c["ttvs"]]
    return dict(c, as_times=draw(st.booleans()),
                tau=draw(st.lists(U(-5.0, 15.0), min_size=1, max_size=6)))


def zero(c):
    """No offsets: the plain orbit, at every time, labelled or not."""
    p = c["p"]
    plain = make(p)
    orb = ref.Orbit(p)
    P, t0 = np.asarray(p["period"]), np.broadcast_to(np.asarray(p.get("t0", 0.0)), np.shape(p["period"]))
    d = {k: v for k, v in c.items() if k not in ("as_times", "tau")}
    if c["as_times"] and all(len(x) > 1 for x in c["ttvs"]):
        inds = c["transit_inds"] or [list(range(len(x))) for x in c["ttvs"]]
        d["transit_times"] = [(t0[i] + P[i] * np.asarray(x)).tolist() for i, x in enumerate(inds)]
        del d["ttvs"]
        d["p"] = {k: v for k, v in p.items() if k not in ("period", "t0")}
    o = make_ttv(d)
    t = np.min(t0) + np.asarray(c["tau"]) * np.max(P)
    a_, b_ = get(lambda: o.get_relative_position(t), "TTV orbit"), get(
        lambda: plain.get_relative_position(t), "plain orbit")
    fe = ref.TTV(d).fit_error if "transit_times" in d else 0.0
    amp = (1 + orb.e) ** 2 / (1 - orb.e**2) ** 1.5
    dt = np.abs(t)[:, None] + np.abs(t0) + 20 * P
    err = orb.angle_error(t) * 3 + amp * orb.n * (fe * 30 + dt / P * fe * 2)
    M = orb._M(t)
    err = err + (0 if orb.circ else ref.solver_error(M + 1e-9, orb.e) + ref.solver_error(M, orb.e))
    tol = orb.a * (1 + orb.e) * err + 10 * orb.a * fe / P
    for ax, x, y in zip("XYZ", a_, b_):
        agree(x, y, 0, squeeze(tol + np.zeros((len(t), len(P)))), f"{ax} with zero offsets")
    return info(True, "times" if "transit_times" in d else "ttvs")


CHECKS = [
    Check("ephemeris", case(), ephemeris, 300),
    Check("far_labels", case(max_ind=120000, period=(0.1, 3.0)), ephemeris, 80),
    Check("far_transits", case(max_ind=120000, period=(0.1, 3.0)), transits, 60),
    Check("transits", case(), transits, 350),
    Check("motion", case(), motion, 450),
    Check("light_curve", case(orient=("b", "b", "none"), bmax=1.1, max_ecc=0.6), light_curve, 250),
    Check("zero", zero_case(), zero, 250),
]
