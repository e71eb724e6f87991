"""C14 secondary eclipse light curves."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref, refflux
from harness.core import (Check, LU, SkipCase, U, agree, arr, info, maybe, mix, require, sut, value,
                          vec)
from harness.env import xo
from harness.props.c12 import _u
from harness.props.c13 import rule
from harness.sutorbit import get, make

RULE = (
    "random orbits of one companion (scalar or length-one parameters, e to 0.8, any omega, "
    "Omega, masses), radius ratio 0.005-1.5, brightness ratio 0-10, times around the transit "
    "and around the eclipse, exposures; non-trivial when a transit or an eclipse is sampled; systems of 2-4 companions against each companion "
    "alone; and each light curve, delayed or not, against the two transits of the system and of the "
    "system with its bodies exchanged"
)
ASSUMPTIONS = ["quadrature occultation oracle (1e-12)", "ref.Orbit"]


@st.composite
def case(draw):
    p = draw(gen.system(max_planets=1, orient=("b", "b", "b", "none", "incl"), bmax=1.1, max_ecc=0.8,
                        period=(2.0, 500.0)))
    k = draw(mix(LU(0.005, 1.5), 0.1, 1.0))
    if p.get("ecc") is not None:
        o = ref.Orbit(p)
        lim = max(0.0, float(np.min(1 - 1.3 * o.R * (1 + k) / o.a)))
        e = np.minimum(np.asarray(p["ecc"], float), lim)
        p["ecc"] = e.tolist()
    p = gen.fix_b(p, ref)
    if "incl" in p:
        d = draw(mix(U(-0.05, 0.05), 0.0))
        p["incl"] = (0 * np.asarray(p["incl"]) + 0.5 * np.pi + d).tolist()
    m = draw(st.integers(1, 8))
    pts = [dict(at=draw(st.sampled_from(["transit", "transit", "eclipse", "eclipse", "eclipse", "any"])),
                x=draw(mix(U(-1.3, 1.3), 0.0)), n=draw(mix(st.integers(-3, 3), 0, 500)))
           for _ in range(m)]
    tx = draw(st.sampled_from(["none", "none", "scalar", "vector"]))
    texp = None if tx == "none" else draw(U(0.01, 0.5)) if tx == "scalar" else draw(
        vec(U(0.01, 0.5), m))
    return dict(p=p, k=k, u1=_u(draw), u2=_u(draw), s=draw(mix(LU(1e-4, 10.0), 0.0, 1.0)),
                pts=pts, texp=texp, order=draw(st.integers(0, 2)),
                oversample=draw(st.integers(2, 9)), uit=draw(st.sampled_from([None, True, False])),
                omit=draw(st.integers(0, 4)) == 0, rvec=draw(st.booleans()), mode=draw(st.sampled_from(["raw"] * 9 + ["fast"])))


def eclipses(c):
    p = c["p"]
    orb = ref.Orbit(p)
    one = lambda x: float(np.ravel(x)[0])  # noqa: E731
    R, a, e, P, n, w = [one(x) for x in (orb.R, orb.a, orb.e, orb.P, orb.n, orb.w)]
    t0, tp = one(orb.t0), one(orb.tp)
    k = c["k"]
    r = k * R
    if a * (1 - e) < 1.2 * (R + r):
        raise SkipCase()
    # mid-eclipse: omega + f = -pi/2
    f = -0.5 * np.pi - w
    E = np.arctan2(np.sqrt(1 - e**2) * np.sin(f), e + np.cos(f))
    te = tp + (E - e * np.sin(E)) / n
    v = a * n / np.sqrt(1 - e**2)
    half = (R + r) / v * np.sqrt(1 - e**2)
    if half > 0.1 * P:
        raise SkipCase()
    t = []
    for q in c["pts"]:
        c0 = dict(transit=t0, eclipse=te, any=t0)[q["at"]]
        span = half if q["at"] != "any" else 0.38 * P
        t.append(c0 + q["n"] * P + q["x"] * span)
    t = np.array(t)
    texp = None
    if c["texp"] is not None:
        texp = np.asarray(c["texp"]) * half if np.ndim(c["texp"]) else c["texp"] * half
    o = make(p)
    with sut("SecondaryEclipseLightCurve"):
        lc = xo.SecondaryEclipseLightCurve(c["u1"], c["u2"], c["s"])
    # (the documented defaults when these are omitted)
    rule_kw = {} if c.get("omit") else dict(order=c["order"], oversample=c["oversample"])
    kw = {} if texp is None else dict(texp=texp, **rule_kw)
    if c["uit"] is not None:
        kw["use_in_transit"] = c["uit"]
    rr = np.array([r]) if c["rvec"] else r
    got = get(lambda: lc.get_light_curve(orbit=o, r=rr, t=t, **kw), "secondary eclipse", c["mode"])
    if texp is None:
        x, wt = np.zeros(1), np.ones(1)
    else:
        x, wt = rule(rule_kw.get("order", 0), rule_kw.get("oversample", 7))
    grid = t[:, None] + np.broadcast_to(np.asarray(0.0 if texp is None else texp),
                                        t.shape)[:, None] * x
    X, Y, Z = [q.reshape(grid.shape) for q in orb.body_pos(orb.A_rel, grid.ravel())]
    err = (orb.angle_error(grid.ravel()) * orb.a * (1 + orb.e)).reshape(grid.shape)
    sep = np.hypot(X, Y)
    if np.any((np.abs(Z) < 3 * err) & (sep < R + r)):
        raise SkipCase()
    if refflux.unsafe(sep / R, k) or refflux.unsafe(sep / r, 1 / k):
        raise SkipCase()
    F = c["s"] * k**2
    l1 = np.where(Z > 0, refflux.transit(sep / R, k, *c["u1"]), 0.0)
    l2 = np.where(Z < 0, refflux.transit(sep / r, 1 / k, *c["u2"]), 0.0)
    tr, ec = (l1 * wt).sum(1), (l2 * wt).sum(1)
    want = (tr + F * ec) / (1 + F)
    tol = 2e-9 + ((3 * err / R + F / (1 + F) * 3 * err / r) * wt).sum(1)
    agree(got, want[:, None], 0, tol[:, None], "secondary eclipse light curve")
    require(got >= -1 - 1e-9, "flux below zero")
    total = np.all((Z < 0) & (sep < R - r - 1e-6 * R), axis=1)
    if np.any(total):
        agree(got[total, 0], np.full(total.sum(), -F / (1 + F)), 0, 1e-9, "total eclipse")
    lab = [x for x, y in (("transit", np.any(tr < 0)), ("eclipse", np.any(ec < 0) and F > 0),
                          ("total eclipse", np.any(total) and F > 0)) if y]
    return info(bool(lab), "circ" if orb.circ else "ecc", "texp" if texp is not None else "instant",
                *lab)


def no_brightness(c):
    """Zero brightness ratio: the plain transit light curve."""
    p = c["p"]
    orb = ref.Orbit(p)
    R, a, e = [float(np.ravel(x)[0]) for x in (orb.R, orb.a, orb.e)]
    r = c["k"] * R
    if a * (1 - e) < 1.2 * (R + r):
        raise SkipCase()
    P, n, t0 = [float(np.ravel(x)[0]) for x in (orb.P, orb.n, orb.t0)]
    half = (R + r) / (a * n)
    if half > 0.1 * P:
        raise SkipCase()
    t = t0 + np.array([q["x"] for q in c["pts"]]) * half
    o = make(p)
    lc = xo.SecondaryEclipseLightCurve(c["u1"], c["u2"], 0.0)
    l1 = xo.LimbDarkLightCurve(*c["u1"])
    kw = {} if c["texp"] is None else dict(texp=float(np.ravel(c["texp"])[0]) * half)
    if kw and not c.get("omit"):
        kw["order"] = c["order"]
    a_, b_ = get(lambda: [lc.get_light_curve(orbit=o, r=r, t=t, **kw),
                          l1.get_light_curve(orbit=o, r=r, t=t, **kw)], "light curves")
    agree(a_, b_, 0, 1e-14, "zero brightness ratio is the plain transit")
    return info(np.any(b_ < 0))


@st.composite
def several_case(draw):
    n = draw(st.integers(2, 4))
    c = dict(P=draw(vec(LU(1.0, 50.0), n)), b=draw(vec(U(0.0, 0.9), n)), m=draw(vec(LU(1e-6, 0.5), n)),
             r=draw(vec(LU(0.01, 0.5), n)), t0=draw(vec(U(0.0, 1.0), n)), s=draw(mix(LU(1e-3, 10.0), 1.0)),
             u1=_u(draw), u2=_u(draw), texp=draw(maybe(U(0.005, 0.1))), order=draw(st.integers(0, 2)),
             uit=draw(st.sampled_from([None, True, False])), delay=draw(st.booleans()),
             rscalar=draw(st.booleans()))
    if draw(st.booleans()):
        c["ecc"], c["omega"] = draw(vec(U(0.0, 0.4), n)), draw(vec(U(-3.0, 3.0), n))
    x = [(draw(st.integers(0, n - 1)), draw(st.booleans()), draw(U(-0.04, 0.04)))
         for _ in range(draw(st.integers(2, 10)))]
    c["pts"] = x
    return c


def several(c):
    """Several companions: one column per companion, each that of the companion alone."""
    n = len(c["P"])
    r = np.full(n, c["r"][0]) if c["rscalar"] else np.array(c["r"])
    arrs = {k: np.array(c[k]) for k in ("P", "b", "m", "t0")}
    ph = np.array(c["t0"])
    kw = dict(period=arrs["P"], b=arrs["b"], m_planet=arrs["m"], t0=ph)
    if "ecc" in c:
        kw.update(ecc=np.array(c["ecc"]), omega=np.array(c["omega"]))
    o = ref.Orbit({k: v.tolist() for k, v in kw.items()})
    if np.any(o.a * (1 - o.e) < 1.3 * (1 + r)):
        raise SkipCase()
    f = -0.5 * np.pi - o.w
    E = np.arctan2(np.sqrt(1 - o.e**2) * np.sin(f), o.e + np.cos(f))
    te = o.tp + (E - o.e * np.sin(E)) / o.n
    t = np.array([(te[i] if ec else ph[i]) + x * c["P"][i] for i, ec, x in c["pts"]])
    lkw = dict(light_delay=c["delay"])
    if c["texp"] is not None:
        lkw.update(texp=c["texp"] * float(np.min(arrs["P"])), order=c["order"])
    if c["uit"] is not None and not c["delay"]:
        lkw["use_in_transit"] = c["uit"]

    def one(k, r):
        with sut("secondary eclipse"):
            orb = xo.orbits.KeplerianOrbit(**k)
            return xo.SecondaryEclipseLightCurve(c["u1"], c["u2"], c["s"]).get_light_curve(
                orbit=orb, r=r, t=t, **lkw)

    got, *cols = get(lambda: [one(kw, r)] + [one({k: v[i:i + 1] for k, v in kw.items()}, r[i:i + 1])
                                             for i in range(n)], "secondary eclipses")
    want = np.concatenate(cols, axis=1)
    require(got.shape == (len(t), n), f"shape {got.shape}")
    # where the eclipse is sampled through a limb the rounding of the position is amplified
    agree(got, want, 0, 1e-7, "column of each companion")
    return info(np.sum(np.any(want < 0, axis=0)) > 1, "delay" if c["delay"] else "instant", f"n{n}")


@st.composite
def roles_case(draw):
    c = draw(several_case())
    n = len(c["P"])
    c["delay"] = draw(st.sampled_from([True, True, False]))
    c["how"] = draw(st.sampled_from(["scalar", "vector"])) if n == 1 else "vector"
    c["Omega"] = draw(maybe(U(-3.0, 3.0)))
    c["Rs"] = draw(mix(LU(0.3, 3.0), 1.0))
    return c


def roles(c):
    """The eclipse is the transit of the system with the two bodies exchanged."""
    c = dict(c)
    P, b, m, r, t0 = [c[k][0] for k in ("P", "b", "m", "r", "t0")]
    Rs = c["Rs"]
    r = r * Rs
    kw = dict(period=P, b=b, m_planet=m, t0=t0, m_star=1.0, r_star=Rs)
    if "ecc" in c:
        kw.update(ecc=c["ecc"][0], omega=c["omega"][0])
    if c["Omega"] is not None:
        kw["Omega"] = c["Omega"]
    o = ref.Orbit(kw)
    one = lambda x: float(np.ravel(x)[0])  # noqa: E731
    a, e, w, n, tp, incl = [one(x) for x in (o.a, o.e, o.w, o.n, o.tp, np.arccos(o.ci))]
    if a * (1 - e) < 1.3 * (Rs + r):
        raise SkipCase()
    if "ecc" in c:
        f = -0.5 * np.pi - w
        E = np.arctan2(np.sqrt(1 - e**2) * np.sin(f), e + np.cos(f))
        te = tp + (E - e * np.sin(E)) / n
        swap = dict(ecc=e, omega=w - np.pi, t_periastron=tp)
    else:
        te = t0 + 0.5 * P
        swap = dict(t0=te)
    half = (Rs + r) / (a * n)
    # the delayed events are within a / c of these
    t = np.array([(te if ec else t0) + x / 0.04 * (1.2 * half + (a / ref.C_LIGHT if c["delay"] else 0.0))
                  for i, ec, x in c["pts"]] + [t0 - a / ref.C_LIGHT, te - a / ref.C_LIGHT, te])
    swap.update(period=P, incl=incl, m_star=m, m_planet=1.0, r_star=r)
    if c["Omega"] is not None:
        swap["Omega"] = c["Omega"]
    lkw = dict(light_delay=c["delay"])
    if c["texp"] is not None:
        lkw.update(texp=c["texp"] * half * 10, order=c["order"])
    if c["uit"] is not None and not c["delay"]:
        lkw["use_in_transit"] = c["uit"]

    def outs():
        with sut("light curves"):
            KO = xo.orbits.KeplerianOrbit
            oa, ob = KO(**kw), KO(**swap)
            return [xo.SecondaryEclipseLightCurve(c["u1"], c["u2"], c["s"]).get_light_curve(
                        orbit=oa, r=r, t=t, **lkw),
                    xo.LimbDarkLightCurve(*c["u1"]).get_light_curve(orbit=oa, r=r, t=t, **lkw),
                    xo.LimbDarkLightCurve(*c["u2"]).get_light_curve(orbit=ob, r=Rs, t=t, **lkw)]

    got, l1, l2 = get(outs, "light curves")
    F = c["s"] * (r / Rs) ** 2
    agree(got, (l1 + F * l2) / (1 + F), 0, 1e-6, "transit plus eclipse of the exchanged system")
    return info(np.any(l2 < 0) and F > 0, "delay" if c["delay"] else "instant",
                "ecc" if "ecc" in c else "circ")


CHECKS = [
    Check("eclipses", case(), eclipses, 800),
    Check("no_brightness", case(), no_brightness, 100),
    Check("several", several_case(), several, 80),
    Check("roles", roles_case(), roles, 250),
]
