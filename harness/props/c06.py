"""C06 units."""
import astropy.units as u
import numpy as np
from hypothesis import reject, strategies as st

from harness import gen, ref
from harness.core import (Check, LU, U, UO, Violation, agree, arr, info, maybe, mix, must_raise,
                          SkipCase, require, sut, value, vec)
from harness.env import xo
from harness.props import c07
from harness.props.c01 import days
from harness.sutorbit import get, make, squeeze

with_unit, has_unit, to_unit = xo.units.with_unit, xo.units.has_unit, xo.units.to_unit
RULE = (
    "random orbit specifications with a random non-empty subset of the physical arguments "
    "re-expressed in a random compatible unit through with_unit (or the deprecated keyword); "
    "non-trivial when at least one conversion factor differs from one"
)
ASSUMPTIONS = ["astropy unit conversion factors"]
BASE = dict(period="d", duration="d", a="R_sun", r_star="R_sun", m_star="M_sun",
            m_planet="M_sun", rho_star="g/cm3")
ALT = dict(
    period=["h", "min", "yr", "s", "d"], duration=["h", "min", "s", "d"],
    a=["au", "km", "m", "R_sun", "R_jup", "lyr"], r_star=["R_earth", "R_jup", "km", "m", "R_sun", "au"],
    m_star=["M_jup", "kg", "M_earth", "M_sun", "g"], m_planet=["M_earth", "M_jup", "kg", "M_sun"],
    rho_star=["kg/m3", "M_sun/R_sun3", "g/cm3", "M_jup/R_jup3"],
)


def conv(name, v, unit):
    f = (1 * u.Unit(BASE[name])).to(u.Unit(unit)).value
    return (np.asarray(v, float) * f).tolist()


@st.composite
def case(draw, dur):
    if dur:
        n = draw(maybe(st.integers(1, 3)))
        V = lambda el: draw(el) if n is None else draw(vec(el, n))  # noqa: E731
        p = dict(period=V(LU(1.0, 100.0)))
        p["duration"] = (np.asarray(p["period"]) * draw(U(0.005, 0.1))).tolist()
        p["b"] = V(U(0.0, 0.9))
        if draw(st.booleans()):
            p["r_star"] = draw(LU(0.2, 5.0))
        if draw(st.booleans()):
            p["ror"] = V(U(0.01, 0.2))
        if draw(st.booleans()):
            p["m_planet"] = V(LU(1e-6, 0.01))
    else:
        p = gen.fix_b(draw(gen.system(max_planets=3, wide=True, masses=draw(st.sampled_from([True, None])))), ref)
    cand = [k for k in p if k in BASE]
    units = {}
    for k in cand:
        if draw(st.booleans()):
            units[k] = draw(st.sampled_from(ALT[k]))
    if not units:
        k = draw(st.sampled_from(cand))
        units[k] = draw(st.sampled_from(ALT[k]))
    kw = {k: draw(st.booleans()) for k in units if k in ("m_planet", "rho_star")}
    return dict(p=p, units=units, kw=kw, tau=draw(gen.times_s(1, 4)))


def build(c):
    args = {}
    for k, v in c["p"].items():
        if k not in c["units"]:
            args[k] = arr(v)
            continue
        un = u.Unit(c["units"][k])
        raw = arr(conv(k, v, c["units"][k]))
        if c["kw"].get(k):
            args[k] = raw
            args[k + "_units"] = un
        else:
            with sut("with_unit"):
                args[k] = with_unit(raw, un)
    import warnings

    with sut("constructing the orbit with units"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return xo.orbits.KeplerianOrbit(**args)


ATTRS = ["a", "period", "rho_star", "r_star", "m_star", "m_planet", "b", "incl", "t0"]


def same_orbit(c):
    o = build(c)
    o1 = make(c["p"])
    n1 = get(lambda: [getattr(o1, k) for k in ATTRS], "attributes (plain)")
    n2 = get(lambda: [getattr(o, k) for k in ATTRS], "attributes (units)")
    for k, x, y in zip(ATTRS, n2, n1):
        agree(x, y, 1e-10, 1e-7 if k == "incl" else 1e-12, f"{k} with units {c['units']}")
    plain = dict(c["p"])
    if "duration" not in plain:
        orb = ref.Orbit(plain)
        for k, w in dict(a=orb.a, period=orb.P, rho_star=orb.rho, r_star=orb.R, m_star=orb.m,
                         m_planet=orb.mp).items():
            g, ww = np.broadcast_arrays(n2[ATTRS.index(k)], np.asarray(w, float))
            agree(g, ww, 1e-10, 1e-300, f"{k} against the reference, units {c['units']}")
        e = np.max(orb.e)
    else:
        e = 0.0
    P, a = n1[1], n1[0]
    t = np.asarray(c["tau"], float) * np.max(P)
    x, y = get(lambda: o.get_relative_position(t), "positions"), get(
        lambda: o1.get_relative_position(t), "positions")
    amp = (1 + e) ** 2 / (1 - e**2) ** 1.5
    span = np.max(np.abs(t)) / np.min(P) + 1 + np.max(np.abs(n1[8])) / np.min(P)
    for ax, g, w in zip("XYZ", x, y):
        agree(g, w, 0, np.max(a) * (1e-7 + 1e-9 * span * amp), f"{ax} with units")
    triv = all((1 * u.Unit(BASE[k])).to(u.Unit(v)).value == 1 for k, v in c["units"].items())
    return info(not triv, *[f"{k}:{v}" for k, v in c["units"].items()],
                *[f"{k}_units keyword" for k, v in c["kw"].items() if v])


@st.composite
def ecc_case(draw):
    """An eccentric orbit specified by its duration (which then fixes b)."""
    c = draw(c07.ecc_case())
    p = dict(c["p"])
    orb = ref.Orbit(dict(p, b=c["b"]))
    with np.errstate(all="ignore"):
        T, x = c07.ecc_duration(orb)
    if not np.all(x < 0.9) or np.any(orb.a * (1 - orb.e) < 1.5 * orb.R) or np.any(np.abs(orb.ci) > 0.9):
        reject()
    p["duration"] = (np.asarray(T) * draw(U(0.3, 0.98))).tolist()
    units = {k: draw(st.sampled_from(ALT[k])) for k in p if k in BASE and (
        k == "duration" or draw(st.booleans()))}
    kw = {k: draw(st.booleans()) for k in units if k in ("m_planet", "rho_star")}
    return dict(p=p, units=units, kw=kw, tau=draw(gen.times_s(1, 4)))


def ecc_duration(c):
    """Compared with the plain orbit only: C07 decides what a duration means."""
    o, o1 = build(c), make(c["p"])
    at = lambda q: get(lambda: [getattr(q, k) for k in ATTRS + ["duration"]], "attributes")  # noqa: E731
    n1, n2 = at(o1), at(o)
    if np.any(np.isnan(n1[ATTRS.index("b")])):
        raise SkipCase()
    for k, x, y in zip(ATTRS + ["duration"], n2, n1):
        if k == "b":
            agree(x**2, y**2, 1e-9, 1e-11, "b^2 with units")
        elif k == "incl":
            agree(np.cos(x) ** 2, np.cos(y) ** 2, 1e-9, 1e-11, "cos(incl)^2 with units")
        else:
            agree(x, y, 1e-10, 1e-12, f"{k} with units {c['units']}")
    triv = (1 * u.Unit("d")).to(u.Unit(c["units"]["duration"])).value == 1
    return info(not triv, *[f"{k}:{v}" for k, v in c["units"].items()])


@st.composite
def fn_case(draw):
    fam = draw(st.sampled_from([["d", "h", "yr", "s"], ["R_sun", "au", "km", "R_earth"],
                                ["M_sun", "M_jup", "kg"], ["m/s", "km/s", "R_sun/d"],
                                ["rad", "deg", "arcsec"]]))
    x = draw(st.one_of(U(-100.0, 100.0), vec(U(-100.0, 100.0), 3)))
    return dict(x=x, a=draw(st.sampled_from(fam)), b=draw(st.sampled_from(fam)),
                kind=draw(st.sampled_from(["float", "array", "tensor", "int"])))


def functions(c):
    from exoplanet.compat import tensor as pt

    x = arr(c["x"])
    if c["kind"] == "int":
        x = np.asarray(x).astype(int)
        x = int(x) if x.ndim == 0 else x
    ua, ub = u.Unit(c["a"]), u.Unit(c["b"])
    obj = x
    if c["kind"] == "tensor":
        obj = pt.as_tensor_variable(np.asarray(x, float))
    with sut("has_unit / to_unit without units"):
        require(not has_unit(obj), "has_unit on a value without units")
        back = to_unit(obj, ub)
        require(back is obj or np.array_equal(value(back), np.asarray(x, float)),
                "to_unit changed a unit-less value")
    with sut("with_unit"):
        y = with_unit(obj, ua)
        require(has_unit(y), "has_unit after with_unit")
    with must_raise(TypeError, "with_unit on a value that already has units"):
        with_unit(y, ub)
    got = get(lambda: to_unit(y, ub), "to_unit")
    f = (1 * ua).to(ub).value
    agree(got, np.asarray(x, float) * f, 1e-12, 0, f"to_unit {c['a']} -> {c['b']}")
    agree(get(lambda: to_unit(y, ua), "to_unit"), np.asarray(x, float), 1e-12, 0, "to_unit identity")
    agree(get(lambda: y, "value"), np.asarray(x, float), 0, 0, "with_unit keeps the value")
    return info(c["a"] != c["b"], c["kind"])


CHECKS = [
    Check("same_orbit", case(False), same_orbit, 500),
    Check("duration", case(True), same_orbit, 250),
    Check("ecc_duration", ecc_case(), ecc_duration, 150),
    Check("functions", fn_case(), functions, 200),
]
