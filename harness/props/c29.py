"""C29 specifications: contradictory or incomplete ones rejected, valid ones accepted."""
import itertools
import warnings

import numpy as np
from hypothesis import strategies as st

from harness.core import Check, SkipCase, Violation, info, require, sut, value
from harness.env import xo

import astropy.units as u
from exoplanet.compat import tensor as pt
from exoplanet.units import with_unit

RULE = (
    "subsets of the 14 optional orbit arguments, in several forms (number, vector, tensor, unit), "
    "judged by an independent predicate; argument subsets of TTV orbits and light curves, integration "
    "orders, limb-darkening vectors, light-delay requests; non-trivial always (accepted and rejected "
    "counted by label)"
)
ASSUMPTIONS = [
    "not specified, hence outside the domain: omega with exactly one of its sine and cosine; omega, "
    "sin_omega or cos_omega without ecc",
    "any exception counts as a rejection",
]

ARGS = ["period", "a", "rho_star", "r_star", "m_star", "incl", "b", "duration", "ecc", "omega",
        "sin_omega", "cos_omega", "t0", "t_periastron"]
VALUES = dict(period=3.5, a=9.0, rho_star=1.3, r_star=0.9, m_star=0.8, incl=1.55, b=0.2,
              duration=0.12, ecc=0.2, omega=0.7, sin_omega=float(np.sin(0.7)),
              cos_omega=float(np.cos(0.7)), t0=0.4, t_periastron=0.3)


def verdict(has):
    """None: not specified; else (valid?, reason)."""
    if not has("ecc") and (has("omega") or has("sin_omega") or has("cos_omega")):
        return None
    if has("ecc") and has("omega") and has("sin_omega") != has("cos_omega"):
        return None
    bad = []
    if not has("period") and not has("a"):
        bad.append("neither period nor a")
    circ = has("duration") and not has("ecc")
    if circ:
        if not has("b"):
            bad.append("circular duration without b")
        if has("incl"):
            bad.append("circular duration with incl")
        if has("a"):
            bad.append("circular duration with a")
        if not has("period"):
            bad.append("circular duration without period")
        if has("rho_star") or has("m_star"):
            bad.append("circular duration with rho_star or m_star")
    else:
        if has("incl") + has("b") + has("duration") > 1:
            bad.append("more than one of incl, b, duration")
        if has("period") and has("a"):
            if has("rho_star") or has("m_star"):
                bad.append("period and a with rho_star or m_star")
        else:
            star = (has("rho_star"), has("r_star"), has("m_star"))
            if star not in ((0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 0, 1), (0, 1, 1)):
                bad.append("stellar parameters " + str(star))
    if has("ecc"):
        trig = has("sin_omega") and has("cos_omega")
        if not has("omega") and not trig:
            bad.append("ecc without omega")
        if has("omega") and trig:
            bad.append("omega twice")
    if has("t0") and has("t_periastron"):
        bad.append("two reference times")
    return bad


FORMS = ["number", "number", "vector", "tensor", "unit"]
UNITS = dict(period=u.day, a=u.R_sun, rho_star=u.M_sun / u.R_sun**3, r_star=u.R_sun,
             m_star=u.M_sun, duration=u.day)


@st.composite
def orbit_case(draw, valid=None):
    k = draw(st.sampled_from(["any", "near", "near"]))
    if k == "any":
        given = [a for a in ARGS if draw(st.booleans())]
    else:
        # a valid specification with up to two arguments toggled
        given = list(draw(st.sampled_from(VALID)))
        for _ in range(draw(st.integers(0, 2))):
            t = draw(st.sampled_from(ARGS))
            given = [g for g in given if g != t] if t in given else given + [t]
    c = dict(given=sorted(given, key=ARGS.index))
    c["forms"] = {g: draw(st.sampled_from(FORMS)) for g in c["given"]}
    c["ror"] = draw(st.booleans())
    c["Omega"] = draw(st.booleans())
    c["m_planet"] = draw(st.booleans())
    c["none"] = draw(st.booleans())
    return c


def _valid_sets():
    out = []
    for bits in itertools.product((0, 1), repeat=len(ARGS)):
        given = [a for a, k in zip(ARGS, bits) if k]
        if verdict(lambda x: int(x in given)) == []:
            out.append(tuple(given))
    return out


VALID = _valid_sets()


def arguments(c):
    vec = any(f == "vector" for f in c["forms"].values())
    kw = {}
    for g in c["given"]:
        v, f = VALUES[g], c["forms"][g]
        # every planet-axis parameter carries the axis when one does
        if vec and g in ("period", "a") or f == "vector" and g not in ("rho_star", "r_star", "m_star"):
            v = np.array([v, v * 1.1])
        if f == "tensor":
            v = pt.as_tensor_variable(v)
        elif f == "unit" and g in UNITS:
            if g == "rho_star":
                v = v / 5.9  # a density of about v g / cm^3
            v = with_unit(pt.as_tensor_variable(v), UNITS[g])
        kw[g] = v
    if c["none"]:
        kw.update({a: None for a in ARGS if a not in kw})
    if c["ror"]:
        kw["ror"] = 0.05
    if c["Omega"]:
        kw["Omega"] = 0.3
    if c["m_planet"]:
        kw["m_planet"] = 1e-4
    return kw


def run_orbit(c, evaluate=False):
    bad = verdict(lambda x: int(x in c["given"]))
    if bad is None:
        raise SkipCase
    kw = arguments(c)
    err = orb = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            orb = xo.orbits.KeplerianOrbit(**kw)
            if bad or evaluate:
                got = {g: np.array(value(getattr(orb, g))) for g in c["given"]
                       if g not in ("sin_omega", "cos_omega") and hasattr(orb, g)}
                value([orb.a, orb.period, orb.b, orb.t0, orb.m_star, orb.r_star])
        except Exception as e:
            err = e
    if bad:
        if err is None:
            raise Violation(f"KeplerianOrbit({', '.join(c['given'])}) was accepted: {', '.join(bad)}")
        return info(True, "rejected", *bad[:1])
    if err is not None:
        raise Violation(f"KeplerianOrbit({', '.join(c['given'])}) was rejected: "
                        f"{type(err).__name__}: {str(err)[:200]}")
    if evaluate:
        for g, v in got.items():
            want = VALUES[g] / (5.9 if g == "rho_star" and c["forms"][g] == "unit" else 1)
            if g == "rho_star" and c["forms"][g] == "unit":
                continue  # units are C06's subject
            require(np.any(np.abs(v - want) <= 1e-9 * abs(want)), f"orbit.{g} = {v}, given {want}")
    return info(True, "accepted")


# -------------------------------------------------------------------- TTV orbits

@st.composite
def ttv_case(draw):
    return dict(ttvs=draw(st.booleans()), times=draw(st.booleans()), inds=draw(st.booleans()),
                period=draw(st.booleans()), t0=draw(st.booleans()), dlp=draw(st.booleans()),
                a=draw(st.booleans()), kind=draw(st.sampled_from(["list", "array", "tensor"])))


def run_ttv(c):
    if c["ttvs"] and c["times"]:
        raise SkipCase  # precedence is not specified
    if c["dlp"] and (not c["times"] or c["period"]):
        raise SkipCase
    if c["times"] and (c["t0"] or c["a"]):
        raise SkipCase

    def v(x):
        return pt.as_tensor_variable(np.array(x)) if c["kind"] == "tensor" else (
            np.array(x) if c["kind"] == "array" else list(x))

    kw = {}
    if c["ttvs"]:
        kw["ttvs"] = [v([0.0, 0.1, -0.1]), v([0.05, 0.0])]
    if c["times"]:
        kw["transit_times"] = [v([1.0, 4.0, 7.1]), v([2.0, 7.2])]
    if c["inds"]:
        kw["transit_inds"] = [[0, 1, 3], [0, 2]] if c["ttvs"] else [[0, 1, 2], [0, 1]]
    if c["period"]:
        kw["period"] = np.array([3.0, 5.0])
    if c["a"]:
        kw["a"] = np.array([8.0, 12.0])
    if c["t0"]:
        kw["t0"] = np.array([1.0, 2.0])
    if c["dlp"]:
        kw["delta_log_period"] = 0.01
    bad = not (c["ttvs"] or c["times"]) or (c["ttvs"] and not (c["period"] or c["a"]))
    err = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            o = xo.orbits.TTVOrbit(**kw)
            value([o.period, o.t0] + list(o.all_transit_times))
        except Exception as e:
            err = e
    if bad and err is None:
        raise Violation(f"TTVOrbit({', '.join(kw)}) was accepted")
    if not bad and err is not None:
        raise Violation(f"TTVOrbit({', '.join(kw)}) was rejected: {type(err).__name__}: {str(err)[:200]}")
    return info(True, "rejected" if bad else "accepted")


# ------------------------------------------------------------------ light curves

@st.composite
def lc_case(draw):
    return dict(
        orbit=draw(st.integers(0, 4)) > 0, r=draw(st.integers(0, 4)) > 0, t=draw(st.integers(0, 4)) > 0,
        texp=draw(st.sampled_from([None, 0.02, "array"])), order=draw(st.sampled_from([None, 0, 1, 2, 3, 4, -1, 7])),
        oversample=draw(st.sampled_from([None, 3, 8])), uit=draw(st.sampled_from([None, True, False])),
        delay=draw(st.booleans()), which=draw(st.sampled_from(["kepler", "simple"])),
        lc=draw(st.sampled_from(["quad", "quad", "vector", "secondary"])), vec=draw(st.booleans()))


def run_lc(c):
    T = np.linspace(-0.3, 0.4, 9)
    v = (lambda x: np.array([x, 1.1 * x])) if c["vec"] else (lambda x: x)
    with sut("building the orbit"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if c["which"] == "kepler":
            orb = xo.orbits.KeplerianOrbit(period=v(3.0), t0=0.0, b=0.1, m_planet=1e-5)
        else:
            if c["lc"] == "secondary":
                raise SkipCase  # needs an orbit with a companion
            orb = xo.orbits.SimpleTransitOrbit(period=v(3.0), t0=0.0, b=0.1, duration=0.2)
        if c["lc"] == "quad":
            L = xo.LimbDarkLightCurve(0.3, 0.2)
        elif c["lc"] == "vector":
            L = xo.LimbDarkLightCurve([0.3, 0.2])
        else:
            L = xo.SecondaryEclipseLightCurve([0.3, 0.2], [0.1, 0.1], 0.4)
    kw = {}
    if c["orbit"]:
        kw["orbit"] = orb
    if c["r"]:
        kw["r"] = v(0.1)
    if c["t"]:
        kw["t"] = T
    if c["texp"] is not None:
        kw["texp"] = np.full(len(T), 0.02) if c["texp"] == "array" else c["texp"]
    for k, name in (("order", "order"), ("oversample", "oversample"), ("uit", "use_in_transit")):
        if c[k] is not None:
            kw[name] = c[k]
    if c["delay"]:
        kw["light_delay"] = True
    bad = []
    bad += [f"no {k}" for k in ("orbit", "r", "t") if not c[k]]
    if c["texp"] is not None and c["order"] not in (None, 0, 1, 2):
        bad.append("unknown integration order")
    if c["texp"] is None and c["order"] not in (None, 0, 1, 2) and not bad:
        raise SkipCase  # irrelevant argument
    if c["delay"] and c["uit"]:
        bad.append("in-transit restriction with light delay")
    if c["delay"] and c["which"] == "simple":
        bad.append("light delay for a straight-line orbit")
    err = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            f = value(L.get_light_curve(**kw))
        except Exception as e:
            err = e
    if bad and err is None:
        raise Violation(f"get_light_curve({kw.keys()}) was accepted: {bad}")
    if not bad and err is not None:
        raise Violation(f"get_light_curve({ {k: kw[k] for k in kw if k != 'orbit'} }) was rejected: "
                        f"{type(err).__name__}: {str(err)[:300]}")
    if not bad:
        require(np.all(np.isfinite(f)), "light curve of a valid call is not finite")
        require(f.shape == (len(T), 2 if c["vec"] else 1), f"shape {f.shape}")
    return info(True, "rejected" if bad else "accepted", *bad[:1])


# -------------------------------------------------------- limb darkening, others

@st.composite
def misc_case(draw):
    k = draw(st.sampled_from(["u", "u", "velocity", "in_transit", "units"]))
    c = dict(kind=k)
    if k == "u":
        c["n"] = draw(st.integers(0, 6))
        c["form"] = draw(st.sampled_from(["list", "array", "tensor", "symbolic"]))
        c["b"] = draw(st.floats(0.0, 0.8))
    elif k == "velocity":
        c["method"] = draw(st.sampled_from(
            ["get_planet_velocity", "get_star_velocity", "get_radial_velocity"]))
    elif k == "in_transit":
        c["simple"] = draw(st.booleans())
        c["delay"] = draw(st.booleans())
    else:
        c["unit"] = draw(st.sampled_from(["day", "R_sun", "M_sun"]))
    return c


def run_misc(c):
    if c["kind"] == "u":
        val = np.linspace(0.3, 0.1, c["n"])
        err = None
        x = pt.dvector("ld")
        vec = dict(list=val.tolist(), array=val, tensor=pt.as_tensor_variable(val), symbolic=x)[c["form"]]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                L = xo.LimbDarkLightCurve(vec)
                o = xo.orbits.KeplerianOrbit(period=3.0, b=c["b"])
                out = L.get_light_curve(orbit=o, r=0.1, t=np.array([0.0, 0.01]))
                from harness.core import compile_fn
                f = compile_fn([x], [out])(val)[0]
            except Exception as e:
                err = e
        if c["n"] == 2:
            if err is not None:
                raise Violation(f"two limb-darkening coefficients were rejected: {err}")
            require(np.all(f < 0), "no transit")
        elif err is None:
            raise Violation(f"{c['n']} limb-darkening coefficients ({c['form']}) were accepted")
        return info(True, f"u{c['n']}")
    if c["kind"] == "velocity":
        o = xo.orbits.SimpleTransitOrbit(period=3.0, t0=0.0, b=0.1, duration=0.2)
        try:
            getattr(o, c["method"])(np.array([0.0, 1.0]))
        except NotImplementedError:
            return info(True, "velocity")
        except Exception as e:
            raise Violation(f"SimpleTransitOrbit.{c['method']} raised {type(e).__name__}")
        raise Violation(f"SimpleTransitOrbit.{c['method']} was accepted")
    if c["kind"] == "in_transit":
        with sut("orbit"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o = (xo.orbits.SimpleTransitOrbit(period=3.0, t0=0.0, b=0.1, duration=0.2) if c["simple"]
                 else xo.orbits.KeplerianOrbit(period=3.0, b=0.1))
        err = None
        try:
            value(o.in_transit(np.array([0.0, 1.0]), r=0.1, light_delay=c["delay"]))
        except Exception as e:
            err = e
        if c["delay"] != (err is not None):
            raise Violation(f"in_transit(light_delay={c['delay']}): {err}")
        return info(True, "in_transit")
    un = u.Unit(c["unit"])
    once = with_unit(pt.as_tensor_variable(1.0), un)
    try:
        with_unit(once, un)
    except TypeError:
        return info(True, "units")
    raise Violation("with_unit accepted a tensor that already has units")


CHECKS = [
    Check("orbit", orbit_case(), run_orbit, 6000),
    Check("orbit_values", orbit_case(), lambda c: run_orbit(c, True), 500),
    Check("ttv", ttv_case(), run_ttv, 150),
    Check("light_curve", lc_case(), run_lc, 500),
    Check("misc", misc_case(), run_misc, 200),
]
