"""C08 Jacobians."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import (Check, LU, U, UO, agree, arr, compile_fn, info, maybe, mix, require, sut,
                          value, vec)
from harness.env import xo
from harness.numdiff import tableau
from harness.props.c07 import circ_case
from harness.sutorbit import KO, get, make

from exoplanet.compat import tensor as pt

RULE = (
    "random circular orbits given by a duration (massive planets up to the stellar mass "
    "included), random orbits of every parameterisation for d cos(i)/db, random depths, b and "
    "physical limb darkening; non-trivial when the expected derivative is non-zero"
)
ASSUMPTIONS = ["Richardson-extrapolated central differences of the code's own values"]


@st.composite
def dur_case(draw):
    c = draw(circ_case())
    p = c["p"]
    n = len(p["period"]) if isinstance(p["period"], list) else None
    mode = draw(st.integers(0, 2))
    p.pop("m_planet", None)
    if mode:
        # mass as a fraction of the total mass implied by the orbit
        k = np.asarray(p.get("ror", 0.0))
        phi = np.pi * np.asarray(p["duration"]) / np.asarray(p["period"])
        aor = np.sqrt((1 + k) ** 2 - (np.asarray(p["b"]) * np.cos(phi)) ** 2) / np.sin(phi)
        mt = 4 * np.pi**2 * (aor * p.get("r_star", 1.0)) ** 3 / (ref.G * np.asarray(p["period"]) ** 2)
        frac = draw(LU(1e-6, 0.9)) if n is None else draw(vec(LU(1e-6, 0.9), n))
        p["m_planet"] = (mt * np.asarray(frac)).tolist()
    return dict(p=p)


def duration(c):
    p = {k: arr(v) for k, v in c["p"].items()}
    D0 = np.asarray(p["duration"], float)
    names = ["a", "a_star", "a_planet", "rho_star"]
    dur = pt.dscalar() if D0.ndim == 0 else pt.dvector()
    import warnings
    with sut("orbit with a duration"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = KO(**dict(p, duration=dur))
        J = o.jacobians["duration"]
        vals = [getattr(o, k) for k in names]
        jac = [J[k] for k in names]
        fn = compile_fn([dur], vals)
        fj = compile_fn([dur], jac)
    with sut("jacobians"):
        js = fj(D0)
    f = lambda s: np.stack([np.broadcast_to(x, D0.shape) for x in fn(D0 * (1 + s))])  # noqa: E731
    with sut("values"):
        d, err = tableau(f, 0.02)
        v0 = f(0.0)
    d, err = d / D0, err / D0
    for i, nm in enumerate(names):
        j = np.broadcast_to(js[i], D0.shape)
        agree(j, d[i], 1e-7, 20 * err[i] + 1e-11 * np.abs(v0[i]) / D0 + 1e-300,
              f"d {nm} / d duration")
    require(np.isfinite(js[0]), "finite")
    return info(True, "massive" if np.any(np.asarray(p.get("m_planet", 0.0)) != 0) else "massless")


@st.composite
def b_case(draw):
    p = gen.fix_b(draw(gen.system(max_planets=3, orient=("b", "b", "incl"))), ref)
    return dict(p=p)


def cosi_b(c):
    p = c["p"]
    if p.get("b") is not None:
        b0 = np.asarray(p["b"], float)
        b = pt.dscalar() if b0.ndim == 0 else pt.dvector()
        q = {k: v for k, v in p.items() if k != "b"}
        o = make(q, b=b)
        with sut("jacobians"):
            fn = compile_fn([b], [pt.cos(o.incl), o.jacobians["b"]["cos_incl"]])
            j = fn(b0)[1]
            sh = np.broadcast_shapes(j.shape, b0.shape)
            h = 1e-3 / np.max(np.abs(ref.Orbit(dict(p, b=1.0)).ci))
            d, err = tableau(lambda s: np.broadcast_to(fn(b0 + s)[0], sh), min(h, 0.1), 2)
            v = fn(b0)[0]
        scale = np.abs(np.broadcast_to(v, sh)) + 1e-3
        agree(np.broadcast_to(j, sh), d, 0, 1e-9 * np.abs(d) + 10 * err + 1e-12 * scale / min(h, 0.1),
              "d cos(incl) / d b")
        return info(True, "b")
    o = make(p)
    ci, j, b = get(lambda: [pt.cos(o.incl), o.jacobians["b"]["cos_incl"], o.b], "jacobian")
    agree(np.broadcast_to(j * b, np.broadcast_shapes(np.shape(j), np.shape(b))),
          np.broadcast_to(ci, np.broadcast_shapes(np.shape(j), np.shape(b))), 1e-12, 1e-15,
          "cos(incl) is linear in b")
    # the same jacobian as the orbit built from that b
    q = {k: v for k, v in p.items() if k != "incl"}
    o2 = make(dict(q, b=b))
    ci2, j2 = get(lambda: [pt.cos(o2.incl), o2.jacobians["b"]["cos_incl"]], "jacobian")
    agree(np.broadcast_to(j2, np.shape(j)), j, 1e-12, 0, "d cos(incl) / d b of incl- and b-orbits")
    return info(True, "incl")


@st.composite
def aor_case(draw):
    c = draw(circ_case())
    p = c["p"]
    return dict(duration=p["duration"], period=p["period"], b=p["b"], ror=p.get("ror"))


def aor_fn(c):
    D0 = np.asarray(c["duration"], float)
    kw = {} if c["ror"] is None else dict(ror=arr(c["ror"]))
    D = pt.dscalar() if D0.ndim == 0 else pt.dvector()
    with sut("get_aor_from_transit_duration"):
        fn = compile_fn([D], list(xo.orbits.keplerian.get_aor_from_transit_duration(
            D, arr(c["period"]), arr(c["b"]), **kw)))
        j = fn(D0)[1]
        d, err = tableau(lambda s: fn(D0 * (1 + s))[0], 0.02)
        v = fn(D0)[0]
        lit = value(list(xo.orbits.keplerian.get_aor_from_transit_duration(
            arr(c["duration"]), arr(c["period"]), arr(c["b"]), **kw)))
    agree(j, d / D0, 1e-7, (20 * err + 1e-11 * np.abs(v)) / D0, "d(a/R) / d duration")
    agree(lit[0], v, 1e-13, 0, "literal and symbolic arguments")
    agree(lit[1], j, 1e-13, 0, "literal and symbolic arguments (jacobian)")
    return info(True, "ror" if kw else "no ror")


@st.composite
def ror_case(draw):
    q1, q2 = draw(mix(U(0.0, 1.0), 1.0)), draw(U(0.0, 1.0))
    n = draw(maybe(st.integers(1, 4)))
    V = lambda el: draw(el) if n is None else draw(vec(el, n))  # noqa: E731
    delta = V(LU(1e-7, 0.2)) if draw(st.booleans()) else draw(LU(1e-7, 0.2))
    return dict(u=[2 * q1**0.5 * q2, q1**0.5 * (1 - 2 * q2)], delta=delta,
                b=V(mix(U(0.0, 0.99), 0.0, -0.4)))


def ror_fn(c):
    lc = xo.LimbDarkLightCurve(*c["u"])
    b, delta = np.asarray(c["b"], float), np.asarray(c["delta"], float)
    D = pt.dscalar() if delta.ndim == 0 else pt.dvector()
    with sut("get_ror_from_approx_transit_depth"):
        fn = compile_fn([D], list(lc.get_ror_from_approx_transit_depth(D, b, jac=True)))
        ror, j = fn(delta)
        d, err = tableau(lambda s: fn(delta * (1 + s))[0], 0.05)
        plain = value(lc.get_ror_from_approx_transit_depth(delta, b))
    agree(j, d / delta, 1e-7, (20 * err + 1e-11 * np.abs(ror)) / delta, "d ror / d depth")
    agree(ror, plain, 1e-14, 0, "value with jac=True")
    return info(True, "scalar" if b.ndim == 0 else "vector")


CHECKS = [
    Check("duration", dur_case(), duration, 400),
    Check("cosi_b", b_case(), cosi_b, 400),
    Check("aor", aor_case(), aor_fn, 400),
    Check("ror", ror_case(), ror_fn, 400),
]
