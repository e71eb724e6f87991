"""C24 RV semi-amplitude and minimum-mass estimates."""
import warnings

import astropy.constants as const
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from harness.core import Check, LU, SkipCase, U, agree, info, mix, require, sut, value, vec
from harness.env import xo

from exoplanet.estimators import estimate_minimum_mass, estimate_semi_amplitude

RULE = (
    "1-3 distinct periods, 2n+2 to 60 uneven times (offsets up to 2.4e6 d), noiseless sinusoids or "
    "arbitrary data, uncertainties none / one number / per point, with or without transit times, every "
    "argument as number, list, array or astropy quantity in several units; ill-conditioned designs "
    "(condition number above 1e4) are outside the domain; non-trivial always"
)
ASSUMPTIONS = ["the periods are distinguishable in the sampling (design condition number below 1e4)"]

TU = ["day", "hour", "s", "yr"]
VU = ["m/s", "km/s", "cm/s"]


@st.composite
def case(draw, noiseless=None):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    P = [draw(LU(0.5, 500.0))]
    while len(P) < n:
        P.append(P[-1] * draw(mix(LU(1.3, 8.0), 2.0)))
    order = draw(st.permutations(range(n)))
    P = [P[i] for i in order]
    m = draw(st.integers(2 * n + 2, 60))
    c = dict(P=P, m=m, seed=draw(st.integers(0, 2**31)))
    c["t_ref"] = draw(mix(U(-1000.0, 1000.0), 0.0, 2454833.0))
    c["span"] = draw(mix(LU(1.0, 20.0), 3.0))
    c["sorted"] = draw(st.booleans())
    c["K"] = draw(vec(mix(LU(0.05, 500.0), 10.0, 0.0), n))
    c["off"] = draw(mix(U(-500.0, 500.0), 0.0))
    c["with_t0"] = draw(st.booleans())
    c["t0"] = draw(vec(U(-1.0, 1.0), n))
    c["phase"] = draw(vec(mix(U(0.0, 1.0), 0.0, 0.25, 0.5), n))
    c["noiseless"] = draw(st.booleans()) if noiseless is None else noiseless
    c["integer"] = not c["noiseless"] and draw(st.integers(0, 4)) == 0
    c["yerr"] = draw(st.sampled_from(["none", "array", "array", "one"]))
    c["err_scale"] = draw(LU(0.05, 20.0))
    for k in ("P", "x", "y", "yerr", "t0"):
        c["form_" + k] = draw(st.sampled_from(["list", "array", "array", "quantity"]))
        c["unit_" + k] = draw(st.sampled_from(VU if k in ("y", "yerr") else TU))
    c["scalar"] = draw(st.booleans())
    c["m_star"] = draw(mix(LU(0.05, 20.0), 1.0))
    c["mass_form"] = draw(st.sampled_from(["default", "number", "kg", "M_sun"]))
    return c


def present(c, key, v, base):
    """The value as the user would pass it."""
    form = c["form_" + key]
    if form == "quantity":
        return (v * u.Unit(base)).to(u.Unit(c["unit_" + key]))
    if form == "list":
        return np.asarray(v).tolist()
    return v


def data(c):
    rng = np.random.default_rng(c["seed"])
    P = np.array(c["P"])
    x = c["t_ref"] + c["span"] * P.max() * rng.uniform(size=c["m"])
    if c["sorted"]:
        x = np.sort(x)
    t0 = c["t_ref"] + np.array(c["t0"]) * P
    if c["noiseless"]:
        ph = t0 if c["with_t0"] else c["t_ref"] + np.array(c["phase"]) * P
        # a star approaches the observer just after a transit of its planet
        y = c["off"] - np.sum(
            np.array(c["K"]) * np.sin(2 * np.pi * (x[:, None] - ph) / P), axis=1)
    else:
        y = c["off"] + 30.0 * rng.standard_normal(c["m"])
        if c["integer"]:
            y = np.round(y).astype(int)
    e = None
    if c["yerr"] == "one":
        e = c["err_scale"]
    elif c["yerr"] == "array":
        e = c["err_scale"] * np.exp(rng.uniform(-1.5, 1.5, c["m"]))
    return P, x, y, e, t0


def reference(P, x, y, e, t0):
    """Weighted least squares by SVD; also the condition number and the data scale."""
    w = np.ones(len(x)) / (1.0 if e is None else np.asarray(e))
    if t0 is not None:
        cols = [-np.sin(2 * np.pi * (x - t0[i]) / P[i]) for i in range(len(P))]
    else:
        xc = x - x[0]
        cols = []
        for p in P:
            cols += [np.sin(2 * np.pi * xc / p), np.cos(2 * np.pi * xc / p)]
    A = np.array(cols + [np.ones(len(x))]).T
    sol, _, _, s = np.linalg.lstsq(A * w[:, None], np.asarray(y, float) * w, rcond=None)
    cond = s[0] / s[-1]
    s = sol[:-1]
    return (s if t0 is not None else np.hypot(s[::2], s[1::2])), cond


def call_args(c, P, x, y, e, t0):
    kw = {}
    Pin = present(c, "P", P if not (c["scalar"] and len(P) == 1) else P[0], "day")
    if e is not None:
        kw["yerr"] = present(c, "yerr", e, "m/s")
    if c["with_t0"]:
        kw["t0s"] = present(c, "t0", t0 if not (c["scalar"] and len(P) == 1) else t0[0], "day")
    yy = present(c, "y", y, "m/s")
    return (Pin, present(c, "x", x, "day"), yy), kw


def run(c):
    P, x, y, e, t0 = data(c)
    want, cond = reference(P, x, y, e, t0 if c["with_t0"] else None)
    if cond > 1e4:
        raise SkipCase
    args, kw = call_args(c, P, x, y, e, t0)
    with sut("estimate_semi_amplitude"):
        K = np.asarray(estimate_semi_amplitude(*args, **kw))
    require(K.shape == (len(P),), f"shape {K.shape}, expected {(len(P),)}")
    scale = np.max(np.abs(y)) + 1e-12
    tol = (1e-14 * cond**2 + 4e-15 * cond * (np.max(np.abs(x)) / P.min())) * scale * 10
    agree(K, want, rtol=1e-11, atol=tol, what="semi-amplitude")
    if c["noiseless"]:
        agree(K, c["K"], rtol=1e-9, atol=tol, what="semi-amplitude of noiseless data")
    mkw = dict(kw)
    M = 1.0
    if c["mass_form"] != "default":
        M = c["m_star"]
        mkw["m_star"] = M if c["mass_form"] == "number" else (M * u.M_sun).to(
            u.Unit(c["mass_form"]))
    with sut("estimate_minimum_mass"):
        mass = estimate_minimum_mass(*args, **mkw)
    require(mass.unit.is_equivalent(u.kg), f"estimate_minimum_mass has unit {mass.unit}")
    # m sin i << M: K = (2 pi G / P)^(1/3) m sin i / M^(2/3)
    fac = ((P * u.day / (2 * np.pi * const.G)) ** (1 / 3) * (M * u.M_sun) ** (2 / 3) * u.m / u.s
           ).to(u.M_jup).value
    agree(mass.to(u.M_jup).value, K * fac, rtol=2e-4, atol=1e-300, what="minimum mass (Jupiter masses)")
    require(str(mass.unit) in ("jupiterMass", "M_jup", "M_jupiter"), f"unit {mass.unit}")
    return info(True, f"n={len(P)}", f"t0={c['with_t0']}", f"yerr={c['yerr']}",
                "noiseless" if c["noiseless"] else "noisy",
                *{"form=" + c["form_" + k] for k in ("P", "x", "y")})


# -------------------------------------------------- invariances of the answer

def run_meta(c):
    """Independence of units and containers, weights as repeated points, scale equivariance."""
    P, x, y, e, t0 = data(c)
    y = np.asarray(y, float)
    _, cond = reference(P, x, y, e, t0 if c["with_t0"] else None)
    if cond > 1e3:
        raise SkipCase
    kw = dict(t0s=t0) if c["with_t0"] else {}
    err = None if e is None else np.broadcast_to(e, x.shape)
    scale = np.max(np.abs(y)) + 1e-12
    tol = (1e-13 * cond**2 + 4e-14 * cond * (np.max(np.abs(x)) / P.min())) * scale

    def est(P=P, x=x, y=y, err=err, **k):
        if err is not None:
            k["yerr"] = err
        with sut("estimate_semi_amplitude"):
            return np.asarray(estimate_semi_amplitude(P, x, y, **{**kw, **k}))

    K = est()
    args, kw2 = call_args(c, P, x, y, e, t0)
    with sut("estimate_semi_amplitude"):
        agree(np.asarray(estimate_semi_amplitude(*args, **kw2)), K, rtol=1e-10, atol=tol,
              what="same data in other containers and units")
    agree(est(y=3.0 * y), 3 * K, rtol=1e-10, atol=3 * tol, what="data times 3")
    agree(est(y=y + 100.0), K, rtol=1e-10, atol=tol * (1 + 100 / scale), what="data plus a constant")
    if err is not None:
        agree(est(err=7.0 * err), K, rtol=1e-10, atol=tol, what="all uncertainties times 7")
    # a point counted twice is a point with its variance halved
    k = c["seed"] % len(x)
    e1 = (np.ones(len(x)) if err is None else err).copy()
    e1[k] /= np.sqrt(2)
    agree(est(x=np.append(x, x[k]), y=np.append(y, y[k]),
              err=None if err is None else np.append(err, err[k])),
          est(err=e1), rtol=1e-9, atol=tol, what="a repeated point against half its variance")
    perm = np.random.default_rng(c["seed"]).permutation(len(x))
    agree(est(x=x[perm], y=y[perm], err=None if err is None else err[perm]), K, rtol=1e-10, atol=tol,
          what="points reordered")
    q = np.arange(len(P))[::-1]
    k2 = dict(t0s=t0[q]) if c["with_t0"] else {}
    agree(est(P=P[q], **k2)[q], K, rtol=1e-10, atol=tol, what="planets reordered")
    return info(True, f"n={len(P)}", f"t0={c['with_t0']}", f"yerr={c['yerr']}")


# --------------------------------------------- round trip through the orbit's RV

@st.composite
def orbit_case(draw):
    n = draw(st.sampled_from([1, 2, 3]))
    P = [draw(LU(0.5, 100.0))]
    while len(P) < n:
        P.append(P[-1] * draw(LU(1.5, 6.0)))
    return dict(P=P, t0=draw(vec(U(0.0, 1.0), n)), K=draw(vec(LU(0.1, 300.0), n)),
                m=draw(st.integers(4 * n + 4, 50)), seed=draw(st.integers(0, 2**31)),
                with_t0=draw(st.booleans()), off=draw(U(-50.0, 50.0)))


def run_orbit(c):
    P, K = np.array(c["P"]), np.array(c["K"])
    t0 = np.array(c["t0"]) * P
    x = np.sort(np.random.default_rng(c["seed"]).uniform(0, 6 * P.max(), c["m"]))
    with sut("RV of a circular orbit"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        orb = xo.orbits.KeplerianOrbit(period=P, t0=t0)
        rv = value(orb.get_radial_velocity(x, K=K)).reshape(len(x), len(P)).sum(axis=1)
    _, cond = reference(P, x, rv, None, t0 if c["with_t0"] else None)
    if cond > 1e4:
        raise SkipCase
    with sut("estimate_semi_amplitude"):
        got = estimate_semi_amplitude(P, x, rv + c["off"], **(dict(t0s=t0) if c["with_t0"] else {}))
    agree(np.asarray(got), K, rtol=1e-9, atol=1e-13 * cond**2 * (K.max() + abs(c["off"])),
          what="amplitudes of the RV curve of the orbit")
    return info(True, f"n={len(P)}", f"t0={c['with_t0']}")


CHECKS = [
    Check("lstsq", case(), run, 3000),
    Check("noiseless", case(True), run, 1500),
    Check("relations", case(), run_meta, 1500),
    Check("orbit_round_trip", orbit_case(), run_orbit, 150),
]
