"""C30 interpolated light curves."""
import warnings

import numpy as np
from hypothesis import strategies as st

from harness.core import (Check, LU, SkipCase, U, agree, info, maybe, mix, require, sut, vec)
from harness.env import xo
from harness.props.c12 import _u
from harness.sutorbit import get

from exoplanet.compat import tensor as pt

RULE = (
    "1-3 planets (scalar, length-one, vector and shared ephemerides; circular, eccentric, "
    "straight-line), 1-3000 phases, times in chosen grid cells and at knots any number of periods "
    "away, exposures, in-transit and light-delay settings, limb-darkened, secondary-eclipse and "
    "synthetic harmonic base light curves; non-trivial when the base light curve varies over the "
    "knots used"
)
ASSUMPTIONS = [
    "num_planets is given (without PyMC3 test values it cannot be inferred)",
    "the base light curve is periodic: exposure times are scalars, no transit timing variations",
]


@st.composite
def case(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    c = dict(n=n, base=draw(st.sampled_from(["ld", "ld", "ld", "secondary", "harmonic", "harmonic"])),
             which=draw(st.sampled_from(["kepler", "kepler", "simple"])),
             P=draw(vec(LU(0.5, 100.0), n)), t0=draw(vec(U(-20.0, 20.0), n)), b=draw(vec(U(0.0, 0.9), n)),
             r=draw(vec(LU(0.01, 0.3), n)), u1=_u(draw), u2=_u(draw), s=draw(LU(0.01, 10.0)),
             form=draw(st.sampled_from(["scalar", "vector"])),
             N=draw(mix(st.integers(20, 400), 1, 2, 3, 1000, 3000)),
             texp=draw(maybe(U(0.001, 0.05))), order=draw(st.integers(0, 2)),
             oversample=draw(st.integers(3, 8)), uit=draw(st.sampled_from([None, True, False])),
             delay=draw(st.booleans()), shared=draw(st.sampled_from(["no", "no", "t0"])),
             mode=draw(st.sampled_from(["raw", "raw", "raw", "fast"])),
             omit=draw(st.integers(0, 3)) == 0)
    if draw(st.booleans()):
        c["ecc"], c["omega"] = draw(vec(U(0.0, 0.3), n)), draw(vec(U(-3.0, 3.0), n))
    c["pts"] = [dict(i=draw(st.integers(0, n - 1)),
                     at=draw(st.sampled_from(["transit", "transit", "half", "any", "knot", "end"])),
                     x=draw(U(-0.6, 0.6)), m=draw(mix(st.integers(-3, 3), 0, -1, 1000)))
                for _ in range(draw(st.integers(1, 8)))]
    c["amp"] = draw(vec(U(-1.0, 1.0), 4))
    return c


DEFAULTS = dict(oversample=7, order=0, use_in_transit=None, light_delay=False, texp=None)


class Harmonic:
    """A base light curve with known periodic columns which records its arguments."""

    def __init__(self, P, t0, amp):
        self.P, self.t0, self.amp, self.calls = P, t0, amp, []

    def get_light_curve(self, orbit=None, r=None, t=None, texp=None, oversample=7, order=0,
                        use_in_transit=None, light_delay=False):
        self.calls.append(dict(orbit=orbit, r=r, texp=texp, oversample=oversample, order=order,
                               use_in_transit=use_in_transit, light_delay=light_delay))
        t = pt.as_tensor_variable(t)
        ph = 2 * np.pi * (t[..., None] - self.t0) / self.P
        a = self.amp
        return a[0] * pt.cos(ph) + a[1] * pt.sin(ph) + a[2] * pt.cos(3 * ph) + a[3] * pt.sin(7 * ph)


def run(c):
    n = c["n"]
    sc = n == 1 and c["form"] == "scalar"
    P, t0 = np.array(c["P"]), np.array(c["t0"])
    if c["shared"] == "t0":
        t0 = np.full(n, t0[0])
    v = (lambda x: float(np.ravel(x)[0])) if sc else (lambda x: np.asarray(x, float))
    r, b = np.array(c["r"]), np.array(c["b"])
    kw = dict(period=v(P), t0=v(t0), b=v(b))
    if c["shared"] == "t0":
        kw["t0"] = float(t0[0])
    delay = c["delay"]
    which = c["which"] if c["base"] != "secondary" else "kepler"
    if which == "kepler":
        if "ecc" in c:
            kw.update(ecc=v(c["ecc"]), omega=v(c["omega"]))
            if np.any((P / 365.25) ** (2 / 3.0) * 215 * (1 - np.array(c["ecc"])) < 2):
                raise SkipCase()
        kw["m_planet"] = v(0 * P + 1e-3)
        build = xo.orbits.KeplerianOrbit
    else:
        # the duration between outer contacts, so that the base light curve is continuous
        kw.update(duration=v(0.1 * P), ror=v(r))
        delay = False
        build = xo.orbits.SimpleTransitOrbit
    with sut("building the orbit"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        orb = build(**kw)
    if c["base"] == "ld":
        base = xo.LimbDarkLightCurve(*c["u1"])
    elif c["base"] == "secondary":
        base = xo.SecondaryEclipseLightCurve(c["u1"], c["u2"], c["s"])
    else:
        base = Harmonic(P, t0, c["amp"])
    uit = c["uit"]
    if delay and uit:
        uit = None
    lkw = dict(light_delay=delay, order=c["order"], oversample=c["oversample"], use_in_transit=uit)
    if c.get("omit"):
        # leave every argument at its default
        lkw = {k: v for k, v in lkw.items() if v and k not in ("order", "oversample")}
    if c["texp"] is not None:
        lkw["texp"] = c["texp"] * float(P.min())

    N = c["N"]
    t = []
    for q in c["pts"]:
        i = q["i"]
        dx = P[i] / (N + 1)
        x = dict(transit=q["x"] * 0.05, half=0.5 + 0.05 * q["x"], any=q["x"], end=q["x"] * 1e-13,
                 knot=np.round(q["x"] * (N + 1)) / (N + 1))[q["at"]]
        t.append(t0[i] + q["m"] * P[i] + x * P[i])
    t = np.array(t)
    rr = v(r)
    with sut("InterpolatedLightCurve"):
        lc = xo.InterpolatedLightCurve(base, N, num_planets=n)
        out = lc.get_light_curve(orbit=orb, r=rr, t=t, **lkw)
    if c["base"] == "harmonic":
        require(base.calls, "base light curve not used")
        for call in base.calls:
            require(call["orbit"] is orb and call["r"] is rr, "orbit or radius not passed through")
            for k, x in dict(DEFAULTS, **lkw).items():
                require(call[k] is x or call[k] == x, f"{k} passed as {call[k]} instead of {x}")
    # the knots around each time, at the cycle of that time
    knots = np.empty((len(t), n, 4))
    frac = np.empty((len(t), n))
    for i in range(n):
        dx = P[i] / (N + 1)
        m = np.floor((t - t0[i]) / P[i])
        j = np.floor((t - t0[i] - m * P[i]) / dx)
        for k in range(4):
            knots[:, i, k] = t0[i] + m * P[i] + (j + k - 1) * dx
        frac[:, i] = (t - knots[:, i, 1]) / dx
    flat = knots.ravel()
    with sut("base light curve"):
        at_knots = base.get_light_curve(orbit=orb, r=rr, t=flat, **lkw)
        direct = base.get_light_curve(orbit=orb, r=rr, t=t, **lkw)
    got, y, d = get([out, at_knots, direct], "interpolated light curve", c["mode"])
    require(got.shape == (len(t), n), f"shape {got.shape}, {n} planets and {len(t)} times")
    y = y.reshape(len(t), n, 4, n)
    y = np.stack([y[:, i, :, i] for i in range(n)], axis=1)
    x = frac
    w = np.stack([-x * (x - 1) * (x - 2) / 6, (x + 1) * (x - 1) * (x - 2) / 2,
                  -(x + 1) * x * (x - 2) / 2, (x + 1) * x * (x - 1) / 6], axis=-1)
    want = np.sum(w * y, axis=-1)
    # rounding of the folded times: moves x by eps * t / dx, and the knots by eps * t
    eps = 2e-15 * (np.abs(t)[:, None] + np.abs(t0) + P)
    var = np.ptp(y, axis=-1)
    # a contact is no smoother than a square root (grazing geometry: linear) in the sky position
    speed = 2 * np.pi * (7 if c["base"] == "harmonic" else 400) / P
    tol = 1e-10 + 40 * eps / (P / (N + 1)) * var + 10 * eps * speed
    agree(got, want, 0, tol, "cubic through the surrounding grid values")
    knot = np.abs(x - np.round(x)) < 1e-9
    if np.any(knot):
        agree(got[knot], d[knot], 0, (1e-10 + 1e-7 * var + tol)[knot], "value at a grid point")
    require(np.all(np.abs(got - d) <= 2.5 * np.maximum(
        np.max(np.abs(y - d[..., None]), axis=-1), 1e-9)), "interpolation far from the base light curve")
    lab = [c["base"], which, f"n{n}", "scalar" if sc else "vector"]
    return info(bool(np.any(var > 1e-8)), *lab)


@st.composite
def fine_case(draw):
    c = draw(case())
    c["base"] = draw(st.sampled_from(["ld", "secondary"]))
    return c


def converge(c):
    """Refining the grid brings the interpolation to the base light curve."""
    P = np.array(c["P"])
    n = c["n"]
    t0, b, r = np.array(c["t0"]), np.array(c["b"]), np.array(c["r"])
    o = xo.orbits.KeplerianOrbit(period=P, t0=t0, b=b, m_planet=0 * P + 1e-3)
    base = (xo.LimbDarkLightCurve(*c["u1"]) if c["base"] == "ld"
            else xo.SecondaryEclipseLightCurve(c["u1"], c["u2"], c["s"]))
    T = (P / np.pi) / (4.2 * P ** (2 / 3.0))  # about the duration of a transit
    t = np.array([t0[i] + 0.5 * P[i] * (k % 2) + q["m"] * P[i] + q["x"] * T[i]
                  for i in range(n) for k, q in enumerate(c["pts"])])
    outs = [base.get_light_curve(orbit=o, r=r, t=t)]
    for step in (10.0, 1000.0):
        # the grid step of the longest period is T / step
        N = int(np.ceil(np.max(P / T) * step))
        if N > 300000:
            raise SkipCase()
        with sut("InterpolatedLightCurve"):
            outs.append(xo.InterpolatedLightCurve(base, N, num_planets=n).get_light_curve(
                orbit=o, r=r, t=t))
    d, *ys = get(outs, "interpolated light curve")
    depth = np.max(r) ** 2 * (3 + (c["s"] if c["base"] == "secondary" else 0))
    errs = [float(np.max(np.abs(y - d))) for y in ys]
    # the ingress, about r * T, is resolved by 1000 r steps
    require(errs[1] <= 1e-9 + depth * max(0.01, 1e-3 / np.min(r)),
            f"no convergence: errors {errs} with 10 and 1000 steps per transit, depth {depth}")
    return info(bool(np.any(d < -1e-6)), c["base"])


CHECKS = [
    Check("cubic", case(), run, 260),
    Check("converge", fine_case(), converge, 30),
]
