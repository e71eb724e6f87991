"""C17 simple transit orbits."""
import numpy as np
from hypothesis import strategies as st

from harness import refflux
from harness.core import (Check, LU, SkipCase, U, agree, arr, compile_fn, info, maybe, mix, must_raise,
                          require, sut, value, vec)
from harness.env import xo
from harness.props.c12 import _u
from harness.sutorbit import get

from exoplanet.compat import tensor as pt

RULE = (
    "random period, duration, t0, b, r_star, ror, each scalar or per planet (1-3 planets), "
    "times at signed fractions of the duration and period up to 1000 periods away; non-trivial "
    "always (times inside and outside are labelled)"
)
ASSUMPTIONS = ["the side of an instant within rounding of half a duration is not judged"]
NAMES = ("period", "duration", "t0", "b", "r_star", "ror")


@st.composite
def case(draw):
    n = draw(maybe(st.integers(1, 3)))
    L = lambda v: np.asarray(v).tolist()  # noqa: E731

    def V(el, force=False):
        if n is None or (not force and draw(st.booleans())):
            return draw(el)
        return np.asarray(draw(vec(el, n)))

    P = V(mix(LU(0.3, 1000.0), 1.0), True)
    D = P * V(mix(U(0.001, 0.3), 0.1))
    k = V(mix(U(0.0, 0.5), 0.0, 0.1))
    b = V(mix(U(-0.97, 0.97), 0.0, 0.5)) * (1 + k)
    c = dict(period=L(P), duration=L(D), b=L(b), ror=L(k))
    if draw(st.booleans()):
        c["t0"] = L(V(mix(U(-100.0, 100.0), 0.0)))
    if draw(st.booleans()):
        c["r_star"] = draw(LU(0.1, 20.0))
    for q in ("ror", "b"):
        if draw(st.integers(0, 4)) == 0:
            del c[q]
            if q == "ror" and "b" in c:
                c["b"] = L(np.asarray(c["b"]) / (1 + k))
    m = 1 if n is None else n
    c["pts"] = [dict(i=draw(st.integers(0, m - 1)), n=draw(mix(st.integers(-5, 5), 0, 1000, -1000)),
                     unit=draw(st.sampled_from(["half", "half", "period"])),
                     x=draw(mix(U(-1.5, 1.5), 0.0, 1.0, -1.0, 0.999, -1.001)))
                for _ in range(draw(st.integers(1, 8)))]
    c["scalar_t"] = draw(st.integers(0, 5)) == 0
    c["u"] = _u(draw)
    c["sym"] = draw(st.integers(0, 3)) == 0
    return c


def build(c):
    kw = {k: c[k] if c["sym"] else arr(c[k]) for k in NAMES if k in c}
    with sut("SimpleTransitOrbit (lists)" if c["sym"] else "SimpleTransitOrbit"):
        return xo.orbits.SimpleTransitOrbit(**kw)


def full(c):
    n = len(c["period"]) if isinstance(c["period"], list) else 1
    d = dict(t0=0.0, b=0.0, r_star=1.0, ror=0.0)
    return n, [np.broadcast_to(np.asarray(c.get(k, d.get(k)), float), (n,)) for k in NAMES]


def times(c):
    n, (P, D, t0, b, R, k) = full(c)
    t = []
    for q in c["pts"]:
        i = q["i"]
        t.append(t0[i] + q["n"] * P[i] + q["x"] * (0.5 * D[i] if q["unit"] == "half" else P[i]))
    return np.array(t)


def path(c):
    n, (P, D, t0, b, R, k) = full(c)
    o = build(c)
    t = times(c)
    if c["scalar_t"]:
        t = t[0]
    tt = np.atleast_1d(t)
    out = get(lambda: list(o.get_relative_position(t)) + list(o.get_planet_position(t))
              + list(o.get_star_position(t)), "positions")
    dt = np.mod(tt[:, None] - t0 + 0.5 * P, P) - 0.5 * P
    v = 2 * R * np.sqrt((1 + k) ** 2 - b**2) / D
    rnd = 4e-16 * (np.abs(tt)[:, None] + np.abs(t0) + P) * 4
    sh = tuple(s for s in np.shape(t) + ((n,) if isinstance(c["period"], list) else (1,)) if s != 1)
    x = v * dt
    # the wrap at half a period has two equally good values
    wrap = np.abs(np.abs(dt) - 0.5 * P) < 2 * rnd
    X, Y, Z = [np.asarray(q) for q in out[:3]]
    for q, nm in zip((X, Y, Z), "xyz"):
        require(q.shape == sh, f"shape of {nm}: {q.shape}, expected {sh}")
    Xf, Yf, Zf = [q.reshape(dt.shape) for q in (X, Y, Z)]
    agree(np.where(wrap, np.abs(Xf), Xf), np.where(wrap, np.abs(x), x), 1e-12, v * rnd, "x")
    agree(Yf, b * R + 0 * dt, 1e-14, 0, "y = b r_star")
    ins, outs = np.abs(dt) < 0.5 * D - rnd, np.abs(dt) > 0.5 * D + rnd
    require(Zf[ins] > 0, "z must be positive inside the transit")
    require(Zf[outs] < 0, "z must be negative outside the transit")
    for q, w in zip(out[3:6], out[:3]):
        agree(q, w, 1e-14, 0, "planet position = relative position")
    for q in out[6:]:
        agree(q, 0 * np.asarray(t), 0, 0, "star position")
    # separation at half a duration from mid-transit
    ends = np.concatenate([t0 - 0.5 * D, t0 + 0.5 * D])
    e = get(lambda: list(o.get_relative_position(ends)), "positions")
    X, Y = [np.reshape(q, (2, n, n)) for q in e[:2]]
    i = np.arange(n)
    agree(np.hypot(X, Y)[:, i, i], ((1 + k) * R)[None, :] + np.zeros((2, n)), 0,
          (1 + k) * R * 1e-12 + v * 8e-16 * (np.abs(t0) + P) * 4, "separation at first and last contact")
    return info(True, *(x for x, y in (("inside", ins.any()), ("outside", outs.any())) if y),
                "scalar t" if c["scalar_t"] else "vector t")


def light_curve(c):
    n, (P, D, t0, b, R, k) = full(c)
    o = build(c)
    t = times(c)
    lc = xo.LimbDarkLightCurve(*c["u"])
    r = k * R
    shift = c["pts"][0]["n"] * P[0]
    got, nxt = get(lambda: [lc.get_light_curve(orbit=o, r=r, t=t),
                            lc.get_light_curve(orbit=o, r=r, t=t + shift)], "light curve")
    dt = np.mod(t[:, None] - t0 + 0.5 * P, P) - 0.5 * P
    v = 2 * np.sqrt((1 + k) ** 2 - b**2) / D
    s = np.hypot(v * dt, b)
    inside = np.abs(dt) < 0.5 * D
    kk = k + 0 * s
    if refflux.unsafe(np.where(inside, s, 9.0), kk):
        raise SkipCase()
    want = np.where(inside, refflux.transit(s, kk, *c["u"]), 0.0)
    tol = 2e-9 + 3 * v * 2e-15 * (np.abs(t)[:, None] + np.abs(t0) + P)
    agree(got, want, 0, tol, "light curve of a simple orbit")
    agree(nxt[:, 0], got[:, 0], 0, (tol * 3 + 4e-15 * abs(shift) * v)[:, 0], "periodicity")
    out = np.abs(dt) > 0.5 * D * (1 + 1e-9) + 1e-14 * (np.abs(t)[:, None] + np.abs(t0) + P)
    agree(got[out], 0 * got[out], 0, 0, "outside the transit")
    return info(np.any(want < 0))


def refuse(c):
    o = build(c)
    t = times(c)
    lc = xo.LimbDarkLightCurve(*c["u"])
    for nm in ("get_planet_velocity", "get_star_velocity", "get_radial_velocity"):
        with must_raise(NotImplementedError, nm):
            getattr(o, nm)(t)
    with must_raise(NotImplementedError, "get_radial_velocity with units"):
        o.get_radial_velocity(t, output_units="m/s")
    for nm in ("get_relative_position", "get_planet_position", "in_transit"):
        with must_raise(NotImplementedError, nm + " with light_delay"):
            getattr(o, nm)(t, light_delay=True)
    with must_raise(NotImplementedError, "light curve with light_delay"):
        lc.get_light_curve(orbit=o, r=0.1, t=t, light_delay=True)
    return info(True)


def symbolic(c):
    """The same orbit from tensors."""
    kw = {k: arr(c[k]) for k in NAMES if k in c}
    with sut("SimpleTransitOrbit from tensors"):
        o = xo.orbits.SimpleTransitOrbit(**{k: pt.as_tensor_variable(v) for k, v in kw.items()})
    o2 = build(c)
    t = times(c)
    a, b = get(lambda: list(o.get_relative_position(t)), "tensors"), get(
        lambda: list(o2.get_relative_position(t)), "arrays")
    n, (P, D, t0, _, R, k) = full(c)
    for x, y, nm in zip(a, b, "xyz"):
        agree(x, y, 1e-13, 0, nm) if nm != "z" else None
    return info(True)


CHECKS = [
    Check("path", case(), path, 700),
    Check("light_curve", case(), light_curve, 500),
    Check("refuse", case(), refuse, 60, shards=2),
    Check("symbolic", case(), symbolic, 150, shards=4),
]
