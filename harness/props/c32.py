"""C32 radius ratio from an approximate transit depth."""
import numpy as np
from hypothesis import strategies as st

from harness.core import (Check, LU, SkipCase, U, UO, agree, compile_fn, info, mix, require, sut, vec)
from harness.env import xo
from harness.props.c12 import _anyu as _u
from harness.sutorbit import get

from exoplanet.compat import tensor as pt

RULE = (
    "depths 1e-12-1, impact parameters in (-1, 1) including 0 and the limb, quadratic limb "
    "darkening (mostly physical) given as two numbers or a vector, scalar, vector and matrix shapes, literal and "
    "symbolic inputs; the light curve at conjunction for radius ratios 1e-4-0.1; non-trivial when "
    "the star is limb darkened or b is not 0"
)
ASSUMPTIONS = ["the depth is broadcastable to the shape of b, which is the shape of the result"]
B = mix(UO(-1.0, 1.0), 0.0, 0.999999, -0.5)


def intensity(b, u1, u2):
    mu = np.sqrt((1 - b) * (1 + b))
    return 1 - u1 * (1 - mu) - u2 * (1 - mu) ** 2


@st.composite
def case(draw):
    shape = draw(st.sampled_from([[], [], [1], [3], [5], [2, 3]]))
    n = int(np.prod(shape))
    dshape = draw(st.sampled_from([[], shape, shape]))
    return dict(shape=shape, dshape=dshape, b=draw(vec(B, n)),
                d=draw(vec(mix(LU(1e-12, 1.0), 1e-4), int(np.prod(dshape)))), u=_u(draw),
                uvec=draw(st.booleans()), sym=draw(st.booleans()), scale=draw(LU(1e-3, 1e3)),
                mode=draw(st.sampled_from(["raw", "raw", "fast"])))


def run(c):
    u1, u2 = c["u"]
    b = np.array(c["b"]).reshape(c["shape"])
    d = np.array(c["d"]).reshape(c["dshape"])
    ld = intensity(b, u1, u2) / (1 - u1 / 3 - u2 / 6)
    if np.any(ld < 1e-6):
        raise SkipCase()
    with sut("LimbDarkLightCurve"):
        lc = xo.LimbDarkLightCurve([u1, u2]) if c["uvec"] else xo.LimbDarkLightCurve(u1, u2)
    b_ = float(b) if b.ndim == 0 else b
    d_ = float(d) if d.ndim == 0 else d

    def outs(b, d, s):
        f = lc.get_ror_from_approx_transit_depth
        return [f(d, b), *f(d, b, jac=True), f(d * s, b)]

    if c["sym"]:
        x = pt.tensor("x", shape=(None,) * b.ndim, dtype="float64")
        y = pt.tensor("y", shape=(None,) * d.ndim, dtype="float64")
        with sut("get_ror_from_approx_transit_depth"):
            got = compile_fn([x, y], outs(x, y, c["scale"]), c["mode"])(b, d)
    else:
        got = get(lambda: outs(b_, d_, c["scale"]), "get_ror_from_approx_transit_depth", c["mode"])
    ror, ror2, jac, scaled = [np.asarray(g) for g in got]
    D = np.broadcast_to(d, b.shape)
    # the argument 1 - sqrt(1 - b^2) is rounded at the limb
    rt = 1e-13 + 1e-15 / (np.sqrt(1 - b**2) * ld)
    want = np.sqrt(D / ld)
    agree(ror, want, 0, rt * want, "radius ratio")
    require(np.array_equal(ror, ror2), "the value depends on jac")
    agree(scaled, np.sqrt(c["scale"]) * want, 0, rt * np.sqrt(c["scale"]) * want,
          "radius ratio of a scaled depth")
    agree(jac, 0.5 * want / D, 0, 2 * rt * 0.5 * want / D, "d ror / d delta")
    return info(u1 != 0 or u2 != 0 or np.any(b), "sym" if c["sym"] else "literal",
                f"ndim{b.ndim}", "uvec" if c["uvec"] else "u1,u2")


@st.composite
def limit_case(draw):
    return dict(b=draw(B), u=_u(draw), ror=draw(LU(1e-4, 0.1)), period=draw(LU(1.0, 300.0)),
                R=draw(LU(0.2, 5.0)), n=draw(st.integers(-3, 3)), neg=draw(st.booleans()))


def small_planet(c):
    """The depth of the light curve at conjunction lies between the extremes of the profile."""
    u1, u2 = c["u"]
    b, k = abs(c["b"]), c["ror"]
    if b + k >= 1:
        raise SkipCase()
    grid = intensity(np.linspace(max(0.0, b - k), b + k, 400), u1, u2)
    I0 = intensity(b, u1, u2)
    if grid.min() < 1e-4:
        raise SkipCase()
    delta = k**2 * I0 / (1 - u1 / 3 - u2 / 6)
    if delta >= 1:
        raise SkipCase()
    with sut("light curve"):
        lc = xo.LimbDarkLightCurve(u1, u2)
        ror = lc.get_ror_from_approx_transit_depth(delta, c["b"])
        o = xo.orbits.KeplerianOrbit(period=c["period"], b=b, r_star=c["R"], m_star=c["R"] ** 3)
        f = lc.get_light_curve(orbit=o, r=ror * c["R"], t=np.array([c["n"] * c["period"]]))
    g, f = get([ror, f], "light curve")
    agree(g, k, 1e-9, 0, "radius ratio")
    depth = -float(np.ravel(f)[0])
    slack = 1e-6 + 1e-13 / k**2 + 1e-7 / np.sqrt(1 - b - k + 1e-3)
    # the profile varies by less than its spacing between the samples of the grid
    slack += np.max(np.abs(np.diff(grid))) / I0
    lo, hi = delta * grid.min() / I0, delta * grid.max() / I0
    require(lo * (1 - slack) <= depth <= hi * (1 + slack),
            f"depth {depth} of the light curve outside [{lo}, {hi}] for requested depth {delta}")
    return info(True, "tiny" if k < 1e-3 else "small", f"tight{int(-np.log10((hi - lo) / lo + 1e-9))}")


CHECKS = [
    Check("formula", case(), run, 400),
    Check("small_planet", limit_case(), small_planet, 200),
]
