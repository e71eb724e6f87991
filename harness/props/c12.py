"""C12 instantaneous transit light curves."""
import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen, ref, refflux
from harness.core import (Check, LU, SkipCase, U, agree, arr, info, maybe, mix, require, sut, value,
                          vec)
from harness.env import xo
from harness.props import c10, c11
from harness.sutorbit import get, make

from exoplanet.compat import tensor as pt

RULE = (
    "random limb darkening (mostly physical, corners included), radius ratios up to 3, impact parameters "
    "incl. 0, k, |1-k|, 1+k and offsets of 1e-9 around them, any stellar radius, both signs of "
    "Z; and full orbits; non-trivial when something is occulted"
)
ASSUMPTIONS = ["1e-12 absolute tolerance of the quadrature oracle (validated against its own "
               "coarser rule for each case)"]


def _u(draw):
    q1, q2 = draw(mix(U(0.0, 1.0), 1.0, 0.0)), draw(mix(U(0.0, 1.0), 0.0, 1.0))
    return [2 * q1**0.5 * q2, q1**0.5 * (1 - 2 * q2)]


def _anyu(draw):
    """Mostly physical; otherwise any profile with a positive flux (also limb brightened)."""
    if draw(st.integers(0, 3)):
        return _u(draw)
    u1, u2 = draw(U(-1.0, 1.2)), draw(U(-1.0, 1.0))
    return [u1, u2] if 1 - u1 / 3 - u2 / 6 > 0.3 else [u1 / 2, u2]


def physical(u):
    return u[0] >= 0 and u[0] + u[1] <= 1 + 1e-12 and u[0] + 2 * u[1] >= -1e-12


@st.composite
def geometry(draw):
    n = draw(st.integers(1, 3))
    N = draw(st.integers(1, 8))
    k = draw(vec(mix(U(0.001, 0.3), 0.1, 1.0, 1.5, 0.0, 3.0, 0.999999), n))
    pts = []
    for _ in range(N):
        row = []
        for i in range(n):
            kk = k[i]
            z = draw(mix(st.just(None), "0", "k", "in", "out", "in2"))
            if z is None:
                b = draw(U(0.0, 1.0)) * (1.05 + kk)
            else:
                b = {"0": 0.0, "k": kk, "in": abs(1 - kk), "out": 1 + kk, "in2": abs(1 - kk)}[z]
                b = abs(b + draw(st.sampled_from([0.0, 0.0, 1e-9, -1e-9, 1e-5, -1e-5])))
            row.append([b, draw(mix(U(-np.pi, np.pi), 0.0)), draw(st.sampled_from([1, 1, 1, -1]))])
        pts.append(row)
    return dict(k=k, pts=pts, u=_anyu(draw), vec=draw(st.integers(0, 4)) == 0,
                R=draw(mix(LU(0.01, 50.0), 1.0)), sym=draw(st.booleans()))


class Stub:
    def __init__(self, x, y, z, R):
        self.c, self.r_star = (x, y, z), R

    def get_relative_position(self, t, light_delay=False):
        return tuple(pt.as_tensor_variable(v) + 0 * pt.shape_padright(t) for v in self.c)


def make_lc(u, vector):
    with sut("LimbDarkLightCurve"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return xo.LimbDarkLightCurve(np.array(u)) if vector else xo.LimbDarkLightCurve(*u)


def stub(c):
    P = np.asarray(c["pts"], float)
    b, phi, sg = P[..., 0], P[..., 1], P[..., 2]
    k, R = np.asarray(c["k"]), c["R"]
    X, Y, Z = b * np.cos(phi), b * np.sin(phi), sg * 3.0
    lc = make_lc(c["u"], c["vec"])
    t = np.arange(len(P), dtype=float)
    Rt = pt.as_tensor_variable(R) if c["sym"] else R
    got, one = get(lambda: [
        lc.get_light_curve(orbit=Stub(X * R, Y * R, Z * R, Rt), r=k * R, t=t, use_in_transit=False),
        lc.get_light_curve(orbit=Stub(X, Y, Z, 1.0), r=k, t=t, use_in_transit=False)],
        "get_light_curve")
    bb = np.hypot(X, Y)
    want, err = refflux.transit(bb, k + 0 * bb, *c["u"], with_error=True)
    want = np.where(sg > 0, want, 0.0)
    # b within rounding of k is the subject of the tangent checks
    edge = (np.abs(bb - k) < 1e-12) & (sg > 0)
    want = np.where(edge, got, want)
    one = np.where(edge, got, one)
    # rounding of b: |df/db| is at most about 2 k / pi * I / norm, unbounded only in slope
    # changes, so an absolute tolerance is enough
    tol = 1e-12 if physical(c["u"]) else 1e-11
    agree(got, want, 0, tol + 20 * err, f"occulted flux, u={c['u']}")
    agree(one, got, 0, 1e-12, "scale invariance")
    got = np.where(edge, 0.0, got)
    if physical(c["u"]):
        require(got <= 1e-12, "brighter than the unocculted star")
        require(got >= -1 - 1e-12, "deeper than the star")
    gone = (bb > (1 + k) * (1 + 1e-12)) | (sg < 0)
    agree(got[gone], 0 * got[gone], 0, 1e-15, "behind or off the disk")
    agree(got[sg < 0], 0 * got[sg < 0], 0, 0, "behind the star")
    lab = []
    if np.any(k > 1):
        lab.append("k > 1")
    if np.any(gone):
        lab.append("off or behind")
    if np.any(bb == 0):
        lab.append("b = 0")
    if not physical(c["u"]):
        lab.append("unphysical u")
    return info(np.any(want < 0), "u vector" if c["vec"] else "u scalars", *lab)


@st.composite
def tangent_case(draw, sign):
    return dict(k=draw(mix(U(0.001, 2.0), 0.1, 0.25)), u=_u(draw),
                ulp=sign * draw(mix(st.integers(1, 1000), 1) if sign < 0
                                else mix(st.integers(0, 1000), 0, 1)))


def tangent(c):
    """The planet's limb passes exactly (to within rounding) over the centre of the disk."""
    k = c["k"]
    b = k + c["ulp"] * np.spacing(k)
    lc = make_lc(c["u"], False)
    got = get(lambda: lc.get_light_curve(
        orbit=Stub(np.array([[b]]), np.array([[0.0]]), np.array([[1.0]]), 1.0), r=k,
        t=np.array([0.0]), use_in_transit=False), "get_light_curve")
    want, err = refflux.transit(b, k, *c["u"], with_error=True)
    agree(got[0, 0], want, 0, 1e-12 + 20 * err, f"occulted flux at b = k{c['ulp']:+d} ulp")
    return info(True)


@st.composite
def orbit_case(draw):
    c = draw(c10.case())
    return dict(c, kind="kepler", texp=None, u=_u(draw), vec=draw(st.integers(0, 4)) == 0)


def orbits(c):
    o, t, _, r, n, D, P = c11.setup(c)
    orb = ref.Orbit(c["p"])
    lc = make_lc(c["u"], c["vec"])
    got = get(lambda: lc.get_light_curve(orbit=o, r=r, t=t), "get_light_curve", c["mode"])
    X, Y, Z = orb.body_pos(orb.A_rel, t)
    R = float(np.max(orb.R))
    tol = orb.angle_error(t) * orb.a * (1 + orb.e) + 0 * X
    if not orb.nplanets:
        X, Y, Z, tol = X[..., None], Y[..., None], Z[..., None], tol[..., None]
    sep = np.hypot(X, Y) / R
    k = r / R
    if np.any((np.abs(Z) < 3 * tol) & (sep < 1 + k)) or np.any(D > 0.35 * P):
        raise SkipCase()
    if refflux.unsafe(sep, k + 0 * sep):
        raise SkipCase()
    want = np.where(Z > 0, refflux.transit(sep, k + 0 * sep, *c["u"]), 0.0)
    agree(got, want, 0, 1e-9 + 3 * tol / R, "light curve of the orbit")
    return info(np.any(want < 0), "circ" if orb.circ else "ecc", f"{n} planets")


CHECKS = [
    Check("stub", geometry(), stub, 1200),
    Check("tangent", tangent_case(1), tangent, 100, shards=2),
    Check("tangent_below", tangent_case(-1), tangent, 40, shards=1),
    Check("orbits", orbit_case(), orbits, 400),
]
