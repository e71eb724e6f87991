"""C13 exposure time integration."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import (Check, LU, SkipCase, U, agree, arr, info, maybe, mix, require, sut, value,
                          vec)
from harness.env import xo
from harness.props import c11
from harness.sutorbit import get

RULE = (
    "random orbits (Keplerian, TTV, simple; 1-4 planets) with exposures around the transit, "
    "every order, oversample 1-25 (odd and even) and up to 501, scalar/per-time exposure, vector and matrix "
    "times, in-transit restriction on and off; non-trivial when the integrated flux is non-zero"
)
ASSUMPTIONS = ["the instantaneous light curve of the same object (decided by C12)",
               "order >= 1 needs at least two samples"]


@st.composite
def case(draw):
    c = draw(c11.case())
    n = len(c["times"])
    if c["kind"] == "simple" and c["r"] == "other":
        c = dict(c, r="own")
    lo = 1 if c["order"] == 0 else 2
    tx = draw(st.sampled_from(["scalar", "vector"]))
    f = mix(LU(1e-3, 1.5), 0.0)
    return dict(c, texp=draw(f) if tx == "scalar" else draw(vec(f, n)),
                oversample=draw(mix(st.integers(lo, 25), 7, max(lo, 2), 3, 101, 150, 501)),
                uit=draw(st.sampled_from([None, False, True])),
                matrix=draw(st.integers(0, 4)) == 0, omit=draw(st.integers(0, 4)) == 0)


def rule(order, S):
    """Offsets in units of the exposure and normalised weights."""
    S = S if S % 2 else S + 1
    if order == 0:
        return (np.arange(S) + 0.5) / S - 0.5, np.full(S, 1.0 / S)
    x = -0.5 + np.arange(S) / (S - 1)
    h = 1.0 / (S - 1)
    if order == 1:
        w = np.full(S, h)
        w[[0, -1]] *= 0.5
    else:
        w = np.array([h / 3 if i in (0, S - 1) else (4 * h / 3 if i % 2 else 2 * h / 3)
                      for i in range(S)])
    return x, w


def prepare(c):
    o, t, texp, r, n, D, P = c11.setup(c)
    if np.any(D > 0.35 * P):
        raise SkipCase()
    if c["kind"] == "ttv":
        orb = ref.TTV(c)
        if np.any(orb.nearest(t)[1] < 0.5 * np.max(texp) + np.max(D)):
            raise SkipCase()
    return o, t, texp, r, n, D, P


def weights(c):
    o, t, texp, r, n, D, P = prepare(c)
    lc = xo.LimbDarkLightCurve(*c["u"])
    # (the documented defaults when these are omitted)
    omit = c.get("omit", False)
    order, S = (0, 7) if omit else (c["order"], c["oversample"])
    x, w = rule(order, S)
    uit = {} if c["uit"] is None else dict(use_in_transit=c["uit"])
    kw = {} if omit else dict(oversample=S, order=order)
    grid = t[:, None] + np.broadcast_to(np.asarray(texp), t.shape)[:, None] * x
    tt, te = t, texp
    if c["matrix"] and c["uit"] is False:
        tt = np.stack([t, t[::-1]])
        te = texp if np.ndim(texp) == 0 else np.stack([texp, texp[::-1]])
    got, inst, centre = get(lambda: [
        lc.get_light_curve(orbit=o, r=r, t=tt, texp=te, **uit, **kw),
        lc.get_light_curve(orbit=o, r=r, t=grid.ravel(), use_in_transit=False),
        lc.get_light_curve(orbit=o, r=r, t=t, use_in_transit=False),
    ], "light curves", c.get("mode", "raw"))
    inst = inst.reshape(grid.shape + (n,))
    want = np.einsum("ijk,j->ik", inst, w)
    scale = np.max(np.abs(t)) / np.min(D)
    tol = 2e-11 + 1e-14 * scale
    if tt.ndim == 2:
        want = np.stack([want, want[::-1]])
    agree(got, want, 0, tol + (1e-9 if c["uit"] is not False else 0),
          f"order {order} quadrature with oversample {S}")
    if np.ndim(texp) == 0 and tt.ndim == 1:
        rep = get(lambda: lc.get_light_curve(orbit=o, r=r, t=t, texp=np.full(len(t), texp),
                                             **uit, **kw), "per-time exposure")
        agree(rep, got, 0, 1e-9, "scalar exposure repeated per time")
    else:
        z = np.broadcast_to(np.asarray(te) == 0, tt.shape)
        cc = centre if tt.ndim == 1 else np.stack([centre, centre[::-1]])
        agree(got[z], cc[z], 0, 1e-9, "zero exposure")
    return info(np.any(want < 0), c["kind"], "defaults" if omit else f"order {order}",
                "odd" if S % 2 else "even",
                "texp scalar" if np.ndim(texp) == 0 else "texp vector",
                "matrix" if tt.ndim == 2 else "vector")


def converge(c):
    """A fine rule approaches the true mean over the exposure, a short exposure the centre."""
    o, t, texp, r, n, D, P = prepare(c)
    lc = xo.LimbDarkLightCurve(*c["u"])
    t = t[:3]
    texp = texp if np.ndim(texp) == 0 else texp[:3]
    S = 101
    N = 1501
    x = (np.arange(N) + 0.5) / N - 0.5
    tx = np.broadcast_to(np.asarray(texp, float), t.shape)
    grid = t[:, None] + tx[:, None] * x
    tiny = 1e-6 * np.min(D)
    got, inst, short, centre = get(lambda: [
        lc.get_light_curve(orbit=o, r=r, t=t, texp=texp, order=c["order"], oversample=S),
        lc.get_light_curve(orbit=o, r=r, t=grid.ravel(), use_in_transit=False),
        lc.get_light_curve(orbit=o, r=r, t=t, texp=tiny, order=c["order"],
                           oversample=c["oversample"]),
        lc.get_light_curve(orbit=o, r=r, t=t),
    ], "light curves")
    inst = inst.reshape(grid.shape + (n,))
    mean = inst.mean(axis=1)
    depth = np.max(np.abs(inst)) + 1e-300
    step = np.max(np.abs(np.diff(inst, axis=1)), axis=1) * (N / S) if N > 1 else depth
    agree(got, mean, 0, 3 * step / S * 4 + depth * 2e-3 + 1e-9, "mean over the exposure")
    agree(short, centre, 0, 2e-5, "vanishing exposure")
    return info(np.any(mean < 0), c["kind"], f"order {c['order']}")


CHECKS = [
    Check("weights", case(), weights, 700),
    Check("converge", case(), converge, 160),
]
