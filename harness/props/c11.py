"""C11 use_in_transit never changes a light curve."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import (Check, LU, SkipCase, U, agree, arr, info, maybe, mix, require, sut, value,
                          vec)
from harness.env import xo
from harness.props import c10
from harness.sutorbit import get, make, make_ttv

RULE = (
    "random Keplerian, TTV and simple orbits with 1-4 planets, times concentrated around the "
    "contact times, every combination of exposure (none, scalar, per time), oversample and "
    "order; non-trivial when the light curve is non-zero somewhere and some time is excluded"
)
ASSUMPTIONS = ["values within 1e-9 of each other are equal (times at the contact points)"]


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["kepler", "kepler", "ttv", "simple"]))
    if kind == "simple":
        c = draw(c10.simple_case())
    else:
        c = draw(c10.case(ttv=kind == "ttv"))
    q1, q2 = draw(mix(U(0.0, 1.0), 1.0, 0.0)), draw(U(0.0, 1.0))
    return dict(c, kind=kind, u=[2 * q1**0.5 * q2, q1**0.5 * (1 - 2 * q2)],
                oversample=draw(mix(st.integers(2, 11), 25, 51, 101)),
                edge=draw(st.one_of(st.booleans(), LU(3e-3, 0.2))), order=draw(st.integers(0, 2)),
                explicit=draw(st.booleans()))


def setup(c):
    """Orbit, times, exposure, radii, number of planets and a duration scale."""
    if c["kind"] == "simple":
        names = ("period", "duration", "t0", "b", "r_star", "ror")
        with sut("SimpleTransitOrbit"):
            o = xo.orbits.SimpleTransitOrbit(**{k: arr(c[k]) for k in names})
        n = len(c["period"]) if isinstance(c["period"], list) else 1
        P, D, t0, k = [np.broadcast_to(np.asarray(c[x], float), (n,))
                       for x in ("period", "duration", "t0", "ror")]
        R = c["r_star"]
        rr = (k + (c["k2"] if c["r"] == "other" else 0.0)) * R
        start = lambda i, j: t0[i] + j * P[i]  # noqa: E731
    else:
        is_ttv = c["kind"] == "ttv"
        orb = ref.TTV(c) if is_ttv else ref.Orbit(c["p"])
        n = orb.nplanets[0] if orb.nplanets else 1
        a, e, w, ci, si, nn, P, t0, R = c10._elements(orb, n)
        if np.ptp(R) > 0:
            raise SkipCase()
        rr = np.broadcast_to(np.asarray(c["k"]) * R, (n,))
        if np.any(a * (1 - e) < 1.2 * (R + rr)):
            raise SkipCase()
        o = make_ttv(c) if is_ttv else make(c["p"])
        # only a scale: the chord of the transit
        f = (1 - e**2) / (1 + e * np.sin(w))
        v = a * nn / np.sqrt(1 - e**2) * np.maximum(1 + e * np.sin(w), 1e-3)
        b = a * f * np.abs(ci)
        D = 2 * np.sqrt(np.maximum((R + rr) ** 2 - b**2, (0.2 * R) ** 2)) / v
        if is_ttv:
            start = lambda i, j: orb.all_times[i][j % len(orb.all_times[i])]  # noqa: E731
        else:
            start = lambda i, j: t0[i] + j * P[i]  # noqa: E731
    t, contact = [], []
    for q in c["times"]:
        i = q["i"]
        at = {"start": -0.5 * D[i], "end": 0.5 * D[i], "mid": 0.0, "half": 0.5 * P[i],
              "phase": 0.5 * q["off"] * P[i]}[q["at"]]
        off = q["off"] * D[i] * q["scale"] if q["at"] in ("start", "end", "mid") else 0.0
        t.append(start(i, q["k"]) + at + off)
        contact.append(start(i, q["k"]) + at)
    t = np.array(t)
    texp = None
    if c["texp"] is not None:
        f = np.asarray(c["texp"], float)
        texp = (np.array([f[j] * D[q["i"]] for j, q in enumerate(c["times"])]) if f.ndim
                else float(f * D[0]))
        if np.max(texp) > 0.25 * np.min(P):
            raise SkipCase()
        if c.get("edge"):
            # the end of the exposure, not its middle, is close to the contact (or reaches a
            # fraction of the exposure into the transit)
            f = 0.0 if c["edge"] is True else c["edge"]
            s = np.array([{"start": -0.5, "end": 0.5}.get(q["at"], 0.0) for q in c["times"]])
            if f:
                t = np.where(s == 0, t, contact)
            t = t + s * (1 - 2 * f) * texp
    return o, t, texp, rr, n, D, P


def equal(c):
    o, t, texp, r, n, D, P = setup(c)
    if np.any(D > 0.35 * P):
        raise SkipCase()
    if c["kind"] == "ttv" and texp is not None:
        # an exposure straddling the switch between two labelled transits
        orb = ref.TTV(c)
        if np.any(orb.nearest(t)[1] < 0.5 * np.max(texp) + np.max(D)):
            raise SkipCase()
    lc = xo.LimbDarkLightCurve(*c["u"])
    kw = {} if texp is None else dict(texp=texp, oversample=c["oversample"], order=c["order"])
    if texp is not None and c["order"] > 0 and c["oversample"] < 2:
        raise SkipCase()
    uit = dict(use_in_transit=True) if c["explicit"] else {}
    mode = c.get("mode", "raw")
    on, off = get(lambda: [lc.get_light_curve(orbit=o, r=r, t=t, **uit, **kw),
                           lc.get_light_curve(orbit=o, r=r, t=t, use_in_transit=False, **kw)],
                  "light curve with and without use_in_transit", mode)
    require(on.shape == (len(t), n), f"shape {on.shape} with use_in_transit, expected {(len(t), n)}")
    require(off.shape == (len(t), n), f"shape {off.shape}, expected {(len(t), n)}")
    require(np.all(np.isfinite(off)), "non-finite light curve")
    agree(on, off, 0, 1e-9, "use_in_transit changes the light curve")
    idx = get(lambda: o.in_transit(t, r=r, **({} if texp is None else dict(texp=texp))),
              "in_transit", mode)
    out = np.ones(len(t), bool)
    out[idx] = False
    agree(on[out], 0 * on[out], 0, 0, "out-of-transit values")
    agree(off[out], 0 * off[out], 0, 1e-9, "out-of-transit values (evaluated everywhere)")
    return info(np.any(off < 0) and out.any(), c["kind"],
                "texp " + ("none" if texp is None else "vector" if np.ndim(texp) else "scalar"),
                f"order {c['order']}" if texp is not None else "instant", f"{n} planets")


CHECKS = [Check("equal", case(), equal, 900)]
