"""C10 in_transit."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import (Check, LU, SkipCase, U, Violation, agree, arr, info, maybe, mix, require,
                          sut, value, vec)
from harness.env import xo
from harness.sutorbit import get, make, make_ttv

RULE = (
    "random orbits outside the star (1-4 planets, circular/eccentric, TTV, simple), radii and "
    "exposures; times are placed at signed offsets (1e-4 to 1 durations) from the contact times "
    "of the reference, up to 1000 periods away, plus uniform times; non-trivial when the "
    "expected set is neither empty nor everything"
)
ASSUMPTIONS = [
    "times within 1e-6 durations (plus rounding) of a contact are not judged",
    "half the transit plus half the exposure is shorter than half a period",
    "pericentre above 1.2 (r_star + r); grazing |b| within 1% of the limit is not judged",
]
TH = np.linspace(-0.5 * np.pi, 0.5 * np.pi, 4001)


def _M(f, e):
    beta = e / (1 + np.sqrt(1 - e**2))
    E = f - 2 * np.arctan2(beta * np.sin(f), 1 + beta * np.cos(f))
    return E - e * np.sin(E)


def window(a, e, w, ci, si, n, lim):
    """Contact times relative to t0 ((start, end), None when there is no transit)."""
    f0 = 0.5 * np.pi - w

    def sep(th):
        r = a * (1 - e**2) / (1 + e * np.cos(f0 + th))
        return r * np.sqrt((np.cos(th) * ci) ** 2 + np.sin(th) ** 2)

    s = sep(TH)
    if np.any(np.abs(np.min(s) / lim - 1) < 0.01):
        raise SkipCase()
    inside = s < lim
    if not inside.any():
        return None
    d = np.diff(inside.astype(int))
    up, dn = np.flatnonzero(d == 1), np.flatnonzero(d == -1)
    if len(up) != 1 or len(dn) != 1:
        raise SkipCase()
    out = []
    for i, sgn in ((up[0], 1), (dn[0], -1)):
        lo, hi = TH[i], TH[i + 1]
        for _ in range(60):
            mid = 0.5 * (lo + hi)
            if (sep(mid) < lim) == (sgn > 0):
                hi = mid
            else:
                lo = mid
        out.append((_M(f0 + 0.5 * (lo + hi), e) - _M(f0, e)) / n)
    return tuple(out)


@st.composite
def radii(draw, n):
    el = mix(LU(1e-3, 0.3), 0.0)
    return draw(el) if n is None or draw(st.booleans()) else draw(vec(el, n))


def tame(p, k):
    """Keep the pericentre clear of the star."""
    if p.get("ecc") is None:
        return p
    o = ref.Orbit(dict(p))
    lim = 1 - 1.3 * o.R * (1 + np.max(k)) / o.a
    e = np.minimum(np.asarray(p["ecc"], float), np.min(lim))
    if np.min(e) < 0:
        e = np.asarray(p["ecc"], float) * 0.0
    return dict(p, ecc=e.tolist())


@st.composite
def plan(draw, n):
    """Where to put the times."""
    m = draw(st.integers(1, 10))
    return [
        dict(i=draw(st.integers(0, n - 1)), k=draw(mix(st.integers(-3, 3), 0, 1000, -1000)),
             at=draw(st.sampled_from(["start", "end", "mid", "phase", "half"])),
             off=draw(mix(U(-1.0, 1.0), 0.0)), scale=draw(st.sampled_from([1.0, 0.3, 0.03, 1e-3, 2e-4])))
        for _ in range(m)
    ]


@st.composite
def case(draw, ttv=False):
    if ttv:
        c = draw(gen.ttv_system(max_planets=3, orient=("b", "b", "none", "incl"), bmax=1.3, max_ecc=0.7))
        n = len(c.get("ttvs") or c["transit_times"])
        k = draw(radii(n))
        o = ref.TTV(c)
        c["p"] = {x: y for x, y in tame(dict(c["p"], period=o.P.tolist()), k).items()
                  if x != "period" or "period" in c["p"]}
        c = gen.ttv_fix_b(c, ref)
    else:
        p = draw(gen.system(max_planets=4, orient=("b", "b", "b", "incl", "none"), bmax=1.3,
                            max_ecc=0.9, period=(0.5, 1000.0)))
        try:
            n = ref.Orbit(dict(p, b=None)).nplanets
        except ValueError:
            n = ()
        k = draw(radii(n[0] if n else None))
        c = dict(p=gen.fix_b(tame(p, k), ref))
        n = n[0] if n else 1
    tx = draw(st.sampled_from(["none", "none", "scalar", "vector"]))
    times = draw(plan(n))
    texp = None
    if tx == "scalar":
        texp = draw(mix(U(0.0, 2.0), 0.0))
    elif tx == "vector":
        texp = draw(vec(mix(U(0.0, 2.0), 0.0), len(times)))
    return dict(c, k=k, times=times, texp=texp,
                mode=draw(st.sampled_from(["raw"] * 9 + ["fast"])))


def _elements(orb, n):
    F = lambda v: np.broadcast_to(np.asarray(v, float), (n,))  # noqa: E731
    return [F(v) for v in (orb.a, orb.e, orb.w, orb.ci, orb.si, orb.n, orb.P, orb.t0, orb.R)]


def _judge(idx, t, sure, maybe_, what):
    idx = np.asarray(idx)
    require(idx.ndim == 1, f"{what}: not a list of indices")
    require(np.all(np.diff(idx) > 0), f"{what}: indices are not increasing: {idx}")
    require(np.all((idx >= 0) & (idx < len(t))), f"{what}: index out of range {idx}")
    sel = np.zeros(len(t), bool)
    sel[idx] = True
    miss = sure & ~sel
    extra = sel & ~sure & ~maybe_
    if np.any(miss):
        raise Violation(f"{what}: dropped in-transit times {t[miss][:5].tolist()}")
    return extra


def in_transit(c):
    is_ttv = "ttvs" in c or "transit_times" in c
    orb = ref.TTV(c) if is_ttv else ref.Orbit(c["p"])
    o = make_ttv(c) if is_ttv else make(c["p"])
    n = orb.nplanets[0] if orb.nplanets else 1
    a, e, w, ci, si, nn, P, t0, R = _elements(orb, n)
    r = np.asarray(c["k"]) * (R if np.ndim(c["k"]) else R[0])
    rr = np.broadcast_to(r, (n,))
    if np.any(a * (1 - e) < 1.2 * (R + rr)):
        raise SkipCase()
    win = [window(a[i], e[i], w[i], ci[i], si[i], nn[i], R[i] + rr[i]) for i in range(n)]
    D = np.array([x[1] - x[0] if x else 0.1 * P[i] for i, x in enumerate(win)])
    # times
    t, base = [], []
    for q in c["times"]:
        i = q["i"]
        x = win[i] or (-0.5 * D[i], 0.5 * D[i])
        kk = q["k"]
        if is_ttv:
            ref_t = orb.all_times[i][kk % len(orb.all_times[i])]
        else:
            ref_t = t0[i] + kk * P[i]
        at = {"start": x[0], "end": x[1], "mid": 0.0, "half": 0.5 * P[i],
              "phase": q["off"] * P[i] * 0.5}[q["at"]]
        off = q["off"] * D[i] * q["scale"] if q["at"] in ("start", "end", "mid") else 0.0
        t.append((ref_t, at + off, i, q))
    texp = None
    hw = np.zeros(len(t))
    if c["texp"] is not None:
        f = np.asarray(c["texp"], float)
        if f.ndim:
            texp = np.array([f[j] * D[t[j][2]] for j in range(len(t))])
        else:
            texp = float(f * D[0])
        hw = np.broadcast_to(np.asarray(0.5 * texp), (len(t),))
    # shift edge times outwards so that the exposure edge, not its middle, is at the contact
    tt = []
    for j, (rt, at, i, q) in enumerate(t):
        s = {"start": -hw[j], "end": hw[j]}.get(q["at"], 0.0)
        tt.append(rt + at + s)
    t = np.array(tt)
    for i in range(n):
        ext = max(-win[i][0], win[i][1]) if win[i] else 0.0
        if ext + np.max(hw) > 0.5 * P[i]:
            raise SkipCase()
    sure = np.zeros(len(t), bool)
    maybe_ = np.zeros(len(t), bool)
    near, gap = orb.nearest(t) if is_ttv else (None, None)
    for i in range(n):
        if win[i] is None:
            continue
        c0 = near[:, i] if is_ttv else t0[i]
        dt = np.mod(t - c0 + 0.5 * P[i], P[i]) - 0.5 * P[i]
        amb = 1e-6 * D[i] + 1e-14 * (np.abs(t) + np.abs(t0[i]) + np.abs(P[i])) + 1e-12 * np.abs(t - c0)
        if is_ttv:
            amb = amb + orb.fit_error[i] * (1 + np.abs(t - c0) / P[i])
            # exposures that straddle the switch between two labelled transits
            maybe_ |= gap[:, i] < hw + amb
        s = (dt >= win[i][0] - hw + amb) & (dt <= win[i][1] + hw - amb)
        m = (dt >= win[i][0] - hw - amb) & (dt <= win[i][1] + hw + amb)
        # the wrap at half a period
        m |= (np.abs(np.abs(dt) - 0.5 * P[i]) < amb) & (
            (win[i][0] - hw < -0.5 * P[i] + amb) | (win[i][1] + hw > 0.5 * P[i] - amb))
        if is_ttv:
            s &= ~(gap[:, i] < hw + amb)
        sure |= s
        maybe_ |= m
    kw = {} if texp is None else dict(texp=texp)
    idx = get(lambda: o.in_transit(t, r=r, **kw), "in_transit", c["mode"])
    extra = _judge(idx, t, sure, maybe_, "in_transit")
    # an eccentric planet that isn't in transit at its conjunction: more may be selected
    lost = (not orb.circ) and any(x is None or x[0] > 0 or x[1] < 0 for x in win)
    if np.any(extra) and not lost:
        raise Violation(f"in_transit: selected times that are out of transit: {t[extra][:5].tolist()}")
    kind = "ecc with no transit" if lost else "circ" if orb.circ else "ecc"
    return info(sure.any() and not (sure | maybe_).all(), kind,
                "texp " + ("none" if texp is None else "vector" if np.ndim(texp) else "scalar"),
                "no transit" if any(x is None for x in win) else "transit")


@st.composite
def simple_case(draw):
    n = draw(maybe(st.integers(1, 3)))
    V = lambda el: draw(el) if n is None else np.asarray(draw(vec(el, n)))  # noqa: E731
    P = V(LU(0.5, 300.0))
    k = V(U(0.0, 0.3))
    m = 1 if n is None else n
    times = draw(plan(m))
    tx = draw(st.sampled_from(["none", "none", "scalar", "vector"]))
    texp = None
    if tx == "scalar":
        texp = draw(mix(U(0.0, 2.0), 0.0))
    elif tx == "vector":
        texp = draw(vec(mix(U(0.0, 2.0), 0.0), len(times)))
    L = lambda v: np.asarray(v).tolist()  # noqa: E731
    return dict(period=L(P), duration=L(P * V(U(0.005, 0.2))), t0=L(V(mix(U(-50.0, 50.0), 0.0))),
                b=L(V(mix(U(-0.95, 0.95), 0.0)) * (1 + k)), r_star=draw(LU(0.2, 5.0)), ror=L(k),
                r=draw(st.sampled_from(["none", "own", "other"])), k2=draw(U(0.0, 0.3)),
                times=times, texp=texp)


def simple(c):
    names = ("period", "duration", "t0", "b", "r_star", "ror")
    with sut("SimpleTransitOrbit"):
        o = xo.orbits.SimpleTransitOrbit(**{k: arr(c[k]) for k in names})
    n = len(c["period"]) if isinstance(c["period"], list) else 1
    P, D, t0, b, k = [np.broadcast_to(np.asarray(c[x], float), (n,))
                      for x in ("period", "duration", "t0", "b", "ror")]
    R = c["r_star"]
    half = 0.5 * D
    kw = {}
    if c["r"] == "own":
        kw["r"] = arr(c["ror"]) * R
    elif c["r"] == "other":
        k2 = k + c["k2"]
        kw["r"] = k2 * R if n > 1 or isinstance(c["period"], list) else float(k2[0] * R)
        half = 0.5 * D * np.sqrt(((1 + k2) ** 2 - b**2) / ((1 + k) ** 2 - b**2))
    if np.any(half > 0.45 * P):
        raise SkipCase()
    tt, hw = [], np.zeros(len(c["times"]))
    if c["texp"] is not None:
        f = np.asarray(c["texp"], float)
        texp = (np.array([f[j] * D[q["i"]] for j, q in enumerate(c["times"])]) if f.ndim
                else float(f * D[0]))
        kw["texp"] = texp
        hw = np.broadcast_to(0.5 * np.asarray(texp), (len(c["times"]),))
    for j, q in enumerate(c["times"]):
        i = q["i"]
        at = {"start": -half[i], "end": half[i], "mid": 0.0, "half": 0.5 * P[i],
              "phase": 0.5 * q["off"] * P[i]}[q["at"]]
        s = {"start": -hw[j], "end": hw[j]}.get(q["at"], 0.0)
        off = q["off"] * D[i] * q["scale"] if q["at"] in ("start", "end", "mid") else 0.0
        tt.append(t0[i] + q["k"] * P[i] + at + s + off)
    t = np.array(tt)
    if np.any(half[None, :] + hw[:, None] > 0.5 * P):
        raise SkipCase()
    sure, mb = np.zeros(len(t), bool), np.zeros(len(t), bool)
    for i in range(n):
        dt = np.abs(np.mod(t - t0[i] + 0.5 * P[i], P[i]) - 0.5 * P[i])
        amb = 1e-9 * D[i] + 1e-14 * (np.abs(t) + np.abs(t0[i]) + P[i])
        sure |= dt < half[i] + hw - amb
        mb |= dt <= half[i] + hw + amb
    idx = get(lambda: o.in_transit(t, **kw), "SimpleTransitOrbit.in_transit")
    extra = _judge(idx, t, sure, mb, "SimpleTransitOrbit.in_transit")
    if np.any(extra):
        raise Violation(f"SimpleTransitOrbit.in_transit: extra times {t[extra][:5].tolist()}")
    return info(sure.any() and not mb.all(), "r " + c["r"])


CHECKS = [
    Check("kepler", case(), in_transit, 2000),
    Check("ttv", case(ttv=True), in_transit, 500),
    Check("simple", simple_case(), simple, 800),
]
