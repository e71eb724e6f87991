"""Structured generators of valid system descriptions (JSON-able dicts)."""
import numpy as np
from hypothesis import strategies as st

from harness.core import LU, U, UO, mix, vec

PI = float(np.pi)


def omega_s():
    return mix(U(-PI, PI), 0.0, PI / 2, -PI / 2, PI, -PI, 3.5, -4.0)


def ecc_s(hi=0.95):
    if hi > 0.95:
        # orbits close to parabolic get a weight of their own
        near = LU(1 - hi, 0.05).map(lambda d: 1 - d)
        return st.integers(0, 3).flatmap(lambda k: near if k == 3 else ecc_s())
    return mix(U(0.0, hi), 0.0, hi, 1e-9, 0.5)


@st.composite
def system(
    draw,
    max_planets=5,
    ecc=None,            # None: either; True / False
    max_ecc=0.95,
    orient=("none", "b", "incl"),
    masses=None,         # None: either
    star=("none", "rho", "rho_r", "m_r", "rho_m"),
    size=("period", "a", "both"),
    times=("none", "t0", "tp"),
    Omega=None,
    scalar=None,         # True: scalar parameters only; False: vectors only
    period=(0.3, 3000.0),
    bmax=1.2,
    same_vec=False,      # every vector-capable parameter a vector
    wide=False,          # also giants, white dwarfs, binaries, very short and very long periods
):
    """A valid KeplerianOrbit specification.  The size parameter (period or a) carries the
    planet axis; every other per-planet parameter is a scalar or a vector of that length."""
    sc = draw(st.booleans()) if scalar is None else scalar
    n = None if sc else draw(st.integers(1, max_planets))

    def P(el, force=False):
        if n is None:
            return draw(el)
        if force or same_vec or draw(st.booleans()):
            return draw(vec(el, n))
        return draw(el)

    p = {}
    wide = wide and draw(st.integers(0, 2)) == 0
    if wide:
        period = (0.02, 1e6)
    sz = draw(st.sampled_from(size))
    starmode = "none" if sz == "both" else draw(st.sampled_from(star))
    if "rho" in starmode:
        p["rho_star"] = draw(LU(1e-6, 1e6) if wide else LU(0.05, 20.0))
    if "m" in starmode:
        p["m_star"] = draw(LU(0.01, 100.0) if wide else mix(LU(0.1, 10.0), 1.0))
    if "_r" in starmode or (sz == "both" and draw(st.booleans())):
        p["r_star"] = draw(LU(0.01, 200.0) if wide else mix(LU(0.1, 5.0), 1.0))
    if sz in ("period", "both"):
        p["period"] = P(mix(LU(*period), 1.0, 10.0), True)
    if sz == "a":
        p["a"] = P(LU(0.5, 1e6) if wide else LU(8.0, 2000.0), True)
    if sz == "both":
        # a/R consistent with a star between 0.1 and 10 solar masses
        per = np.atleast_1d(np.asarray(p["period"], float))
        ms = np.array([draw(LU(0.1, 10.0)) for _ in per])
        a = np.cbrt(2942.2 * ms * per**2 / (4 * np.pi**2))
        p["a"] = [float(x) for x in a] if n is not None else float(a[0])
    has_ecc = draw(st.booleans()) if ecc is None else ecc
    if has_ecc:
        p["ecc"] = P(ecc_s(max_ecc))
        if draw(st.integers(0, 3)) == 0:
            w = P(omega_s())
            p["sin_omega"] = np.sin(w).tolist()
            p["cos_omega"] = np.cos(w).tolist()
        else:
            p["omega"] = P(omega_s())
    o = draw(st.sampled_from(orient))
    if o == "incl":
        p["incl"] = P(mix(U(0.0, PI), PI / 2, 0.0, PI, 0.7))
    elif o == "b":
        p["b"] = P(mix(U(0.0, bmax), 0.0, 1.0, -0.3))
    om = draw(st.booleans()) if Omega is None else Omega
    if om:
        p["Omega"] = P(mix(U(-PI, PI), 0.0, PI / 2, 5.0))
    hm = draw(st.booleans()) if masses is None else masses
    if hm:
        p["m_planet"] = P(LU(1e-12, 10.0) if wide and sz != "both" else mix(LU(1e-6, 0.09), 0.0))
    tm = draw(st.sampled_from(times))
    if tm == "t0":
        p["t0"] = P(mix(U(-50.0, 50.0), 0.0, 2454833.0 - 2454000.0))
    elif tm == "tp":
        p["t_periastron"] = P(mix(U(-50.0, 50.0), 0.0))
    # keep the orbit outside the star (b -> cos i must stay below one)
    return p


def fix_b(p, ref_module):
    """Scale b down where cos(i) = b * dcosidb would exceed 0.98 (no such orbit)."""
    if p.get("b") is None:
        return p
    q = dict(p)
    q["b"] = 1.0
    o = ref_module.Orbit(q)
    lim = 0.98 / np.max(np.abs(o.ci))
    b = np.asarray(p["b"], float)
    if np.max(np.abs(b)) > lim:
        b = np.clip(b, -lim, lim)
    out = dict(p)
    out["b"] = b.tolist()
    return out


def times_s(min_size=1, max_size=10):
    """Times in units of the (first) period, relative to the reference time, plus offsets
    that are exactly special; turned into days by days()."""
    return vec_between(
        mix(U(-3.0, 3.0), 0.0, 0.5, 1.0, -1.0, 0.25, 100.0, -30000.25), min_size, max_size
    )


def vec_between(el, a, b):
    return st.lists(el, min_size=a, max_size=b)


@st.composite
def ttv_system(draw, max_planets=3, amp=0.1, modes=("ttvs", "times"), max_ind=8, min_n=1,
               period=(1.0, 100.0), zero=True, **kw):
    """A valid TTVOrbit specification (per-planet vectors; see ref.TTV)."""
    kw.setdefault("star", ("none", "rho", "rho_r", "m_r"))
    p = draw(system(max_planets=max_planets, scalar=False, size=("period",), times=("t0",),
                    period=period, **kw))
    P = np.asarray(p["period"], float)
    n = len(P)
    p["t0"] = draw(vec(mix(U(-50.0, 50.0), 0.0), n))
    t0 = np.asarray(p["t0"])
    mode = draw(st.sampled_from(modes))
    lo = max(min_n, 2 if mode == "times" else 1)
    labelled = draw(st.booleans())
    inds, offs = [], []
    for i in range(n):
        if labelled:
            k = sorted(draw(st.sets(st.integers(0, max_ind), min_size=lo, max_size=6)))
            if draw(st.integers(0, 4)) == 0:
                k = k[::-1]
        else:
            k = list(range(draw(st.integers(lo, 6))))
        inds.append(k)
        o = [0.0] * len(k) if (zero and draw(st.integers(0, 4)) == 0) else draw(
            vec(mix(U(-1.0, 1.0), 0.0, 1.0, -1.0), len(k)))
        offs.append((amp * P[i] * np.asarray(o)).tolist())
    c = dict(p=p, transit_inds=inds if labelled else None)
    if mode == "ttvs":
        c["ttvs"] = offs
        if draw(st.integers(0, 3)) == 0:
            del p["t0"]
    else:
        c["transit_times"] = [
            (t0[i] + P[i] * np.asarray(inds[i]) + np.asarray(offs[i])).tolist() for i in range(n)]
        del p["t0"]
        sh = draw(st.sampled_from(["none", "none", "period", "dlp"]))
        if sh == "period":
            p["period"] = (P * (1 + 0.05 * np.asarray(draw(vec(U(-1.0, 1.0), n))))).tolist()
        else:
            del p["period"]
            if sh == "dlp":
                c["delta_log_period"] = draw(mix(U(-0.05, 0.05), 0.0)) if draw(
                    st.booleans()) else draw(vec(U(-0.05, 0.05), n))
    return c


def ttv_fix_b(c, ref_module):
    """fix_b for a TTV specification (uses the resolved ephemeris)."""
    if c["p"].get("b") is None:
        return c
    o = ref_module.TTV(c)
    q = dict(c["p"], period=o.P.tolist())
    q = fix_b(q, ref_module)
    p = dict(c["p"], b=q["b"])
    return dict(c, p=p)
