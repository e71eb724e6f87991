"""C27 box least squares estimator."""
import warnings

import numpy as np
from astropy.timeseries import BoxLeastSquares
from hypothesis import strategies as st

from harness.core import Check, LU, U, agree, info, mix, require, sut
from harness.env import xo  # noqa: F401
from harness.props.c25 import check_peaks, maxima

from exoplanet.estimators import bls_estimator

RULE = (
    "box transits with noise (40-300 even or uneven times), durations as number or list, period limits "
    "by either name, objectives, methods, oversampling, uncertainties and frequency factors given or "
    "defaulted, time offsets up to 2.4e6 d; non-trivial when the periodogram has a local maximum"
)
ASSUMPTIONS = ["durations shorter than the shortest period, as astropy requires"]
KEYS = ["power", "depth", "depth_err", "depth_snr", "log_likelihood", "duration", "period",
        "transit_time"]


@st.composite
def case(draw, pure=False):
    c = dict(n=draw(st.integers(300, 400) if pure else st.integers(40, 300)),
             seed=draw(st.integers(0, 2**31)))
    c["P"] = draw(LU(1.0, 8.0))
    c["dur_frac"] = draw(U(0.07, 0.12) if pure else U(0.03, 0.1))
    c["depth"] = draw(mix(LU(1e-3, 5.0), 1.0))
    c["phase"] = draw(U(0.0, 1.0))
    c["cycles"] = draw(U(4.0, 6.0) if pure else U(4.0, 9.0))
    c["noise"] = 1e-4 if pure else draw(st.sampled_from([0.0, 0.1, 1.0]))
    c["x0"] = draw(mix(U(-500.0, 500.0), 0.0, 2454833.0))
    c["even"] = pure or draw(st.booleans())
    c["level"] = draw(mix(U(-10.0, 10.0), 0.0, 1.0))
    c["yerr"] = draw(st.sampled_from(["none", "one", "array"]))
    c["duration"] = draw(st.sampled_from(["match", "match", "list", "default"]))
    c["lo"] = draw(st.one_of(st.none(), U(0.55, 0.8)))
    c["hi"] = draw(st.one_of(st.none(), U(1.3, 2.2)))
    c["name"] = draw(st.sampled_from(["min", "minimum", "mixed"]))
    c["factor"] = draw(st.sampled_from([None, None, 1.0, 2.5, 0.5]))
    c["objective"] = draw(st.sampled_from([None, None, "likelihood", "snr"]))
    # (astropy's slow method raises where no dip is found at some period)
    c["method"] = draw(st.sampled_from([None, "fast"]))
    c["oversample"] = draw(st.sampled_from([None, 1, 5, 10]))
    c["n_transit"] = draw(st.sampled_from([None, None, 2]))
    c["shift"] = draw(mix(U(-50.0, 50.0), 1000.0))
    c["shuffle"] = draw(st.integers(0, 3)) == 0
    return c


def series(c):
    rng = np.random.default_rng(c["seed"])
    T = c["cycles"] * c["P"]
    t = np.linspace(0, T, c["n"]) if c["even"] else np.sort(rng.uniform(0, T, c["n"]))
    ph = (t / c["P"] - c["phase"] + 0.5) % 1 - 0.5
    y = c["level"] - c["depth"] * (np.abs(ph) < 0.5 * c["dur_frac"])
    y = y + c["noise"] * c["depth"] * rng.standard_normal(c["n"])
    e = {"none": None, "one": 0.3, "array": np.exp(rng.uniform(-0.5, 0.5, c["n"]))}[c["yerr"]]
    x = c["x0"] + t
    if c.get("shuffle"):
        # observations in no particular order
        i = rng.permutation(len(x))
        x, y, e = x[i], y[i], e[i] if np.ndim(e) else e
    return x, y, e


def arguments(c):
    d = c["dur_frac"] * c["P"]
    kw, astro = {}, {}
    dur = 0.2
    if c["duration"] == "match":
        kw["duration"] = dur = d
    elif c["duration"] == "list":
        kw["duration"] = dur = [0.5 * d, d]
    lo = hi = None
    if c["lo"] is not None:
        lo = c["lo"] * c["P"]
        kw["minimum_period" if c["name"] in ("minimum", "mixed") else "min_period"] = lo
    if c["hi"] is not None:
        hi = c["hi"] * c["P"]
        kw["maximum_period" if c["name"] == "minimum" else "max_period"] = hi
    for k in ("objective", "method", "oversample"):
        if c[k] is not None:
            kw[k] = astro[k] = c[k]
    astro.setdefault("oversample", 10)
    if c["factor"] is not None:
        kw["frequency_factor"] = c["factor"]
    if c["n_transit"] is not None:
        kw["minimum_n_transit"] = c["n_transit"]
    return kw, dur, lo, hi, astro


def call(c, x, y, e, kw, what="bls_estimator"):
    with sut(what), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return bls_estimator(x, y, *(() if e is None else (e,)), **kw)


def run(c, pure=False):
    x, y, e = series(c)
    kw, dur, lo, hi, astro = arguments(c)
    if pure:
        kw.setdefault("frequency_factor", 1.0)
        kw.update(minimum_period=0.7 * c["P"], maximum_period=1.7 * c["P"], duration=c["dur_frac"] * c["P"])
        kw.pop("min_period", None), kw.pop("max_period", None)
        kw["oversample"] = astro["oversample"] = 10
        dur, lo, hi = kw["duration"], kw["minimum_period"], kw["maximum_period"]
    dmax = np.max(dur)
    p_lo = lo if lo is not None else 2 * dmax
    if p_lo <= dmax * 1.01 or (hi is not None and hi <= p_lo):
        return info(False, "domain")
    keep = [None if v is None else np.array(v, copy=True) for v in (x, y, e)]
    kw_keep = dict(kw)
    r = call(c, x, y, e, kw)
    for a, b in zip(keep, (x, y, e)):
        require(a is None or np.array_equal(a, b), "bls_estimator changed its input")
    require(kw == kw_keep, "bls_estimator changed the caller's arguments")
    pg = r["bls"]
    per, power = np.asarray(pg.period), np.asarray(pg.power)
    n = len(per)
    T = np.ptp(x)
    # the range
    mid = 0.5 * (np.min(x) + np.max(x))
    bls = BoxLeastSquares(x - mid, y, e)
    opts = {k: kw[k] for k in ("minimum_n_transit",) if k in kw}
    if c["factor"] is not None or pure:
        grid = bls.autoperiod(dur, minimum_period=lo, maximum_period=hi,
                              frequency_factor=kw["frequency_factor"], **opts)
        agree(per, grid, rtol=1e-9, what="period grid for the requested frequency factor")
    else:
        require(n <= len(x), f"grid of {n} periods for {len(x)} points")
    hi_eff = hi if hi is not None else T / (kw.get("minimum_n_transit", 3) - 1)
    if hi_eff > p_lo:
        f = 1 / per
        half = 0.51 * np.max(np.abs(np.diff(f))) if n > 1 else 0.0  # the grid ends on a whole step
        require((f <= (1 + 1e-9) / p_lo) & (f >= (1 - 1e-9) / hi_eff - half),
                f"periods {per.min()}..{per.max()} outside [{p_lo}, {hi_eff}]")
    if n == 0:
        return info(False, "empty")
    # every periodogram quantity, re-evaluated at the reported periods
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        ref = bls.power(per, dur, **astro)
    # (astropy leaves the parameters unset where no box fits, i.e. where the power is -inf)
    ok = np.isfinite(np.asarray(ref["power"]))
    agree(power, np.asarray(ref["power"]), rtol=1e-9, atol=1e-12, what="periodogram power")
    for k in KEYS[1:]:
        got, want = np.asarray(pg[k])[ok], np.asarray(ref[k])[ok]
        if k == "transit_time":
            want = want + mid
            agree(got, want, atol=1e-9 + 4e-16 * np.abs(x).max() * 4, what="transit_time")
        else:
            agree(got, want, rtol=1e-9, atol=1e-12, what=f"periodogram {k}")
    require(str(pg.objective) == str(c["objective"] or "likelihood"), f"objective {pg.objective}")
    # the best peak
    if not maxima(power):
        require(r["peaks"] == [] and r["peak_info"] is None, "a peak was reported, there is none")
        return info(False, "no peak")
    with np.errstate(all="ignore"):
        if np.all(power > 0):
            check_peaks(r["peaks"], 1 / per, power, 1, "bls")
    require(len(r["peaks"]) == 1, f"{len(r['peaks'])} peaks, expected one")
    i = int(r["peaks"][0]["index"])
    require(i in maxima(power), f"peak index {i} is not a local maximum")
    require(power[i] == max(power[j] for j in maxima(power)), "not the highest local maximum")
    pi = r["peak_info"]
    for k in KEYS:
        require(k in pi, f"peak_info lacks {k}")
        agree(pi[k], np.asarray(pg[k])[i], what=f"peak_info[{k}]")
    require("objective" not in pi, "peak_info holds the objective")
    if pure and power[i] < power.max():
        return info(False, "plateau or edge")  # the global maximum is not a strict local one
    if pure:
        pb = float(pi["period"])
        require(abs(pb - c["P"]) * T / c["P"] < 1.5 * dur, f"period {pb}, box of period {c['P']}")
        k = (pi["transit_time"] - c["x0"]) / c["P"] - c["phase"]
        require(abs(k - np.round(k)) < 1.5 * c["dur_frac"], f"transit_time {pi['transit_time']}")
        require(0.5 < pi["depth"] / c["depth"] < 1.3, f"depth {pi['depth']}, box depth {c['depth']}")
    return info(True, f"factor={c['factor']}", f"name={c['name']}", f"objective={c['objective']}",
                f"yerr={c['yerr']}", f"duration={c['duration']}")


def run_shift(c):
    """Shifting the times shifts transit_time and nothing else."""
    x, y, e = series(dict(c, x0=0.0))
    # times on a dyadic grid, so that the shift is exact
    x = np.unique(np.round(x * 2**20) / 2**20)
    y = y[: len(x)]
    e = e if e is None or np.ndim(e) == 0 else e[: len(x)]
    s = np.round(c["shift"] * 2**10) / 2**10
    kw, dur, lo, hi, _ = arguments(c)
    p_lo = lo if lo is not None else 2 * np.max(dur)
    if p_lo <= np.max(dur) * 1.01 or (hi is not None and hi <= p_lo):
        return info(False, "domain")
    a = call(c, x, y, e, kw)
    b = call(c, x + s, y, e, kw, "bls_estimator (shifted)")
    ok = np.isfinite(np.asarray(a["bls"].power))
    require(np.array_equal(ok, np.isfinite(np.asarray(b["bls"].power))), "shifted: other valid periods")
    for k in KEYS:
        want = np.asarray(a["bls"][k])[ok] + (s if k == "transit_time" else 0.0)
        agree(np.asarray(b["bls"][k])[ok], want, rtol=1e-12, atol=1e-12 * (1 + abs(s)),
              what=f"shifted by {s}: {k}")
    require((a["peak_info"] is None) == (b["peak_info"] is None), "peak found only for one reference time")
    if a["peak_info"] is None:
        return info(False)
    for k in KEYS:
        want = a["peak_info"][k] + (s if k == "transit_time" else 0.0)
        agree(b["peak_info"][k], want, rtol=1e-12, atol=1e-12 * (1 + abs(s)), what=f"shifted: peak {k}")
    tt = b["peak_info"]["transit_time"]
    P = b["peak_info"]["period"]
    require(x[0] + s - P <= tt <= x[-1] + s + P, f"transit_time {tt} outside the data")
    return info(True)


CHECKS = [
    Check("bls", case(), run, 1600),
    Check("box", case(True), lambda c: run(c, True), 500),
    Check("shift", case(), run_shift, 500),
]
