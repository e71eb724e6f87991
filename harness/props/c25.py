"""C25 periodogram peaks."""
import warnings

import numpy as np
from astropy.timeseries import LombScargle
from hypothesis import strategies as st

from harness.core import Check, LU, U, Violation, agree, info, mix, must_raise, require, sut, vec
from harness.env import xo  # noqa: F401

from exoplanet.estimators import find_peaks, lomb_scargle_estimator

RULE = (
    "positive power arrays of 0-80 points (random, smooth, plateaus, equal peaks, monotone) on even, "
    "uneven and period-like frequency grids, max_peaks 0-20; uneven time series with sinusoids and "
    "noise through the Lomb-Scargle wrapper with period limits, filters and extra options; non-trivial "
    "when at least one peak exists"
)
ASSUMPTIONS = [
    "frequencies up to 1e5 grid steps from zero (the parabola is solved in the raw frequencies)",
    "equal powers at different peaks may come in either order",
]


# ------------------------------------------------------------------ find_peaks

@st.composite
def grid(draw, n):
    df = draw(LU(1e-4, 1.0))
    kind = draw(st.sampled_from(["even", "even", "uneven", "period"]))
    if kind == "period":
        p = draw(LU(0.1, 10.0)) + draw(LU(1e-3, 1.0)) * np.arange(n)
        return 1.0 / p  # decreasing frequencies, as the BLS grid
    off = draw(st.sampled_from([1.0, 3.0, 100.0, 1e4]))
    steps = np.ones(n) if kind == "even" else np.array(draw(vec(U(0.3, 1.7), n)))
    return df * (off + np.cumsum(steps))


@st.composite
def peak_case(draw):
    n = draw(mix(st.integers(3, 80), 0, 1, 2, 3, 4))
    kind = draw(st.sampled_from(["random", "random", "levels", "smooth", "up", "down", "flat"]))
    c = dict(freq=draw(grid(n)).tolist(), kind=kind, seed=draw(st.integers(0, 2**31)))
    c["scale"] = draw(mix(LU(1e-6, 1e6), 1.0))
    c["max_peaks"] = draw(mix(st.integers(0, 20), 0, 1, 2))
    c["default"] = draw(st.booleans())
    return c


def power_of(c):
    n = len(c["freq"])
    rng = np.random.default_rng(c["seed"])
    if c["kind"] == "random":
        p = np.exp(rng.uniform(-3, 3, n))
    elif c["kind"] == "levels":
        p = rng.integers(1, 5, n).astype(float)
    elif c["kind"] == "smooth":
        t = np.arange(n)
        p = np.exp(1.5 * np.sin(t / rng.uniform(1, 5)) + 0.7 * np.cos(t / rng.uniform(1, 9)))
    elif c["kind"] == "flat":
        p = np.ones(n)
    else:
        p = np.sort(np.exp(rng.uniform(-1, 1, n)))
        if c["kind"] == "down":
            p = p[::-1].copy()
    return p * c["scale"]


def maxima(power):
    return [i for i in range(1, len(power) - 1)
            if power[i] > power[i - 1] and power[i] > power[i + 1]]


def parabola(freq, power, i):
    """Vertex and curvature of log power through three points, centred, extended precision."""
    f = np.array(freq[i - 1:i + 2], dtype=np.longdouble)
    y = np.log(np.array(power[i - 1:i + 2], dtype=np.longdouble))
    x = f - f[1]
    # second divided difference, first derivative at the middle point
    d1 = (y[1] - y[0]) / (x[1] - x[0])
    d2 = (y[2] - y[1]) / (x[2] - x[1])
    a = (d2 - d1) / (x[2] - x[0])
    b = d1 - a * (x[0] + x[1])  # slope at x = 0 (x[1] = 0)
    v = -b / (2 * a)
    f0 = f[1] + v
    top = y[1] + b * v + a * v * v
    sig2 = -1 / (2 * a)
    return float(f0), float(top), float(np.sqrt(sig2) / f0**2)


def check_peaks(peaks, freq, power, max_peaks, what):
    ref = maxima(power)
    single = max_peaks == 0
    lst = [peaks] if single else peaks
    if single:
        require(isinstance(peaks, dict), f"{what}: not a dictionary")
    else:
        require(isinstance(peaks, list), f"{what}: not a list")
    k = min(max(1, max_peaks), len(ref))
    require(len(lst) == k, f"{what}: {len(lst)} peaks, expected {k} (of {len(ref)})")
    idx = [int(p["index"]) for p in lst]
    require(len(set(idx)) == len(idx), f"{what}: repeated peak {idx}")
    for i in idx:
        require(i in ref, f"{what}: index {i} is not a local maximum")
    got = [float(power[i]) for i in idx]
    want = sorted((float(power[i]) for i in ref), reverse=True)[:k]
    require(got == want, f"{what}: heights {got}, expected the highest in decreasing order {want}")
    for p in lst:
        i = int(p["index"])
        f0, top, unc = parabola(freq, power, i)
        d = np.min(np.abs(np.diff(freq[i - 1:i + 2])))
        r = np.max(np.abs(freq[i - 1:i + 2])) / d
        # log-power steps that set the curvature, relative to rounding of the logs
        y = np.log(power[i - 1:i + 2])
        c = abs(np.diff(y, 2)[0]) + 1e-300
        amp = 1e-14 * r * r * (1 + np.max(np.abs(y))) / min(1.0, c)
        if amp > 0.05:
            continue  # too flat or too fine to be resolved in doubles
        w = abs(f0) * amp + abs(f0 - freq[i]) * amp
        if not abs(1.0 / p["period"] - f0) <= w + 1e-12 * abs(f0):
            raise Violation(f"{what}: period {p['period']!r}, expected {1 / f0!r} (index {i})")
        agree(p["log_power"], top, rtol=1e-10, atol=10 * amp * (1 + abs(top)),
              what=f"{what}: log_power")
        agree(p["period_uncert"], unc, rtol=1e-9 + 10 * amp, what=f"{what}: period_uncert")
    return len(ref)


def run_peaks(c):
    freq = np.array(c["freq"])
    power = power_of(c)
    f_in, p_in = freq.copy(), power.copy()
    n = len(maxima(power))
    kw = {} if c["default"] and c["max_peaks"] == 0 else dict(max_peaks=c["max_peaks"])
    if n == 0 and c["max_peaks"] == 0:
        with must_raise(ValueError, "find_peaks without any peak"):
            find_peaks(freq, power, **kw)
        return info(False, "none")
    with sut("find_peaks"), np.errstate(all="ignore"):
        peaks = find_peaks(freq, power, **kw)
    check_peaks(peaks, freq, power, c["max_peaks"], "find_peaks")
    require(np.array_equal(freq, f_in) and np.array_equal(power, p_in), "find_peaks changed its input")
    return info(n > 0, c["kind"], f"max_peaks={min(c['max_peaks'], 3)}", "few" if n < c["max_peaks"] else "many")


# -------------------------------------------------- gaussian peaks: exact recovery

@st.composite
def gauss_case(draw):
    n = draw(st.integers(5, 60))
    return dict(freq=draw(grid(n)).tolist(), u=draw(U(0.0, 1.0)), s=draw(U(0.7, 6.0)),
                h=draw(LU(1e-3, 1e3)))


def run_gauss(c):
    """A Gaussian peak has a parabolic logarithm: its centre, height and width come back."""
    f = np.array(c["freq"])
    fs = np.sort(f)
    k = 2 + int(c["u"] * (len(f) - 5))
    f0 = fs[k] + (c["u"] * 997 % 1) * (fs[k + 1] - fs[k]) * 0.98 + 0.01 * (fs[k + 1] - fs[k])
    s = c["s"] * (fs[k + 1] - fs[k])
    power = c["h"] * np.exp(-0.5 * ((f - f0) / s) ** 2)
    if np.sum(power > 0) < len(f) or len(maxima(power)) != 1:
        power = np.maximum(power, 1e-300)
        if len(maxima(power)) != 1:
            return info(False)
    with sut("find_peaks"):
        p = find_peaks(f, power)
    i = maxima(power)[0]
    d = np.min(np.abs(np.diff(f[i - 1:i + 2])))
    amp = 1e-14 * (np.max(np.abs(f)) / d) ** 2 * (s / d) ** 2 * (1 + abs(np.log(c["h"])))
    if amp > 0.01:
        return info(False)
    agree(1 / p["period"], f0, rtol=amp + 1e-12, what="centre of a Gaussian peak")
    agree(p["log_power"], np.log(c["h"]), atol=100 * amp + 1e-9, what="height of a Gaussian peak")
    agree(p["period_uncert"], s / f0**2, rtol=100 * amp + 1e-8, what="width of a Gaussian peak")
    return info(True)


# --------------------------------------------------------------- Lomb-Scargle

@st.composite
def ls_case(draw):
    c = dict(n=draw(st.integers(20, 120)), seed=draw(st.integers(0, 2**31)))
    c["P"] = draw(LU(0.5, 20.0))
    c["cycles"] = draw(U(6.0, 25.0))
    c["amp"] = draw(mix(LU(0.1, 100.0), 1.0))
    c["noise"] = draw(st.sampled_from([0.0, 0.1, 1.0, 5.0]))
    c["mean"] = draw(mix(U(-20.0, 20.0), 0.0))
    c["phase"] = draw(U(-3.2, 3.2))
    c["t_off"] = draw(mix(U(-500.0, 500.0), 0.0, 2454833.0))
    c["yerr"] = draw(st.sampled_from(["none", "one", "array"]))
    c["lo"] = draw(st.one_of(st.none(), U(0.2, 0.8)))
    c["hi"] = draw(st.one_of(st.none(), U(1.3, 6.0)))
    c["filter"] = draw(st.one_of(st.none(), st.none(), LU(0.3, 5.0)))
    c["max_peaks"] = draw(st.sampled_from(["default", 0, 1, 3, 10]))
    c["shuffle"] = draw(st.sampled_from([False, False, True]))
    c["kwargs"] = draw(st.sampled_from([{}, {}, dict(samples_per_peak=10), dict(samples_per_peak=7)]))
    return c


def series(c):
    rng = np.random.default_rng(c["seed"])
    T = c["cycles"] * c["P"]
    x = np.sort(rng.uniform(0, T, c["n"]))
    x[0], x[-1] = 0.0, T
    x = x + c["t_off"]
    y = c["mean"] + c["amp"] * np.sin(2 * np.pi * (x - c["t_off"]) / c["P"] + c["phase"])
    y = y + c["noise"] * c["amp"] * rng.standard_normal(c["n"])
    e = {"none": None, "one": 0.3, "array": np.exp(rng.uniform(-1, 1, c["n"]))}[c["yerr"]]
    if c["shuffle"]:  # times need not be sorted
        k = rng.permutation(len(x))
        x, y, e = x[k], y[k], (e[k] if isinstance(e, np.ndarray) else e)
    return x, y, e


def run_ls(c, pure=False):
    x, y, e = series(c)
    T = np.ptp(x)
    kw = dict(c["kwargs"])
    # without limits astropy's own default grid is used; bound it for cost
    kw.setdefault("samples_per_peak", 5)
    spp = kw["samples_per_peak"]
    lo = c["P"] * (c["lo"] or 0.25)
    hi = c["hi"] and c["P"] * c["hi"]
    if pure:
        hi = hi or c["P"] * 4
    args = dict(min_period=lo, max_period=hi, **kw)
    mp = 2
    if c["max_peaks"] != "default":
        mp = args["max_peaks"] = c["max_peaks"]
    fp = None
    if c["filter"]:
        fp = args["filter_period"] = c["P"] * c["filter"]
    keep = [np.array(v, copy=True) if v is not None else None for v in (x, y, e)]
    pos = () if e is None else (e,)
    ref_ls = LombScargle(x, y, e)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r = lomb_scargle_estimator(x, y, *pos, **args)
        except ValueError as ex:
            if mp == 0 and "peak" in str(ex):
                freq, p = ref_ls.autopower(
                    method="fast", normalization="psd", maximum_frequency=1 / lo,
                    **({} if hi is None else dict(minimum_frequency=1 / hi)), **kw)
                p = p / len(x)
                if fp is not None:
                    p = p / np.sqrt(1 + (1 / fp / freq) ** 6)
                if not maxima(p):
                    return info(False, "no peaks")
            raise Violation(f"lomb_scargle_estimator: raised {ex}")
        except Exception as ex:
            raise Violation(f"lomb_scargle_estimator: raised {type(ex).__name__}: {ex}")
    for a, b in zip(keep, (x, y, e)):
        require(a is None or np.array_equal(a, b), "lomb_scargle_estimator changed its input")
    freq, power = r["periodogram"]
    df = 1.0 / T / spp
    fmin = 0.5 * df if hi is None else 1 / hi
    require(len(freq) == len(power), "periodogram arrays of different length")
    agree(freq[0], fmin, rtol=1e-9, what="lowest frequency")
    require(abs(freq[-1] - 1 / lo) <= 0.51 * df, f"highest frequency {freq[-1]}, limit {1 / lo}")
    agree(np.diff(freq), np.full(len(freq) - 1, df), rtol=1e-6, what="frequency step")
    # the fast method approximates the exact floating-mean periodogram
    exact = ref_ls.power(freq, method="cython", normalization="psd") / len(x)
    agree(power, exact, atol=0.3 * np.max(exact), what="power (psd per point)")
    fast = ref_ls.power(freq, method="fast", normalization="psd", assume_regular_frequency=True) / len(x)
    agree(power, fast, rtol=1e-6, atol=1e-9 * np.max(fast), what="power (psd per point)")
    filt = np.ones(len(freq)) if fp is None else 1 / np.sqrt(1 + (1 / fp / freq) ** 6)
    n = check_peaks(r["peaks"], freq, power * filt, mp, "lomb_scargle")
    if pure:
        best = r["peaks"] if mp == 0 else r["peaks"][0]
        if not abs(1 / best["period"] - 1 / c["P"]) < 0.15 / T:
            raise Violation(f"pure sinusoid of period {c['P']}: found {best['period']}")
    return info(n > 0, f"filter={fp is not None}", f"yerr={c['yerr']}",
                f"hi={hi is not None}", f"max_peaks={c['max_peaks']}")


@st.composite
def pure_case(draw):
    c = draw(ls_case())
    c["noise"] = 0.0
    c["n"] = draw(st.integers(60, 120))
    c["yerr"] = draw(st.sampled_from(["none", "one"]))
    if c["filter"]:
        c["filter"] = draw(U(3.0, 10.0))
    return c


CHECKS = [
    Check("find_peaks", peak_case(), run_peaks, 12000),
    Check("gaussian_peak", gauss_case(), run_gauss, 4000),
    Check("lomb_scargle", ls_case(), run_ls, 2000),
    Check("pure_sinusoid", pure_case(), lambda c: run_ls(c, True), 1500),
]
