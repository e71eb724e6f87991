"""C26 autocorrelation period estimator."""
import warnings

import numpy as np
from hypothesis import strategies as st

from harness.core import Check, LU, U, agree, info, mix, require, sut
from harness.env import xo  # noqa: F401

from exoplanet.estimators import autocorr_estimator

RULE = (
    "10-150 even or uneven times (jitter up to 45% of a step, gaps), sums of sinusoids, noise, trends "
    "and spikes, with every combination of min_period, max_period, oversample and smooth given or "
    "defaulted; non-trivial when the autocorrelation has at least one peak beyond min_period"
)
ASSUMPTIONS = ["times strictly increasing, series not constant"]


@st.composite
def case(draw):
    c = dict(n=draw(st.integers(10, 150)), seed=draw(st.integers(0, 2**31)))
    c["step"] = draw(mix(LU(0.01, 10.0), 1.0, 0.5))
    c["jit"] = draw(mix(U(0.0, 0.45), 0.0))
    c["gap"] = draw(st.sampled_from([0, 0, 0, 3, 15]))
    c["x0"] = draw(mix(U(-100.0, 100.0), 0.0, 2454833.0))
    c["P"] = draw(LU(2.0, 60.0))
    c["kind"] = draw(st.sampled_from(["sin", "sin", "two", "noise", "trend", "spikes", "walk"]))
    c["ratio"] = draw(U(0.2, 3.0))
    c["noise"] = draw(st.sampled_from([0.0, 0.1, 1.0]))
    c["level"] = draw(mix(U(-1e3, 1e3), 0.0))
    c["min_period"] = draw(st.one_of(st.none(), LU(0.3, 40.0)))
    c["max_period"] = draw(st.one_of(st.none(), LU(1.0, 120.0)))
    c["oversample"] = draw(st.sampled_from([None, 1, 1.0, 2.0, 3, 1.7]))
    c["smooth"] = draw(st.sampled_from([None, 0.0, 0.2, 1.0, 2.0]))
    c["yerr"] = draw(st.booleans())
    # a limit exactly at the lag of a peak
    c["edge"] = draw(st.sampled_from([None, None, "max", "min", "max2"]))
    return c


def series(c):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    k = np.arange(n) + c["jit"] * rng.uniform(-1, 1, n)
    if c["gap"]:
        k[n // 2:] += c["gap"]
    x = c["x0"] + c["step"] * k
    t = k
    w = 2 * np.pi / c["P"]
    y = {
        "sin": np.sin(w * t), "two": np.sin(w * t) + 0.8 * np.cos(w * c["ratio"] * t + 1),
        "noise": rng.standard_normal(n), "trend": 0.05 * t + np.sin(w * t),
        "spikes": (t % c["P"] < 1.5).astype(float), "walk": np.cumsum(rng.standard_normal(n)),
    }[c["kind"]]
    return x, c["level"] + y + c["noise"] * rng.standard_normal(n)


def smooth_ref(a, sd):
    """Gaussian smoothing, kernel truncated at four sigma, reflected ends."""
    if sd == 0:
        return a
    r = int(4.0 * sd + 0.5)
    k = np.exp(-0.5 * (np.arange(-r, r + 1) / sd) ** 2)
    k /= k.sum()
    n = len(a)
    i = np.arange(-r, n + r) % (2 * n)
    i = np.where(i < n, i, 2 * n - 1 - i)
    return np.convolve(a[i], k, mode="valid")


def run(c):
    x, y = series(c)
    if np.ptp(y) < 1e-9:
        return info(False, "constant")
    kw = {}
    dmin = np.min(np.diff(x))
    for k in ("min_period", "max_period"):
        if c[k] is not None:
            kw[k] = c[k] * c["step"]
    ov = 2.0
    if c["oversample"] is not None:
        ov = kw["oversample"] = c["oversample"]
    sm = 2.0
    if c["smooth"] is not None:
        sm = kw["smooth"] = c["smooth"]
    if c["yerr"]:
        kw["yerr"] = np.ones(len(x))
    if c["edge"]:
        with sut("autocorr_estimator"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tau, a = autocorr_estimator(x, y, **kw)["autocorr"]
        lo = kw.get("min_period", dmin)
        pk = tau[1:-1][(a[1:-1] > a[:-2]) & (a[1:-1] > a[2:]) & (tau[1:-1] >= lo)]
        j = 1 if c["edge"] == "max2" else 0
        if len(pk) > j:
            if c["edge"] == "min":
                # the same smoothing, so the same peaks
                sm = kw["smooth"] = sm * lo / pk[0]
                kw["min_period"] = pk[0]
            else:
                kw["max_period"] = pk[j]
    lo = kw.get("min_period", dmin)
    hi = kw.get("max_period", x.max() - x.min())
    xk, yk = x.copy(), y.copy()
    with sut("autocorr_estimator"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = autocorr_estimator(x, y, **kw)
    require(np.array_equal(x, xk) and np.array_equal(y, yk), "autocorr_estimator changed its input")
    tau, acor = (np.asarray(v) for v in r["autocorr"])
    require(tau.shape == acor.shape and tau.ndim == 1, "autocorr arrays differ in shape")
    dx = dmin / ov
    n = len(tau)
    span = x.max() - x.min()
    require(abs(n - span / dx) <= 1.01, f"{n} lags for a span of {span / dx} steps")
    agree(tau, dx * np.arange(n), rtol=1e-6, atol=1e-8 * dx + n * 4e-16 * np.abs(x).max(), what="lags")
    # direct (unwrapped) sum over the interpolated series
    xx = x[0] + tau
    yy = np.interp(xx, x, y)
    yy = yy - yy.mean()
    full = np.correlate(yy, yy, mode="full")[n - 1:]
    full = full / full[0]
    # interpolation nodes are known to rounding of the times
    slope = np.max(np.abs(np.diff(y) / np.diff(x)))
    var = np.sqrt(np.mean(yy**2))
    tol = 1e-10 + 20 * slope * 4e-16 * (np.abs(x).max() + span) / var + 1e-14 * (
        np.abs(y).max() / var) * n
    want = smooth_ref(full, sm * lo / dx)
    agree(acor, want, atol=tol, what="autocorrelation")
    if sm == 0.0:
        agree(acor[0], 1.0, atol=1e-12, what="autocorrelation at zero lag")
        require(np.abs(acor) <= 1 + 1e-9, "autocorrelation above one")
    # the peak rule, on the returned arrays
    pk = [i for i in range(1, n - 1) if acor[i] > acor[i - 1] and acor[i] > acor[i + 1] and tau[i] >= lo]
    exp = None
    if pk:
        i = pk[0]
        if tau[i] <= hi:
            if len(pk) > 1 and acor[pk[1]] > acor[i]:
                i = pk[1]
            if tau[i] <= hi:
                exp = i
    if exp is None:
        require(len(r["peaks"]) == 0, f"reported {r['peaks']}, expected no peak in [{lo}, {hi}]")
    else:
        require(len(r["peaks"]) == 1, f"{len(r['peaks'])} peaks, expected one at lag {tau[exp]}")
        agree(r["peaks"][0]["period"], tau[exp], rtol=1e-12, what="period")
        require(np.isnan(r["peaks"][0]["period_uncert"]), "period_uncert")
    lab = "none" if not pk else "too long" if exp is None else "first" if exp == pk[0] else "second"
    return info(bool(pk), lab, c["kind"])


@st.composite
def pure_case(draw):
    return dict(n=draw(st.integers(60, 200)), step=draw(LU(0.01, 10.0)), P=draw(U(8.0, 14.0)),
                phase=draw(U(0.0, 6.28)), x0=draw(mix(U(-100.0, 100.0), 0.0)), amp=draw(LU(1e-3, 1e3)),
                off=draw(U(-10.0, 10.0)))


def run_pure(c):
    """The period of a well sampled sinusoid comes back within the drift of a finite series."""
    x = c["x0"] + c["step"] * np.arange(c["n"])
    P = c["P"] * c["step"]
    y = c["off"] + c["amp"] * np.sin(2 * np.pi * x / P + c["phase"])
    with sut("autocorr_estimator"):
        r = autocorr_estimator(x, y, min_period=0.4 * P, max_period=1.6 * P, smooth=0.1)
    require(len(r["peaks"]) == 1, "no peak for a sinusoid")
    require(abs(r["peaks"][0]["period"] / P - 1) < 0.08, f"period {r['peaks'][0]['period']} for {P}")
    return info(True)


CHECKS = [
    Check("autocorr", case(), run, 12000),
    Check("sinusoid", pure_case(), run_pure, 2000),
]
