"""C16 expected transit times."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from harness.core import Check, LU, U, Violation, agree, arr, info, maybe, mix, require, sut, vec
from harness.env import xo

RULE = (
    "random periods, reference times and intervals (exact dyadic values that place transits on "
    "the end points, and arbitrary floats), 1-4 planets, reference time before / inside / after "
    "the interval, up to thousands of transits; non-trivial when some planet has a transit"
)
ASSUMPTIONS = ["for arbitrary floats a transit within 4 rounding errors of an end point may be in or out"]
fn = xo.orbits.ttv.compute_expected_transit_times


@st.composite
def exact_case(draw):
    n = draw(maybe(st.integers(1, 4)))
    per = st.integers(1, 200).map(lambda k: k / 8)
    off = mix(st.integers(-4000, 4000), 0, 8, 16).map(lambda k: k / 8)
    V = lambda el: draw(el) if n is None else draw(vec(el, n))  # noqa: E731
    P, t0 = V(per), V(off)
    p0, z0 = (P, t0) if n is None else (P[0], t0[0])
    lo = draw(st.one_of(off, st.integers(-20, 20).map(lambda k: z0 + k * p0)))
    hi = lo + draw(st.one_of(st.integers(0, 1000).map(lambda k: k / 8),
                             st.integers(0, 20).map(lambda k: k * p0)))
    return dict(period=P, t0=t0, lo=lo, hi=hi, kind=draw(st.sampled_from(["list", "array"])),
                form=draw(st.sampled_from(["positional", "keyword"])))


def call(c):
    P, t0 = c["period"], c["t0"]
    if c.get("kind") == "array":
        P, t0 = arr(P), arr(t0)
    with sut("compute_expected_transit_times"):
        if c.get("form") == "keyword":
            out = fn(min_time=c["lo"], max_time=c["hi"], period=P, t0=t0)
        else:
            out = fn(c["lo"], c["hi"], P, t0)
        require(len(out) == np.size(c["period"]), f"{len(out)} arrays for {np.size(c['period'])} planets")
        return [np.asarray(x, float) for x in out]


def exact(c):
    out = call(c)
    some = False
    edge = False
    for P, t0, got in zip(np.atleast_1d(c["period"]), np.atleast_1d(c["t0"]), out):
        F = Fraction
        k0 = math.ceil((F(c["lo"]) - F(float(t0))) / F(float(P)))
        k1 = math.floor((F(c["hi"]) - F(float(t0))) / F(float(P)))
        want = np.array([float(F(float(t0)) + k * F(float(P))) for k in range(k0, k1 + 1)])
        require(got.shape == want.shape,
                f"{len(got)} transits in [{c['lo']}, {c['hi']}] for period {P}, t0 {t0}; expected {len(want)}")
        agree(got, want, 0, 0, "transit times")
        some |= len(want) > 0
        edge |= len(want) > 0 and (want[0] == c["lo"] or want[-1] == c["hi"])
    return info(some, "end point" if edge else "interior")


@st.composite
def float_case(draw):
    n = draw(maybe(st.integers(1, 4)))
    V = lambda el: draw(el) if n is None else draw(vec(el, n))  # noqa: E731
    P = V(LU(0.2, 2000.0))
    t0 = V(mix(U(-3000.0, 3000.0), 0.0, 2454833.0))
    base = draw(mix(U(-3000.0, 3000.0), 2454833.0, 0.0))
    return dict(period=P, t0=t0, lo=base, hi=base + draw(mix(LU(0.01, 4000.0), 0.0)), kind="array")


def floats(c):
    out = call(c)
    some = False
    for P, t0, got in zip(np.atleast_1d(c["period"]), np.atleast_1d(c["t0"]), out):
        if len(got) > 1:
            require(np.all(np.diff(got) > 0), "times are not increasing")
        k = np.round((got - t0) / P)
        eps = 4 * np.spacing(max(abs(c["lo"]), abs(c["hi"]), abs(t0), 1.0))
        agree(got, t0 + k * P, 0, eps, "not on the ephemeris")
        require((got >= c["lo"]) & (got <= c["hi"]), "outside the interval")
        sure = np.arange(math.ceil((c["lo"] + 2 * eps - t0) / P - 1e-12),
                         math.floor((c["hi"] - 2 * eps - t0) / P + 1e-12) + 1)
        ts = t0 + sure * P
        sure = sure[(ts > c["lo"] + eps) & (ts < c["hi"] - eps)]
        miss = set(sure.tolist()) - set(k.tolist())
        require(not miss, f"missing transits {sorted(miss)[:5]} of period {P}, t0 {t0}")
        require(len(set(k.tolist())) == len(k), "repeated transit")
        some |= len(got) > 0
    return info(some)


@st.composite
def edge_case(draw):
    """Arbitrary floats, the interval ending on transits as floating point gives them."""
    n = draw(maybe(st.integers(1, 3)))
    V = lambda el: draw(el) if n is None else draw(vec(el, n))  # noqa: E731
    P = V(LU(0.2, 2000.0))
    t0 = V(mix(U(-3000.0, 3000.0), 0.0, 2454833.0))
    return dict(period=P, t0=t0, i=draw(st.integers(0, (n or 1) - 1)),
                k0=draw(mix(st.integers(-400, 400), 0, -1)), m=draw(mix(st.integers(0, 60), 0, 1)),
                snap=draw(st.sampled_from(["both", "low", "high"])), off=draw(U(0.01, 0.99)))


def edges(c):
    """The closed interval between two transits holds both of them."""
    Pi, ti = np.atleast_1d(c["period"])[c["i"]], np.atleast_1d(c["t0"])[c["i"]]
    lo, hi = float(ti + Pi * c["k0"]), float(ti + Pi * (c["k0"] + c["m"]))
    if c["snap"] == "low":
        hi += Pi * c["off"]
    elif c["snap"] == "high":
        lo -= Pi * c["off"]
    out = call(dict(period=c["period"], t0=c["t0"], lo=lo, hi=hi, kind="array"))
    for j, (P, t0, got) in enumerate(zip(np.atleast_1d(c["period"]), np.atleast_1d(c["t0"]), out)):
        eps = 4 * np.spacing(max(abs(lo), abs(hi), abs(t0), 1.0))
        if j == c["i"]:
            require(len(got) == c["m"] + 1,
                    f"{len(got)} transits in [{lo!r}, {hi!r}] for period {P!r}, t0 {t0!r}; "
                    f"expected {c['m'] + 1}")
            agree(got, t0 + P * (c["k0"] + np.arange(c["m"] + 1)), 0, eps, "transit times")
        require((got >= lo) & (got <= hi), "outside the interval")
    return info(True, c["snap"])


@st.composite
def shared_case(draw):
    n = draw(st.integers(2, 4))
    P = draw(vec(st.integers(1, 200).map(lambda k: k / 8), n))
    t0 = draw(vec(st.integers(-400, 400).map(lambda k: k / 8), n))
    which = draw(st.sampled_from(["t0", "period"]))
    lo = draw(st.integers(-400, 400)) / 8
    return dict(period=P[0] if which == "period" else P, t0=t0[0] if which == "t0" else t0,
                lo=lo, hi=lo + draw(st.integers(0, 400)) / 8,
                one=draw(st.booleans()), kind=draw(st.sampled_from(["list", "array"])))


def shared(c):
    """A period or reference time shared by all the planets."""
    P, t0 = np.broadcast_arrays(c["period"], c["t0"])
    q = dict(c)
    if c["one"]:
        q["period"] = np.atleast_1d(c["period"]).tolist()
        q["t0"] = np.atleast_1d(c["t0"]).tolist()
    with sut("compute_expected_transit_times"):
        f = arr if c["kind"] == "array" else (lambda x: x)
        out = [np.asarray(x, float) for x in fn(c["lo"], c["hi"], f(q["period"]), f(q["t0"]))]
    require(len(out) == len(P), f"{len(out)} arrays for {len(P)} planets")
    full = call(dict(c, period=P.tolist(), t0=t0.tolist()))
    for g, w in zip(out, full):
        agree(g, w, 0, 0, "transit times with a shared ephemeris")
    return info(any(len(w) for w in full), "length one" if c["one"] else "scalar")


CHECKS = [
    Check("exact", exact_case(), exact, 4000),
    Check("floats", float_case(), floats, 4000),
    Check("edges", edge_case(), edges, 2000),
    Check("shared", shared_case(), shared, 800),
]
