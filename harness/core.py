"""Vocabulary shared by the property modules: sub-checks, violations, SUT guards,
comparison with stated tolerances and JSON-able Hypothesis generators."""
import contextlib
import json
import traceback

import numpy as np
from hypothesis import strategies as st

from harness.env import xo  # noqa: F401  (import order: environment first)

import pytensor
from pytensor.compile.mode import Mode


class Violation(Exception):
    """The observed behaviour contradicts the property."""


class SkipCase(Exception):
    """The generated case is outside the domain; counted as trivial."""


class Check:
    """One sub-check of a property.

    strategy: Hypothesis strategy of JSON-able cases (dicts)
    run(case): raises Violation, or returns an Info dict: nontrivial (bool),
        labels (list of str)
    """

    def __init__(self, name, strategy, run, quick, thorough=None, shards=8):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.n = {"quick": quick, "thorough": thorough or quick * 20}
        self.shards = shards


def info(nontrivial=True, *labels):
    return dict(nontrivial=bool(nontrivial), labels=[str(x) for x in labels])


@contextlib.contextmanager
def sut(what=""):
    """Any exception out of the code under test on a valid input is a violation."""
    try:
        yield
    except (Violation, SkipCase, KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(
            f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-3:]
        )
        msg = str(e).strip().split("\n")[0][:300]
        raise Violation(
            f"{what}: raised {type(e).__name__}: {msg} [{where}]"
        ) from e


@contextlib.contextmanager
def must_raise(exc, what=""):
    try:
        yield
    except exc:
        return
    except Exception as e:
        raise Violation(
            f"{what}: raised {type(e).__name__} ({str(e)[:200]}) instead of "
            f"{exc}"
        ) from e
    raise Violation(f"{what}: was accepted, expected {exc}")


_MODES = {
    "raw": Mode(linker="py", optimizer=None),
    "fast": "FAST_COMPILE",
}


def compile_fn(inputs, outputs, mode="raw"):
    return pytensor.function(
        inputs, outputs, mode=_MODES[mode], on_unused_input="ignore"
    )


def value(outs, mode="raw"):
    """Evaluate tensors (or nested list/tuple) with no free inputs."""
    single = not isinstance(outs, (list, tuple))
    lst = [outs] if single else list(outs)
    lst = [pytensor.tensor.as_tensor_variable(x) for x in lst]
    res = compile_fn([], lst, mode)()
    res = [np.array(r) for r in res]
    return res[0] if single else res


def agree(got, want, rtol=0.0, atol=0.0, what="", shape=True, nan=False):
    """got must equal want elementwise within atol + rtol*|want| (atol may be an array);
    nan agrees with nothing, unless expected (nan=True)."""
    got = np.asarray(got)
    want = np.asarray(want, dtype=float)
    if shape and got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape}, expected {want.shape}")
    try:
        g, w, tol = np.broadcast_arrays(
            got.astype(float), want, atol + rtol * np.abs(want)
        )
    except ValueError:
        raise Violation(f"{what}: shape {got.shape} vs {want.shape}")
    bad = ~(np.abs(g - w) <= tol)
    same = g == w
    if nan:
        same |= np.isnan(g) & np.isnan(w)
    bad &= ~same
    if np.any(bad):
        i = np.unravel_index(
            np.argmax(np.where(bad, np.nan_to_num(np.abs(g - w), nan=np.inf), -1)),
            bad.shape,
        )
        raise Violation(
            f"{what}: got {g[i]!r}, expected {w[i]!r} (tolerance {tol[i]:.3g}, "
            f"{int(bad.sum())} of {bad.size} entries differ, first worst at {tuple(int(k) for k in i)})"
        )


def require(cond, what):
    if not bool(np.all(cond)):
        raise Violation(what)


# ---------------------------------------------------------------- generators

_N = 1_000_000
# Hypothesis draws integers from a wide range with a strong bias to small ones (half of
# integers(0, 10**6) is below 3000), but nearly uniformly from a short one: so the leading
# digits of a fraction come from a short range and the others from a wide one
_FRAC = st.tuples(st.integers(0, 249), st.integers(0, _N))


def U(lo, hi):
    """Uniform-ish float of [lo, hi], endpoints included."""
    return _FRAC.map(lambda k: lo + (hi - lo) * ((k[0] + k[1] / _N) / 250))


def UO(lo, hi):
    """As U but never exactly an end point."""
    return st.tuples(st.integers(0, 249), st.integers(1, _N - 1)).map(
        lambda k: lo + (hi - lo) * ((k[0] + k[1] / _N) / 250)
    )


def LU(lo, hi):
    """Log-uniform."""
    a, b = np.log(lo), np.log(hi)
    return _FRAC.map(lambda k: float(np.exp(a + (b - a) * ((k[0] + k[1] / _N) / 250))))


def mix(base, *special):
    """base, with the special values injected about a quarter of the time."""
    # (st.one_of would merge repeated branches)
    sp = st.sampled_from(list(special))
    return st.integers(0, 3).flatmap(lambda k: sp if k == 3 else base)


def vec(el, n):
    return st.lists(el, min_size=n, max_size=n)


def maybe(s, p_none=0.5):
    return st.one_of(st.none(), s)


def is_vec(v):
    return isinstance(v, (list, tuple, np.ndarray))


def arr(v):
    """JSON value -> what a user would pass: float or ndarray."""
    if v is None:
        return None
    if isinstance(v, list):
        return np.array(v, dtype=float)
    return v


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)
