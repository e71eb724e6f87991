"""C18 multilinear interpolation on regular grids."""
import itertools

import numpy as np
from hypothesis import strategies as st

from harness.core import Check, LU, U, agree, info, mix, sut, value, vec
from harness.env import xo  # noqa: F401

from exoplanet.compat import tensor as pt
from exoplanet.interp import RegularGridInterpolator, regular_grid_interp

RULE = (
    "random uneven grids in 1-4 dimensions (2-6 points each), scalar or trailing-axis data, points "
    "inside cells, at nodes, on faces, one ulp around the edges and outside, with and without "
    "fill_value; non-trivial always (location classes are labelled)"
)
ASSUMPTIONS = ["grids increase strictly with at least two points per dimension"]


@st.composite
def case(draw, func=False):
    d = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4]))
    grids = []
    for _ in range(d):
        m = draw(st.integers(2, 6 if d < 4 else 4))
        x0 = draw(mix(U(-10.0, 10.0), 0.0))
        steps = draw(vec(mix(LU(1e-3, 30.0), 1.0), m - 1))
        grids.append((x0 + np.concatenate([[0.0], np.cumsum(steps)])).tolist())
    shape = [len(g) for g in grids]
    out = draw(st.sampled_from([[], [], [1], [2], [3], [2, 3], [4, 1]]))
    c = dict(grids=grids, out=out)
    # per-dimension coordinate: cell index and fraction; special fractions are nodes and outside
    loc = st.tuples(st.integers(0, 5), mix(U(0.0, 1.0), 0.0, 1.0, "lo", "hi", "below", "above"))
    c["x"] = [[list(draw(loc)) for _ in range(d)] for _ in range(draw(st.integers(1, 6)))]
    c["far"] = draw(LU(1e-6, 5.0))
    c["fill"] = draw(st.sampled_from([None, None, 0.0, -3.5, "nan"]))
    c["form"] = draw(st.sampled_from(["array", "list", "tensor"]))
    c["api"] = draw(st.booleans())
    if func:
        n = 2**d * int(np.prod(out + [1]))
        c["coef"] = draw(vec(U(-2.0, 2.0), n))
    else:
        c["seed"] = draw(st.integers(0, 2**31))
        c["scale"] = draw(mix(LU(1e-6, 1e6), 1.0))
        c["const"] = draw(st.integers(0, 9)) == 0
    del shape
    return c


def points(c):
    """Coordinates, and the cell index chosen for them (-1: outside)."""
    x = np.empty((len(c["x"]), len(c["grids"])))
    outside = np.zeros(len(x), bool)
    node = np.zeros(len(x), bool)
    for i, row in enumerate(c["x"]):
        for j, (k, f) in enumerate(row):
            g = np.asarray(c["grids"][j])
            L = g[-1] - g[0]
            if f == "lo":
                x[i, j] = np.nextafter(g[0], -np.inf)
            elif f == "hi":
                x[i, j] = np.nextafter(g[-1], np.inf)
            elif f == "below":
                x[i, j] = g[0] - c["far"] * L
            elif f == "above":
                x[i, j] = g[-1] + c["far"] * L
            else:
                k = k % (len(g) - 1)
                x[i, j] = g[k] if f == 0 else g[k + 1] if f == 1 else min(
                    g[k] + f * (g[k + 1] - g[k]), g[-1])
                node[i] |= f in (0, 1)
            outside[i] |= bool(x[i, j] < g[0] or x[i, j] > g[-1])
    return x, outside, node


def reference(grids, values, x):
    """Multilinear interpolant (edge cell extended outside) and a rounding bound."""
    d = len(grids)
    out = np.zeros((len(x),) + values.shape[d:])
    amp = np.zeros(out.shape)
    for i, p in enumerate(x):
        cells, fr, er = [], [], []
        for g, v in zip(grids, p):
            g = np.asarray(g)
            k = 0
            while k < len(g) - 2 and v >= g[k + 1]:
                k += 1
            h = g[k + 1] - g[k]
            cells.append(k)
            fr.append((v - g[k]) / h)
            er.append(4e-16 * (abs(v) + abs(g[k]) + abs(g[k + 1])) / h * (1 + abs(fr[-1])) + 1e-15)
        for corner in itertools.product((0, 1), repeat=d):
            w, wa = 1.0, 1.0
            for b, f, e in zip(corner, fr, er):
                q = f if b else 1 - f
                w *= q
                wa *= abs(q) + e
            v = values[tuple(k + b for k, b in zip(cells, corner))]
            out[i] = out[i] + w * v
            # first-order bound on the error of the product of perturbed weights
            amp[i] = amp[i] + (wa - abs(w) + 1e-15 * d * wa) * np.abs(v)
    return out, 2 * amp


def evaluate(c, values, x):
    f = {"array": np.asarray, "list": lambda v: np.asarray(v).tolist(),
         "tensor": lambda v: pt.as_tensor_variable(np.asarray(v))}[c["form"]]
    fill = float("nan") if c["fill"] == "nan" else c["fill"]
    g = [f(v) for v in c["grids"]]
    with sut("interpolation"):
        if c["api"]:
            res = RegularGridInterpolator(g, f(values), fill_value=fill).evaluate(f(x))
        elif fill is None:
            res = regular_grid_interp(g, f(values), f(x))
        else:
            res = regular_grid_interp(g, f(values), f(x), fill_value=fill)
        return value(res), fill


def labels(outside, node, c):
    return info(True, *[n for n, m in (("outside", outside.any()), ("inside", (~outside).any()),
                                       ("node or face", node.any())) if m],
                f"{len(c['grids'])}-d", "fill" if c["fill"] is not None else "extrapolate",
                "vector data" if c["out"] else "scalar data")


def interpolant(c):
    x, outside, node = points(c)
    rng = np.random.default_rng(c["seed"])
    sh = [len(g) for g in c["grids"]] + c["out"]
    values = c["scale"] * rng.normal(size=sh)
    if c["const"]:
        values = np.full(sh, c["scale"])
    got, fill = evaluate(c, values, x)
    want, tol = reference(c["grids"], values, x)
    if fill is not None:
        want[outside] = fill
        tol[outside] = 0
    agree(got, want, 1e-15, tol, "interpolated value", nan=c["fill"] == "nan")
    return labels(outside, node, c)


def multilinear(c):
    """A function linear in each coordinate is reproduced everywhere, extrapolation included."""
    x, outside, node = points(c)
    d = len(c["grids"])
    coef = np.reshape(c["coef"], [2] * d + c["out"])
    mid = [g[0] for g in c["grids"]]
    sc = [g[-1] - g[0] for g in c["grids"]]

    def f(*xs):
        r = 0.0
        for corner in itertools.product((0, 1), repeat=d):
            m = 1.0
            for b, v, o, s in zip(corner, xs, mid, sc):
                m = m * ((v - o) / s if b else 1.0)
            r = r + np.asarray(m)[(...,) + (None,) * len(c["out"])] * coef[corner]
        return r

    values = f(*np.meshgrid(*c["grids"], indexing="ij"))
    got, fill = evaluate(c, values, x)
    want = f(*x.T)
    _, tol = reference(c["grids"], np.abs(values) + np.sum(np.abs(coef)), x)
    tol = 4 * tol
    if fill is not None:
        want[outside] = fill
        tol[outside] = 0
    agree(got, want, 0, tol, "multilinear function", nan=c["fill"] == "nan")
    # at the nodes themselves
    n = [g[i % len(g)] for i, g in enumerate(c["grids"])]
    idx = tuple(i % len(g) for i, g in enumerate(c["grids"]))
    got, _ = evaluate(c, values, np.array([n]))
    agree(got[0], values[idx], 1e-14, 1e-300, "value at a node")
    return labels(outside, node, c)


CHECKS = [
    Check("interpolant", case(), interpolant, 900),
    Check("multilinear", case(func=True), multilinear, 400),
]
