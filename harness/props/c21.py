"""C21 parameter transforms: domain and implied density."""
import numpy as np
import pymc as pm
from hypothesis import strategies as st

from harness.core import Check, LU, U, Violation, agree, info, mix, require, vec
from harness.dists import Model
from harness.env import xo  # noqa: F401
from harness.numdiff import tableau

from exoplanet import distributions as D

RULE = (
    "points of the unconstrained (sampled) space up to 12 (density) and 35 (domain) from the origin, "
    "shapes (), 1, 3, (2,2), regularizations None/0/small/large, radius ratios as numbers, arrays and "
    "random variables; non-trivial always (shape and setting labelled)"
)
ASSUMPTIONS = [
    "domain bounds hold to within rounding (1e-13) where the interval transform saturates",
    "densities of unit_disk and angle are judged up to a constant factor",
]

SHAPES = [None, None, 1, 3, [2, 2]]
PI = np.pi


def shp(s):
    return () if s is None else (s,) if isinstance(s, int) else tuple(s)


def kw_shape(s):
    return {} if s is None else dict(shape=s if isinstance(s, int) else tuple(s))


@st.composite
def pair_case(draw):
    s = draw(st.sampled_from(SHAPES))
    n = int(np.prod(shp(s)))
    el = mix(U(-12.0, 12.0), 0.0, 12.0, -12.0)
    small = U(-2.0, 2.0)
    pts = draw(vec(vec(st.one_of(el, small), 2 * n), 4))
    far = draw(vec(vec(mix(U(-35.0, 35.0), 35.0, -35.0, 30.0, -30.0, 0.0), 2 * n), 4))
    return dict(shape=s, pts=pts, far=far, old=draw(st.integers(0, 3)) == 0)


def logjac(mod, vals, shape):
    """Sum over elements of log |d(out pair)/d(value pair)|, by central differences."""
    cols = []
    for j in range(2):
        def f(h, j=j):
            w = [np.array(v) for v in vals]
            w[j] = w[j] + h
            return pair(mod(w)[0], shape)
        cols.append(tableau(f, 0.1)[0])
    J = np.abs(cols[0][0] * cols[1][1] - cols[0][1] * cols[1][0])
    return float(np.sum(np.log(J)))


def pair(outs, shape):
    a = np.concatenate([np.ravel(o) for o in outs])
    return a.reshape((2,) + (int(np.prod(shape)),))


def run_pair(c, kind):
    shape = shp(c["shape"])
    kw = kw_shape(c["shape"])
    n = int(np.prod(shape))
    if kind == "unit_disk":
        def build():
            a, b = D.unit_disk("x", "y", **kw)
            return [a, b]
        want_shapes = [shape, shape]
    else:
        def build():
            return [(D.QuadLimbDark if c.get("old") else D.quad_limb_dark)("u", **kw)]
        want_shapes = [(2,) + shape]
    mod = Model(build, kind)
    mod.initial()
    require(len(mod.shapes) == 2, f"{kind}: {len(mod.shapes)} sampled variables, expected 2")

    def split(v):
        v = np.asarray(v)
        return [v[:n].reshape(shape), v[n:].reshape(shape)]

    def domain(outs):
        for o, w in zip(outs, want_shapes):
            require(o.shape == w, f"{kind}: shape {o.shape}, expected {w}")
        a, b = pair(outs, shape)
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            raise Violation(f"{kind}: not finite: {a}, {b}")
        if kind == "unit_disk":
            require(a**2 + b**2 <= 1 + 1e-13, f"unit_disk: x^2+y^2 = {a**2 + b**2}")
        else:
            require((a >= -1e-13) & (a + b <= 1 + 1e-13) & (a + 2 * b >= -1e-13),
                    f"quad_limb_dark: unphysical u = {a}, {b}")

    for v in c["far"]:
        domain(mod(split(v))[0])
    # the whole domain is reached: the images of far points come close to its extremes
    image = []
    for x in (-35.0, 0.0, 35.0):
        for y in (-35.0, 0.0, 35.0):
            outs = mod([np.full(shape, x), np.full(shape, y)])[0]
            domain(outs)
            image.append(pair(outs, shape))
    image = np.array(image)  # (points, 2, n)
    for corner in ([(1, 0), (-1, 0)] if kind == "unit_disk" else [(0, 0), (0, 1), (2, -1)]):
        near = np.min(np.max(np.abs(image - np.array(corner)[None, :, None]), axis=1), axis=0)
        require(near < 1e-5, f"{kind}: comes no closer than {near} to {corner}, an edge of its domain")
    base = None
    for v in c["pts"]:
        outs, lp = mod(split(v))
        domain(outs)
        if kind == "unit_disk":
            a, b = pair(outs, shape)
            require(a**2 + b**2 < 1, "unit_disk: x^2+y^2 not below one away from the edge")
        d = lp - logjac(mod, split(v), shape)
        if kind == "quad_limb_dark":
            base = 0.0  # the physical triangle (0,0), (0,1), (2,-1) has unit area
        elif base is None:
            base = d
            continue
        agree(d, base, atol=1e-5 * n, what=f"{kind}: log density (minus log Jacobian) at {v}")
    return info(True, f"shape={c['shape']}", "edge" if np.max(np.abs(c["pts"])) > 8 else "inner")


# ------------------------------------------------------------------ angle

@st.composite
def angle_case(draw):
    s = draw(st.sampled_from(SHAPES))
    n = int(np.prod(shp(s)))
    c = dict(shape=s)
    c["reg"] = draw(st.one_of(
        st.sampled_from([None, "default", 0.0, 0.5, 100.0]), LU(1e-2, 300.0)))
    c["far"] = draw(vec(vec(mix(U(-1e3, 1e3), 0.0, -0.0, 1.0, -1.0, 1e-8, -1e-8), 2 * n), 6))
    c["rest"] = draw(vec(U(-3.0, 3.0), 2 * n))
    c["j"] = draw(st.integers(0, n - 1))
    c["off"] = draw(U(0.0, 1.0))
    return c


NR, NT = 48, 12


def run_angle(c):
    shape = shp(c["shape"])
    n = int(np.prod(shape))
    kw = kw_shape(c["shape"])
    if c["reg"] != "default":
        kw["regularization"] = c["reg"]
    mod = Model(lambda: [D.angle("theta", **kw)], "angle")
    mod.initial()
    require(len(mod.shapes) == 2, "angle: expected two sampled variables")

    def ev(v):
        v = np.asarray(v)
        (th,), lp = mod([v[:n].reshape(shape), v[n:].reshape(shape)])
        require(th.shape == shape, f"angle: shape {th.shape}, expected {shape}")
        return th, lp

    for v in c["far"]:
        th, _ = ev(v)
        require(np.isfinite(th) & (np.abs(th) <= PI + 1e-15), f"angle: {th} outside [-pi, pi]")
    # harmonics of theta under the normalised density of one element, by polar quadrature
    r = 10.0 if c["reg"] == "default" else (c["reg"] or 0.0)
    R = np.sqrt(2 * r + 1) + 7.0
    R0 = max(0.0, np.sqrt(2 * r + 1) - 7.0)
    rad = R0 + (R - R0) * (np.arange(NR) + 0.5) / NR
    phi = 2 * PI * (np.arange(NT) + c["off"]) / NT
    base = np.array(c["rest"], float)
    # the held elements must not sit on the origin, where a regularised density vanishes
    for i in range(n):
        if np.hypot(base[i], base[n + i]) < 1e-3:
            base[i] = 1.0
    lps, ths = np.empty((NR, NT)), np.empty((NR, NT))
    for a in range(NR):
        for b in range(NT):
            v = base.copy()
            v[c["j"]] = rad[a] * np.sin(phi[b])
            v[n + c["j"]] = rad[a] * np.cos(phi[b])
            th, lps[a, b] = ev(v)
            ths[a, b] = np.ravel(th)[c["j"]]
    require(np.all(np.isfinite(lps)), "angle: log-probability not finite away from the origin")
    w = np.exp(lps - lps.max()) * rad[:, None]
    w /= w.sum()
    for k in range(1, 5):
        z = np.sum(w * np.exp(1j * k * ths))
        if not abs(z) < 1e-8:
            raise Violation(f"angle: harmonic {k} of theta is {z}, expected 0 (not uniform)")
    return info(True, f"shape={c['shape']}", f"reg={'some' if c['reg'] not in (None, 'default', 0.0) else c['reg']}")


# ------------------------------------------------------- impact parameter

@st.composite
def impact_case(draw):
    mode = draw(st.sampled_from(["number", "array", "array", "shape", "rv", "rv_array"]))
    c = dict(mode=mode, old=draw(st.integers(0, 3)) == 0)
    el = mix(LU(1e-4, 3.0), 0.0, 0.1, 1.0)
    if mode in ("array", "rv_array"):
        n = draw(st.sampled_from([1, 2, 3]))
        c["ror"] = draw(vec(el, n))
        c["n"] = n
    elif mode == "shape":
        c["shape"] = draw(st.sampled_from([1, 3, [2, 2]]))
        c["n"] = int(np.prod(shp(c["shape"])))
        c["ror"] = draw(st.one_of(el, vec(el, c["n"] if isinstance(c["shape"], int) else 2)))
    else:
        c["n"] = 1
        c["ror"] = draw(el)
    m = c["n"] if mode == "rv_array" else 1
    c["pts"] = draw(vec(vec(mix(U(-12.0, 12.0), 0.0), c["n"]), 3))
    c["far"] = draw(vec(vec(mix(U(-35.0, 35.0), 35.0, -35.0), c["n"]), 3))
    c["vr"] = draw(vec(vec(U(-4.0, 4.0), m), 3))
    return c


def run_impact(c):
    mode = c["mode"]
    rv = mode.startswith("rv")
    if mode == "shape":
        shape = shp(c["shape"])
    else:
        shape = (c["n"],) if "array" in mode else ()
    kw = kw_shape(c["shape"]) if mode == "shape" else {}
    ror = np.array(c["ror"]) if isinstance(c["ror"], list) else c["ror"]

    def rvar():
        return pm.Uniform("ror", lower=0.0, upper=2.0, **(dict(shape=c["n"]) if "array" in mode else {}))

    def build():
        r = rvar() if rv else ror
        b = (D.ImpactParameter if c.get("old") else D.impact_parameter)("b", r, **kw)
        return [b] + ([r] if rv else [])

    mod = Model(build, "impact_parameter")
    mod.initial()
    prior = Model(lambda: [rvar()], "ror prior") if rv else None
    iv = [i for i, nm in enumerate(mod.names) if not nm.startswith("ror_")]
    require(len(iv) == 1, "impact_parameter: expected one sampled variable")
    iv = iv[0]

    def args(v, vr):
        a = [None] * len(mod.names)
        a[iv] = np.asarray(v, float).reshape(shape)
        if rv:
            a[1 - iv] = np.asarray(vr, float).reshape((c["n"],) if "array" in mode else ())
        return a

    # the whole interval is reached
    lo, hi = [mod(args(np.full(shape, s), c["vr"][0]))[0] for s in (-35.0, 35.0)]
    k = np.broadcast_to(lo[1] if rv else ror, shape)
    require(np.minimum(lo[0], hi[0]) < 1e-9, f"impact_parameter: never below {np.minimum(lo[0], hi[0])}")
    require(np.maximum(lo[0], hi[0]) > (1 + k) * (1 - 1e-9),
            f"impact_parameter: never above {np.maximum(lo[0], hi[0])}, expected {1 + k}")
    for far, pts in ((True, c["far"]), (False, c["pts"])):
        for v, vr in zip(pts, c["vr"]):
            a = args(v, vr)
            outs, lp = mod(a)
            b = outs[0]
            k = np.broadcast_to(outs[1] if rv else ror, shape)
            require(b.shape == shape, f"impact_parameter: shape {b.shape}, expected {shape}")
            require((b >= 0) & (b <= (1 + k) * (1 + 1e-13)),
                    f"impact_parameter: {b} outside [0, 1+ror] = {1 + k}")
            if far:
                continue

            def f(h):
                w = list(a)
                w[iv] = w[iv] + h
                return mod(w)[0][0]

            d = lp - np.sum(np.log(np.abs(tableau(f, 0.1)[0])))
            want = -np.sum(np.log1p(k))
            if rv:
                want = want + prior([a[1 - iv]])[1]
            agree(d, want, atol=1e-5 * c["n"], what="impact_parameter: log density")
    return info(True, f"mode={mode}")


CHECKS = [
    Check("unit_disk", pair_case(), lambda c: run_pair(c, "unit_disk"), 240),
    Check("quad_limb_dark", pair_case(), lambda c: run_pair(c, "quad_limb_dark"), 240),
    Check("angle", angle_case(), run_angle, 160),
    Check("impact_parameter", impact_case(), run_impact, 240),
]
