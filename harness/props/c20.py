"""C20 gradients."""
import warnings

import numpy as np
import pytensor
from hypothesis import strategies as st

from harness import gen, ref, refflux
from harness.core import (Check, LU, SkipCase, U, UO, Violation, arr, compile_fn, info, maybe, mix,
                          require, sut, vec)
from harness.env import xo
from harness.numdiff import tableau
from harness.props import c07, c10, c11, c18
from harness.props.c12 import _u

from exoplanet.compat import tensor as pt
from exoplanet.interp import regular_grid_interp

RULE = (
    "a random weighted sum of the output of a random method of a random Keplerian, TTV or simple "
    "orbit, of a light curve (transit, eclipse, interpolated) or of an interpolator, differentiated "
    "symbolically in every input and compared, entry by entry, with Richardson-extrapolated "
    "differences at two step sizes; non-trivial when some derivative is resolved to better than 1% "
)
ASSUMPTIONS = [
    "derivatives are judged within the (self-estimated) error of the numerical derivative, so a "
    "point close to a kink (contact point, switch between transits) is judged loosely",
]
METHODS = ["relative_position", "planet_position", "star_position", "relative_velocity",
           "planet_velocity", "star_velocity", "relative_acceleration", "planet_acceleration",
           "star_acceleration", "relative_angles", "radial_velocity"]
ATTRS = ["period", "a", "a_star", "a_planet", "t0", "t_periastron", "incl", "cos_incl", "b",
         "rho_star", "m_star", "r_star", "n"]


def one_sided(f, h, levels=5):
    T = [[None] * levels for _ in range(levels)]
    f0 = np.asarray(f(0.0), float)
    best = err = None
    for i in range(levels):
        hi = h / 2.0**i
        T[i][0] = (np.asarray(f(hi), float) - f0) / hi
        for j in range(1, i + 1):
            fac = 2.0**j
            T[i][j] = (fac * T[i][j - 1] - T[i - 1][j - 1]) / (fac - 1)
            e = np.maximum(np.abs(T[i][j] - T[i][j - 1]), np.abs(T[i][j] - T[i - 1][j - 1]))
            if best is None or e < err:
                best, err = T[i][j], e
    return best, err


def compare(c, vals, build, step, unit=0.0, noise=4e-16, positive=()):
    """vals: {name: array}; build({name: tensor}) -> tensor (any shape); step(name, x) -> h."""
    names = sorted(vals)
    # static shapes are known for length-one axes, as they are for PyMC variables
    xs = {k: pt.tensor("x_" + k, shape=tuple(1 if m == 1 else None for m in np.shape(vals[k])),
                       dtype="float64") for k in names}
    with sut("building the graph"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        outs = [pt.as_tensor_variable(x) for x in build(xs)]
        flat = pt.concatenate([pt.flatten(x) for x in outs])
        size = flat.size
    w = pt.dvector("_w")
    L = pt.sum(w * flat)
    with sut("symbolic gradient"):
        gr = pytensor.grad(L, [xs[k] for k in names], disconnected_inputs="ignore")
    mode = c.get("mode", "raw")
    with sut("evaluation"):
        fv = compile_fn([xs[k] for k in names], [flat, size], mode)
        fg = compile_fn([w] + [xs[k] for k in names], gr, mode)
        x0 = [np.array(vals[k], float) for k in names]
        v, m = fv(*x0)
        wv = np.cos(1.0 + 2.3 * np.arange(int(m)) + c["wseed"])
        g = fg(wv, *x0)
    if not np.all(np.isfinite(v)):
        raise Violation(f"non-finite value at {v.shape}")
    # unit: the size of the terms the values are differences of
    S = float(np.sum(np.abs(wv) * (np.abs(v) + unit)))
    lab = []
    good = 0
    for i, k in enumerate(names):
        G = np.asarray(g[i])
        if G.shape != x0[i].shape:
            raise Violation(f"gradient by {k}: shape {G.shape}, expected {x0[i].shape}")
        if not np.all(np.isfinite(G)):
            raise Violation(f"gradient by {k} is not finite: {G.tolist()}")
        flat_idx = list(np.ndindex(*x0[i].shape))
        if not flat_idx:
            continue
        if len(flat_idx) > 2:
            flat_idx = [flat_idx[(c["pick"] + 7 * j) % len(flat_idx)] for j in range(2)]
        for ix in flat_idx:
            def f(s, ix=ix, i=i):
                x = [q for q in x0]
                x[i] = x0[i].copy()
                x[i][ix] += s
                with sut("evaluation"):
                    return np.sum(wv * fv(*x)[0])
            h = step(k, float(x0[i][ix]))
            if h is None:
                continue
            side = (k in positive) and x0[i][ix] <= 2 * h
            fn = one_sided if side else (lambda f, h: tableau(f, h, levels=4))
            with np.errstate(all="ignore"):
                d1, e1 = fn(f, h)
                d2, e2 = fn(f, 0.37 * h)
            if not (np.isfinite(d1) and np.isfinite(d2)):
                raise Violation(f"value is not finite near {k}[{ix}] = {x0[i][ix]!r}")
            # a kink shows up as a second difference that doesn't shrink with the step
            err = max(e1, e2, abs(d1 - d2))
            if not side:
                with np.errstate(all="ignore"):
                    f0 = f(0.0)
                    err = max([err] + [abs(f(q) - 2 * f0 + f(-q)) / q for q in (
                        h / 20, h / 200)])
            tol = 8 * err + 1e-6 * abs(d1) + 20 * noise * S / h + 1e-12 * (1 + S)
            if side:
                tol += 20 * err
            if not abs(G[ix] - d1) <= tol:
                raise Violation(
                    f"gradient by {k}{list(ix)}: symbolic {float(G[ix])!r}, numerical {float(d1)!r} "
                    f"(tolerance {tol:.3g})")
            if abs(d1) > 100 * tol:
                good += 1
                lab.append("d/d" + k.split("#")[0])
    return good, sorted(set(lab))


# ------------------------------------------------------------------ orbits


def _scale_step(P, N, tau):
    """Steps that move the orbit by ~1e-3 of its fastest timescale tau, N periods from t0."""
    f = 1e-3 * min(1.0, tau / P) / (1 + N)

    def step(k, x):
        k = k.split("#")[0]
        if k in ("t", "t0", "t_periastron", "ttvs", "transit_times", "texp"):
            return 1e-3 * tau
        if k in ("period", "a", "m_star", "r_star", "rho_star", "duration"):
            return f * abs(x)
        if k == "delta_log_period":
            return f
        if k == "ecc":
            return 0.3 * f * (1 - x) if x < 1 else None
        if k == "m_planet":
            return 0.3 * f * max(abs(x), 1e-3)
        return 1e-3 * min(1.0, 10 * tau / P)
    return step


def _inputs(p):
    return {k: np.asarray(v, float) for k, v in p.items()}


@st.composite
def orbit_case(draw):
    ttv = draw(st.integers(0, 3)) == 0
    if ttv:
        c = gen.ttv_fix_b(draw(gen.ttv_system(max_planets=2, max_ecc=0.8, period=(2.0, 50.0))), ref)
    else:
        c = dict(p=gen.fix_b(draw(gen.system(max_planets=2, max_ecc=0.85)), ref))
    m = draw(st.sampled_from(METHODS + (["attributes"] * 2)))
    return dict(c, method=m, t=draw(st.lists(mix(U(-3.0, 5.0), 0.0, 0.5, 60.0), min_size=1, max_size=4)),
                delay=draw(st.booleans()), parallax=draw(maybe(LU(1e-3, 1.0), 0.6)),
                K=draw(st.booleans()), Kv=draw(LU(0.1, 300.0)), wseed=draw(U(0.0, 6.0)),
                pick=draw(st.integers(0, 50)), ttv=ttv)


def _elements(c):
    o = ref.TTV(c) if c["ttv"] else ref.Orbit(c["p"])
    F = lambda v: np.ravel(np.asarray(v, float))  # noqa: E731
    return o, F


def orbit(c):
    o, F = _elements(c)
    P, e = np.min(F(o.P)), np.max(F(o.e))
    t0 = np.mean(F(o.t0))
    p = {k: v for k, v in c["p"].items() if v is not None}
    vals = _inputs(p)
    if np.any(np.abs(F(o.ci)) > 0.999) and "b" in p:
        raise SkipCase()
    tau = P / (2 * np.pi) * (1 - e) ** 1.5
    t = t0 + P * np.array(c["t"])
    N = np.max(np.abs(t - F(o.t0)[:, None] if F(o.t0).size > 1 else t - t0)) / P
    if "t_periastron" in p or "a" in p:
        N = N + np.max(np.abs(F(o.t0))) / P
    m = c["method"]
    if m != "attributes":
        vals["t"] = t
    if m == "radial_velocity" and c["K"]:
        vals["K"] = np.array(c["Kv"])
    if m.endswith("angles") or m.endswith("position"):
        if c["parallax"] is not None:
            vals["parallax"] = np.array(c["parallax"])
    lists = {}
    if c["ttv"]:
        for k in ("ttvs", "transit_times"):
            if c.get(k) is not None:
                lists[k] = len(c[k])
                for i, v in enumerate(c[k]):
                    vals[f"{k}#{i}"] = np.asarray(v, float)
        if c.get("delta_log_period") is not None:
            vals["delta_log_period"] = np.asarray(c["delta_log_period"], float)
    if m == "relative_angles":
        # not differentiable where the separation vanishes
        X, Y, Z = o.body_pos(o.A_rel, t)
        if np.min(np.hypot(X, Y) / np.sqrt(X**2 + Y**2 + Z**2)) < 0.02:
            raise SkipCase()

    def build(x):
        kw = {k: x[k] for k in p}
        for k, n in lists.items():
            kw[k] = [x[f"{k}#{i}"] for i in range(n)]
        if "delta_log_period" in vals:
            kw["delta_log_period"] = x["delta_log_period"]
        if c.get("transit_inds") is not None:
            kw["transit_inds"] = [np.array(v, dtype=int) for v in c["transit_inds"]]
        ob = (xo.orbits.TTVOrbit if c["ttv"] else xo.orbits.KeplerianOrbit)(**kw)
        if m == "attributes":
            return [getattr(ob, k) for k in ATTRS] + (
                [ob.ttv_period] + list(ob.ttvs) + list(ob.transit_times) if c["ttv"] else [])
        kk = {}
        if m.endswith("angles") or m.endswith("position"):
            if c["delay"]:
                kk["light_delay"] = True
            if "parallax" in x:
                kk["parallax"] = x["parallax"]
        if "K" in x:
            kk["K"] = x["K"]
        r = getattr(ob, "get_" + m)(x["t"], **kk)
        if m == "relative_angles":
            return [r[0], pt.sin(r[1]), pt.cos(r[1])]
        return list(r) if isinstance(r, (tuple, list)) else [r]

    # the solver of Kepler's equation snaps to apastron: values there are noisy
    M = o._M(t)
    # distance of the mean anomaly from apastron
    d = np.min(np.abs(np.abs(np.mod(M, 2 * np.pi)) - np.pi)) if not o.circ else 1.0
    if d < 0.02:
        raise SkipCase()
    noise = 4e-16 * (1 + (np.max(np.abs(t)) + abs(t0)) / tau)
    good, lab = compare(c, vals, build, _scale_step(P, N, tau), noise=noise,
                        positive=("ecc",))
    return info(good > 0, m, "ttv" if c["ttv"] else "kepler", *lab)


# ------------------------------------------------------------------ light curves


@st.composite
def lc_case(draw):
    kind = draw(st.sampled_from(["kepler", "kepler", "ttv", "simple", "eclipse"]))
    c = draw(c11.case().filter(lambda x: x["kind"] == "kepler")) if kind == "eclipse" else draw(c11.case())
    c["kind2"] = "eclipse" if kind == "eclipse" else "transit"
    c["times"] = c["times"][:4]
    if isinstance(c["texp"], list):
        c["texp"] = c["texp"][:4]
    c["oversample"] = min(c["oversample"], 5)
    c["u2"] = _u(draw)
    c["s"] = draw(mix(LU(1e-3, 5.0), 0.0))
    c["delay"] = draw(st.integers(0, 3)) == 0
    c["mid"] = draw(st.integers(0, 3)) == 0
    return dict(c, wseed=draw(U(0.0, 6.0)), pick=draw(st.integers(0, 50)), uit=draw(st.booleans()),
                mode="raw")


def light_curve(c):
    o, t, texp, r, n, D, P = c11.setup(c)
    ecl = c["kind2"] == "eclipse"
    simple, ttv = c["kind"] == "simple", c["kind"] == "ttv"
    if ecl and (n > 1 or np.any(np.asarray(r) <= 0)) or np.any(D > 0.35 * P):
        raise SkipCase()
    if simple:
        names = ("period", "duration", "t0", "b", "r_star", "ror")
        p = {k: c[k] for k in names}
        t0 = float(np.mean(p["t0"]))
        N = np.max(np.abs(t[:, None] - np.asarray(p["t0"], float))) / np.min(P)
        delay = False
        k = np.ravel(np.asarray(p["ror"], float))
        b = np.ravel(np.asarray(p["b"], float))
        if np.any(b > 0.97 * (1 + k)):
            raise SkipCase()
        tau = 0.5 * np.min(D)
    else:
        p = dict(c["p"])
        orb = ref.TTV(c) if ttv else ref.Orbit(p)
        t0 = float(np.mean(np.ravel(orb.t0)))
        N = np.max(np.abs(t[:, None] - np.ravel(np.asarray(orb.t0)))) / np.min(P)
        delay = c["delay"]
        tau = 0.3 * np.min(D)
        if np.any(np.abs(np.ravel(orb.ci)) > 0.95):
            raise SkipCase()
        N = N + (np.max(np.abs(np.ravel(orb.t0))) / np.min(P) if "t_periastron" in p or "a" in p else 0)
    if N > 2000:
        raise SkipCase()
    vals = _inputs(p)
    vals["r"] = np.array(r, float) if n > 1 or c["pick"] % 2 else np.array(float(r[0]))
    vals["u1"], vals["u2"] = (np.array(x) for x in c["u"])
    vals["t"] = t
    if ecl:
        vals["v1"], vals["v2"] = (np.array(x) for x in c["u2"])
        vals["s"] = np.array(c["s"])
    if texp is not None:
        vals["texp"] = np.asarray(texp, float)
    lists = {}
    if ttv:
        for q in ("ttvs", "transit_times"):
            if c.get(q) is not None:
                lists[q] = len(c[q])
                for i, v in enumerate(c[q]):
                    vals[f"{q}#{i}"] = np.asarray(v, float)
        if c.get("delta_log_period") is not None:
            vals["delta_log_period"] = np.asarray(c["delta_log_period"], float)
    uit = None if c["uit"] else False

    def build(x):
        kw = {q: x[q] for q in p}
        for q, m in lists.items():
            kw[q] = [x[f"{q}#{i}"] for i in range(m)]
        if "delta_log_period" in vals:
            kw["delta_log_period"] = x["delta_log_period"]
        if c.get("transit_inds") is not None:
            kw["transit_inds"] = [np.array(v, dtype=int) for v in c["transit_inds"]]
        cls = (xo.orbits.SimpleTransitOrbit if simple else
               xo.orbits.TTVOrbit if ttv else xo.orbits.KeplerianOrbit)
        ob = cls(**kw)
        k2 = dict(use_in_transit=uit)
        if texp is not None:
            k2.update(texp=x["texp"], oversample=c["oversample"], order=c["order"])
        if delay:
            k2.update(light_delay=True)
        if ecl:
            lc = xo.SecondaryEclipseLightCurve((x["u1"], x["u2"]), (x["v1"], x["v2"]), x["s"])
        else:
            lc = xo.LimbDarkLightCurve(x["u1"], x["u2"])
        return [lc.get_light_curve(orbit=ob, r=x["r"], t=x["t"], **k2)]

    base = _scale_step(np.min(P), N, tau)

    def step(q, x):
        if q in ("u1", "u2", "v1", "v2"):
            return 0.05
        if q == "s":
            return 0.1 * x if x > 0 else 0.01
        if q in ("r", "ror"):
            return 1e-3 * max(x, 0.01) if x > 0 else None
        if q in ("b", "cos_incl"):
            return 2e-3
        if q == "r_star":
            return 1e-3 * x / (1 + N)
        return base(q, x)

    noise = 4e-16 * (10 + (np.max(np.abs(t)) + abs(t0)) / tau)
    good, lab = compare(c, vals, build, step, noise=noise, unit=1.0,
                        positive=("ecc", "texp", "r", "ror"))
    return info(good > 0, c["kind"] if not ecl else "eclipse",
                "texp " + ("none" if texp is None else "vector" if np.ndim(texp) else "scalar"),
                "delay" if delay else "no delay", *lab)


# ------------------------------------------------------------------ finiteness at special points


@st.composite
def special_case(draw):
    """The defaults and limits users actually start from."""
    kind = draw(st.sampled_from(["kepler", "kepler", "ecc", "simple", "ttv", "eclipse"]))
    k = draw(st.sampled_from([0.1, 0.01, 0.5, 1.0]))
    b = draw(st.sampled_from([None, 0.0, 0.0, k, 1 - k, 1.0, 1 + k, 1.5]))
    if kind == "simple":
        b = min(b or 0.0, 0.9)
    P = draw(st.sampled_from([1.0, 3.0, 10.0]))
    t0 = draw(st.sampled_from([0.0, 0.0, 1.0, -2.5]))
    ts = draw(st.lists(st.tuples(st.sampled_from(["t0", "half", "contact", "in", "quarter"]),
                                 st.integers(-2, 2)), min_size=1, max_size=5))
    return dict(kind=kind, k=k, b=b, P=P, t0=t0, ts=[list(x) for x in ts],
                e=draw(st.sampled_from([0.0, 0.3, 0.8])), w=draw(st.sampled_from(
                    [0.0, 0.5 * np.pi, -0.5 * np.pi, np.pi, 1.0])),
                incl=draw(st.sampled_from([None, 0.5 * np.pi, 0.5 * np.pi])),
                n=draw(st.sampled_from([0, 1, 2])), texp=draw(st.sampled_from([None, None, 0.0, 0.01])),
                uit=draw(st.sampled_from([None, False])), delay=draw(st.integers(0, 3)) == 0,
                what=draw(st.sampled_from(["lc", "lc", "lc", "rv", "pos", "vel"])),
                m=draw(st.sampled_from([None, 0.0, 1e-3])), u=draw(st.sampled_from(
                    [[0.3, 0.2], [0.0, 0.0], [1.0, 0.0], [2.0, -1.0]])),
                mode=draw(st.sampled_from(["raw", "raw", "raw", "fast"])))


def special(c):
    n = c["n"]
    V = lambda v: np.full(n, float(v)) if n else np.array(float(v))  # noqa: E731
    vals = dict(period=V(c["P"]), t0=V(c["t0"]))
    kind = c["kind"]
    simple, ttv, ecl = kind == "simple", kind == "ttv", kind == "eclipse"
    if ttv and not n or ecl and n > 1:
        raise SkipCase()
    D = 0.05 * c["P"]
    if c["b"] is not None:
        vals["b"] = V(c["b"])
    elif c["incl"] is not None and not simple:
        vals["incl"] = V(c["incl"])
    if simple:
        vals["duration"] = V(D)
        if c["what"] in ("rv", "vel"):
            raise SkipCase()
    elif c["m"] is not None or ecl:
        vals["m_planet"] = V(c["m"] or (0.0 if not ecl else 1e-3))
    if kind == "ecc":
        vals["ecc"], vals["omega"] = V(c["e"]), V(c["w"])
    if not simple and np.any(np.abs(ref.Orbit({q: v.tolist() for q, v in vals.items()}).ci) > 0.99):
        raise SkipCase()
    off = dict(t0=0.0, half=0.5 * c["P"], contact=0.5 * D, quarter=0.25 * c["P"])
    off["in"] = 0.2 * D
    t = np.array([c["t0"] + q * c["P"] + off[a] for a, q in c["ts"]])
    vals["t"] = t
    if c["what"] == "lc":
        vals["r"] = V(c["k"])
        vals["u1"], vals["u2"] = np.array(c["u"][0]), np.array(c["u"][1])
    if ttv:
        for i in range(n):
            vals[f"ttvs#{i}"] = np.zeros(3)

    def build(x):
        kw = {q: x[q] for q in vals if q not in ("t", "r", "u1", "u2") and "#" not in q}
        if ttv:
            kw["ttvs"] = [x[f"ttvs#{i}"] for i in range(n)]
        ob = (xo.orbits.SimpleTransitOrbit if simple else xo.orbits.TTVOrbit if ttv
              else xo.orbits.KeplerianOrbit)(**kw)
        dl = dict(light_delay=True) if c["delay"] and not simple else {}
        if c["what"] == "lc":
            k2 = dict(use_in_transit=c["uit"], **dl)
            if c["texp"] is not None:
                k2["texp"] = c["texp"]
            lc = (xo.SecondaryEclipseLightCurve((x["u1"], x["u2"]), (0.1, 0.1), 0.3) if ecl
                  else xo.LimbDarkLightCurve(x["u1"], x["u2"]))
            return [lc.get_light_curve(orbit=ob, r=x["r"], t=x["t"], **k2)]
        if c["what"] == "rv":
            return [ob.get_radial_velocity(x["t"])]
        if c["what"] == "vel":
            return list(ob.get_relative_velocity(x["t"])) + list(ob.get_star_acceleration(x["t"]))
        return list(ob.get_relative_position(x["t"], **dl))

    # no numerical derivative: these points include kinks, the gradient only has to be finite
    compare(dict(c, wseed=0.3, pick=0), vals, build, lambda k, x: None)
    return info(True, kind, c["what"], "b=" + str(c["b"]), *sorted({a for a, _ in c["ts"]}))


# ------------------------------------------------------------------ everything else


def interpolator(c):
    far = {"lo": "below", "hi": "above", "below": "below", "above": "above"}
    c = dict(c, far=max(c["far"], 0.05), x=[[[k, far[f] if f in far else 0.05 + 0.9 * f] for k, f in row]
                                           for row in c["x"]])
    x, outside, node = c18.points(c)
    d = len(c["grids"])
    rng = np.random.default_rng(c["seed"])
    v = rng.normal(size=[len(g) for g in c["grids"]] + c["out"])
    if v.ndim > 4:
        raise SkipCase()
    # away from the faces, where there is a kink
    h = np.inf
    for i, row in enumerate(x):
        for g, q in zip(c["grids"], row):
            dist = np.min(np.abs(np.asarray(g) - q))
            L = np.min(np.diff(g))
            if dist < 0.01 * L:
                raise SkipCase()
            h = min(h, 0.4 * dist)
    vals = dict(values=v, coords=x)
    for i, g in enumerate(c["grids"]):
        vals[f"points#{i}"] = np.array(g)
    fill = float("nan") if c["fill"] == "nan" else c["fill"]
    if c["fill"] == "nan" and outside.any():
        raise SkipCase()

    def build(t):
        return [regular_grid_interp([t[f"points#{i}"] for i in range(d)], t["values"], t["coords"],
                                    fill_value=fill)]

    def step(k, q):
        return 0.1 if k == "values" else h
    amp = max(np.max(np.abs(g)) for g in c["grids"]) / min(np.min(np.diff(g)) for g in c["grids"])
    good, lab = compare(dict(c, wseed=0.3, pick=c["seed"] % 97), vals, build, step,
                        noise=4e-16 * (1 + amp))
    return info(good > 0, f"{d}-d", *lab)


def duration_orbit(c):
    """Orbits from a duration, the depth helper and the interpolated light curve."""
    p = {k: v for k, v in c["p"].items() if k != "omega_"}
    vals = _inputs(p)
    P = float(np.min(np.ravel(p["period"])))
    D = float(np.min(np.ravel(p["duration"])))
    t0 = float(np.mean(np.ravel(p.get("t0", 0.0))))
    b = np.ravel(np.asarray(p["b"], float))
    k = np.ravel(np.asarray(p.get("ror", 0.0), float))
    if np.any(b > 0.97 * (1 + k)):
        raise SkipCase()
    t = t0 + np.array([-1.3 * D, -0.31 * D, 0.17 * D, c["x_in"] * 0.4 * D, 0.21 * P])
    vals["t"] = t
    vals["u1"], vals["u2"] = (np.array(x) for x in c["u"])
    vals["depth"] = np.array(c["depth"])
    vals["bb"] = np.array(c["bb"])
    scalar = not isinstance(p["period"], list)
    vals["r"] = np.array(c["r"]) if scalar else c["r"] * (1 + 0.1 * np.arange(len(p["period"])))

    def build(x):
        ob = xo.orbits.KeplerianOrbit(**{q: x[q] for q in p})
        lc = xo.LimbDarkLightCurve(x["u1"], x["u2"])
        out = [getattr(ob, q) for q in ("a", "rho_star", "m_star", "cos_incl")]
        out += list(ob.get_relative_position(x["t"]))[:2]
        out.append(lc.get_light_curve(orbit=ob, r=x["r"], t=x["t"]))
        ror, j = lc.get_ror_from_approx_transit_depth(x["depth"], x["bb"], jac=True)
        out += [ror, j]
        if scalar:
            il = xo.InterpolatedLightCurve(lc, 40, num_planets=1)
            out.append(il.get_light_curve(orbit=ob, r=x["r"], t=x["t"]))
        return out

    N = np.max(np.abs(t - t0)) / P + abs(t0) / P
    base = _scale_step(P, N, 0.1 * D)

    def step(q, x):
        if q in ("u1", "u2"):
            return 0.02
        if q == "depth":
            return 0.05 * x
        if q == "bb":
            return 0.1 * (1 - abs(x))
        if q in ("r", "ror"):
            return 1e-3 * max(x, 0.01)
        if q == "b":
            return 1e-3
        if q == "duration":
            return 1e-3 * x
        return base(q, x)

    # the contact times of the planet are kinks; the error estimate takes care of them
    good, lab = compare(c, vals, build, step, unit=1.0,
                        noise=1e-15 * (1 + (abs(t0) + P) / D), positive=("ror", "r"))
    return info(good > 0, "scalar" if scalar else "vector", *lab)


@st.composite
def dur_case(draw):
    c = draw(c07.circ_case())
    return dict(c, u=_u(draw), depth=draw(LU(1e-5, 0.1)), bb=draw(U(-0.95, 0.95)),
                r=draw(U(0.01, 0.3)), wseed=draw(U(0.0, 6.0)), pick=draw(st.integers(0, 50)))


CHECKS = [
    Check("orbit", orbit_case(), orbit, 320),
    Check("light_curve", lc_case(), light_curve, 240),
    Check("special", special_case(), special, 160),
    Check("interpolator", c18.case(), interpolator, 80),
    Check("duration", dur_case(), duration_orbit, 60),
]
