"""C31 purity: call histories, shared inputs and the kind of input never change results."""
import copy
import warnings

import astropy.units as u
import numpy as np
import pytensor
from hypothesis import strategies as st

from harness.core import (Check, LU, SkipCase, U, Violation, compile_fn, info, maybe, mix, require, sut,
                          vec)
from harness.env import xo
from harness import ref
from harness.dists import Model
from harness.props import c10, c11, c22
from harness.props.c12 import _u

import pymc as pm
from exoplanet import estimators
from exoplanet.compat import tensor as pt
from exoplanet.interp import RegularGridInterpolator, regular_grid_interp

RULE = (
    "histories of 2-8 calls (positions, velocities, accelerations, angles, radial velocities, "
    "in_transit, transit, eclipse and interpolated light curves, attributes and Jacobians) on two equal or "
    "different orbits and their light curves sharing their inputs, against fresh objects built from copies; the same call with "
    "every argument turned into a random form (number, list, constant, symbolic, shared, random "
    "variable); the same call with whole numbers and single precision floats; refilled arrays; pairs of calls differing in one argument; histories of estimator and interpolator calls on shared data; distributions started twice from the same arrays; non-trivial when the "
    "results vary"
)
ASSUMPTIONS = [
    "symbolic length-one axes have static shape, as PyMC variables do",
    "results equal when they agree to 1e-9 of their scale (1e-8 for fluxes)",
]
OPS = ["planet_position", "star_position", "relative_position", "relative_angles",
       "planet_velocity", "star_velocity", "relative_velocity", "radial_velocity",
       "planet_acceleration", "star_acceleration", "relative_acceleration"]
SIMPLE = ["planet_position", "star_position", "relative_position"]
ATTRS = ["period", "t0", "b", "r_star"]
KATTRS = ["a", "a_star", "a_planet", "t_periastron", "incl", "cos_incl", "rho_star", "m_star", "n", "m_planet"]
FORMS = ["plain", "list", "constant", "symbolic", "shared", "rv"]


@st.composite
def op_s(draw):
    return dict(op=draw(st.sampled_from(["method"] * 4 + ["in_transit", "lc", "lc", "lc", "attrs"])),
                m=draw(st.sampled_from([7, 7, 7, *range(11)])), t=draw(st.integers(0, 2)), K=draw(maybe(LU(0.1, 100.0), 0.7)),
                parallax=draw(maybe(LU(1e-3, 1.0), 0.7)), delay=draw(st.booleans()),
                texp=draw(st.booleans()), uit=draw(st.booleans()), order=draw(st.integers(0, 2)),
                lc=draw(st.sampled_from(["ld", "ld", "second", "second", "interp"])), who=draw(st.integers(0, 1)),
                unit=draw(st.sampled_from([None, "km/s", "cm/s"])),
                oversample=draw(st.sampled_from([None, None, 3, 4, 9])),
                r2=draw(st.booleans()), texp2=draw(st.booleans()))


VARY = dict(method=["t", "K", "unit", "unit", "parallax", "delay"], in_transit=["t", "texp", "texp2", "delay", "r2", "r2"],
            lc=["t", "texp", "texp2", "uit", "order", "oversample", "delay", "r2", "r2"], attrs=["t", "who"])


@st.composite
def ops_s(draw):
    """Calls of which about half repeat an earlier one with one or two arguments changed."""
    ops = [draw(op_s())]
    for _ in range(draw(st.integers(1, 7))):
        new = draw(op_s())
        if draw(st.booleans()):
            old = draw(st.sampled_from(ops))
            change = draw(st.lists(st.sampled_from(VARY[old["op"]]), max_size=3))
            new = {k: new[k] if k in change else old[k] for k in old}
        ops.append(new)
    return ops


@st.composite
def case(draw):
    c = draw(c11.case())
    c["times"] = c["times"][:5]
    if isinstance(c["texp"], list):
        c["texp"] = c["texp"][:5]
    c["ops"] = draw(ops_s())
    c["v"] = _u(draw)
    c["s"] = draw(LU(0.01, 3.0))
    c["form"] = draw(st.sampled_from(["plain", "plain", "list", "constant", "shared"]))
    c["lcform"] = draw(st.sampled_from(["tuple", "list", "array"]))
    c["other"] = draw(st.booleans())
    return c


@st.composite
def repeat_case(draw):
    """Two calls for the same orbit and light curve that differ in one argument (then the first again)."""
    c = draw(case())
    q = draw(op_s())
    q["op"] = draw(st.sampled_from(["lc", "lc", "lc", "in_transit", q["op"]]))
    if q["op"] == "lc":
        q["delay"] = q["delay"] and draw(st.booleans())
        if c["kind"] == "kepler":
            q["lc"] = draw(st.sampled_from(["second", "second", "ld", "interp"]))
        if q["lc"] == "second":
            q["t"] = draw(st.sampled_from([2, 2, 0]))
    new, k = dict(q), draw(st.sampled_from(VARY[q["op"]]))
    if k in ("r2", "texp2", "delay", "uit", "texp", "who"):
        new[k] = not q[k] if k != "who" else 1 - q[k]
        if k == "r2" and q["op"] == "in_transit":
            q["delay"] = new["delay"] = True  # (radii are passed)
    else:
        new[k] = draw(op_s())[k]
    c["ops"] = [q, new] + draw(st.sampled_from([[], [q]]))
    return c


NAMES = ("period", "duration", "t0", "b", "r_star", "ror")


def eclipse_delay(c, n, P):
    """Time from the transit to the eclipse of the planet every time belongs to."""
    d = 0.5 * P
    if c["kind"] == "kepler":
        e, w = c10._elements(ref.Orbit(c["p"]), n)[1:3]
        f = np.array([0.5 * np.pi - w, -0.5 * np.pi - w])
        E = 2 * np.arctan2(np.sqrt(1 - e) * np.sin(0.5 * f), np.sqrt(1 + e) * np.cos(0.5 * f))
        M = E - e * np.sin(E)
        d = (M[1] - M[0]) % (2 * np.pi) / (2 * np.pi) * P
    return np.array([np.broadcast_to(d, (n,))[q["i"]] for q in c["times"]])


def inputs(c):
    """Everything the caller owns: orbit arguments, times, radii, exposure, limb darkening."""
    o, t, texp, r, n, D, P = c11.setup(c)
    if np.any(D > 0.35 * P):
        raise SkipCase()
    d = {k: np.asarray(c[k], float) for k in NAMES} if c["kind"] == "simple" else {
        k: np.asarray(v, float) for k, v in c["p"].items() if v is not None}
    if c["kind"] == "ttv":
        for k in ("ttvs", "transit_times"):
            if c.get(k) is not None:
                d[k] = [np.array(v, float) for v in c[k]]
        if c.get("transit_inds") is not None:
            d["transit_inds"] = [np.array(v, dtype=int) for v in c["transit_inds"]]
        if c.get("delta_log_period") is not None:
            d["delta_log_period"] = np.asarray(c["delta_log_period"], float)
    e = dict(t=[t, t[::-1] + 0.01 * float(np.min(P)), t + eclipse_delay(c, n, P)], r=np.array(r, float), u=np.array(c["u"]),
             v=np.array(c["v"]), s=np.array(c["s"]), texp=np.asarray(0.1 * np.min(D) if texp is None
                                                                     else texp, float))
    # (a second value, for calls in the same history)
    e["r2"], e["texp2"] = 0.5 * e["r"], 0.4 * e["texp"]
    return d, e, n


def objects(c, d, e, n):
    cls = dict(simple=xo.orbits.SimpleTransitOrbit, ttv=xo.orbits.TTVOrbit,
               kepler=xo.orbits.KeplerianOrbit)[c["kind"]]
    u = tuple(e["u"]) if c["lcform"] == "tuple" else e["u"].tolist() if c["lcform"] == "list" else e["u"]
    with sut("building objects"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        orb = cls(**d)
        ld = xo.LimbDarkLightCurve(e["u"][0], e["u"][1])
        return orb, dict(ld=ld, second=xo.SecondaryEclipseLightCurve(u, e["v"], e["s"]),
                         interp=xo.InterpolatedLightCurve(ld, 30, num_planets=n))


def call(c, q, obj, e):
    orb, lcs = obj
    t = e["t"][q["t"] % len(e["t"])]
    e = dict(e, **{k: e[k + "2"] for k in ("r", "texp") if q.get(k + "2") and k + "2" in e})
    simple = c["kind"] == "simple"
    with sut(f"{q['op']} {q['m']}"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if q["op"] == "attrs":
            return [getattr(orb, k) for k in ATTRS + ([] if simple else KATTRS)] + jacobians(orb)
        if q["op"] == "in_transit":
            kw = dict(texp=e["texp"]) if q["texp"] else {}
            if q["delay"]:
                kw["r"] = e["r"]
            return [orb.in_transit(t, **kw)]
        if q["op"] == "lc":
            kw = dict(texp=e["texp"], order=q["order"]) if q["texp"] else {}
            if q["texp"] and q.get("oversample") is not None:
                kw["oversample"] = q.get("oversample")
            which = q["lc"]
            if which == "second" and c["kind"] != "kepler" or which == "interp" and (
                    c["kind"] == "ttv" or e["texp"].ndim):
                which = "ld"
            if q["delay"] and not simple:
                kw["light_delay"] = True
            elif not q["uit"]:
                kw["use_in_transit"] = False
            return [lcs[which].get_light_curve(orbit=orb, r=e["r"], t=t, **kw)]
        ms = SIMPLE if simple else OPS
        m = ms[q["m"] % len(ms)]
        kw = {}
        if not simple and m.endswith(("position", "angles")):
            kw["light_delay"] = q["delay"]
            if q["parallax"] is not None:
                kw["parallax"] = q["parallax"]
        if m == "radial_velocity" and q["K"] is not None:
            kw["K"] = q["K"]
        if m == "radial_velocity" and q.get("unit") is not None:
            kw["output_units"] = u.Unit(q.get("unit"))
        r = getattr(orb, "get_" + m)(t, **kw)
        return list(r) if isinstance(r, (tuple, list)) else [r]


def jacobians(orb):
    """The stored Jacobians, in a fixed order."""
    J = getattr(orb, "jacobians", {})
    return [J[x][y] for x in sorted(J) for y in sorted(J[x])]


def tens(outs):
    return [pt.as_tensor_variable(x) for x in outs]


def close(a, b, what, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} and {b.shape}")
    if not a.size:
        return
    scale = tol * (1e-3 + np.max(np.abs(np.where(np.isfinite(b), b, 0))))
    bad = ~((np.abs(a - b) <= scale) | (np.isnan(a) & np.isnan(b)) | (a == b))
    if bad.any():
        raise Violation(f"{what}: {a[bad][0]!r} and {b[bad][0]!r}")


def same_tree(a, b, what):
    if isinstance(a, dict):
        require(a.keys() == b.keys(), f"{what}: keys changed")
        for k in a:
            same_tree(a[k], b[k], f"{what}[{k}]")
    elif isinstance(a, (list, tuple)):
        require(len(a) == len(b), f"{what}: length changed")
        for i, (x, y) in enumerate(zip(a, b)):
            same_tree(x, y, f"{what}[{i}]")
    elif isinstance(a, pytensor.compile.SharedVariable):
        same_tree(a.get_value(), b, what)
    elif isinstance(a, pytensor.graph.basic.Constant):
        same_tree(a.data, b, what)
    elif isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        require(np.asarray(a).dtype == np.asarray(b).dtype and np.array_equal(a, b, equal_nan=True),
                f"{what} was modified")
    else:
        require(a == b, f"{what} was modified")


def convert(x, form):
    if isinstance(x, list):
        return [convert(y, form) for y in x]
    if isinstance(x, np.ndarray) and x.dtype == int:
        return x
    if form == "list":
        return x.tolist()
    if form == "constant":
        return pt.as_tensor_variable(x.copy())
    if form == "shared":
        return pytensor.shared(x.copy(), shape=tuple(1 if m == 1 else None for m in x.shape))
    return x


def changed(c, d, e):
    """The inputs of a second orbit: the same objects, except for the period or the semi-major axis,
    the impact parameter and the limb darkening where these differ."""
    if not c.get("other"):
        return d, e
    d = dict(d)
    for k, f in dict(period=1.01, a=1.01, duration=0.99, b=0.9).items():
        if d.get(k) is not None and not (k == "a" and "period" in d):
            d[k] = np.asarray(f * np.asarray(d[k]))
    return d, dict(e, u=0.9 * e["u"], s=np.asarray(1.1 * e["s"]))


def history(c):
    d0, e0, n = inputs(c)
    e = copy.deepcopy(e0)
    plain = copy.deepcopy((d0, e0))
    plains = [plain, copy.deepcopy(changed(c, d0, e0))]
    d = {k: convert(v, c["form"]) for k, v in d0.items()}
    other, eo = changed(c, d0, e)
    other = {k: d[k] if v is d0[k] else convert(v, c["form"]) for k, v in other.items()}
    pair = [objects(c, d, e, n), objects(c, other, eo, n)]
    got = [tens(call(c, q, pair[q["who"]], e)) for q in c["ops"]]
    want = []
    for q in c["ops"]:
        d2 = {k: convert(v, c["form"]) for k, v in copy.deepcopy(plains[q["who"]][0]).items()}
        e2 = copy.deepcopy(plains[q["who"]][1])
        want.append(tens(call(c, q, objects(c, d2, e2, n), e2)))
    with sut("evaluation"):
        fn = compile_fn([], sum(got, []) + sum(want, []))
        out = fn()
        out2 = fn()
    k = len(out) // 2
    i = 0
    for q, g in zip(c["ops"], got):
        for _ in g:
            what = f"{q['op']} after {len(c['ops'])} calls and on a fresh object"
            close(out[i], out[k + i], what, 1e-8 if q["op"] == "lc" else 1e-9)
            require(np.array_equal(out[i], out2[i], equal_nan=True), f"{q['op']} is not deterministic")
            i += 1
    want_d = {k: convert(v, "list") if c["form"] == "list" else v for k, v in plain[0].items()}
    same_tree(d, want_d, "orbit argument")
    same_tree(e, plain[1], "input")
    return info(any(np.size(x) and np.ptp(x) > 0 for x in out), c["kind"], c["form"],
                *sorted({q["op"] if q["op"] != "lc" else q["lc"] for q in c["ops"]}))


def reuse(c):
    """The caller refills its own arrays between two rounds of calls: the second round sees the
    new contents."""
    d0, e0, n = inputs(c)
    if c["kind"] == "ttv":
        raise SkipCase()
    old = copy.deepcopy((d0, e0))
    d, e = copy.deepcopy((d0, e0))
    q = dict(c["ops"][0], t=0, r2=False)
    # (a PyTensor constant may share the memory of the array: evaluate before the refill)
    first = tens(call(c, q, objects(c, d, e, n), e))
    with sut("evaluation"):
        first = compile_fn([], first)()

    def refill(x, y):
        x[...] = y

    # new contents, written into the same arrays
    new = copy.deepcopy(old)
    for i in range(len(new[1]["t"])):
        new[1]["t"][i] = old[1]["t"][i] + 0.013 * float(np.min(new[0]["period"]
                                                              if "period" in new[0] else 1.0))
    if "period" in new[0]:
        new[0]["period"] = np.asarray(new[0]["period"] * 1.01)
    new[1]["r"] = np.asarray(new[1]["r"] * 0.9)
    new[1]["u"] = new[1]["u"] * 0.9
    for i in range(len(e["t"])):
        refill(e["t"][i], new[1]["t"][i])
    refill(e["r"], new[1]["r"])
    refill(e["u"], new[1]["u"])
    if "period" in d:
        refill(d["period"], new[0]["period"])
    outs = tens(call(c, q, objects(c, d, e, n), e))
    for dd, ee in (old, new):
        dd, ee = copy.deepcopy((dd, ee))
        outs += tens(call(c, q, objects(c, dd, ee, n), ee))
    with sut("evaluation"):
        out = compile_fn([], outs)()
    m = len(first)
    out = list(first) + out[:m] + out[m:]
    k = len(out) // 2
    for i in range(k):
        close(out[i], out[k + i], f"{q['op']} with arrays the caller refilled "
              + ("later" if i < k // 2 else "before"), 1e-8)
    return info(any(np.size(x) and np.ptp(x) > 0 for x in out), c["kind"], q["op"])


# ------------------------------------------------------------------ input forms


@st.composite
def form_case(draw):
    c = draw(case())
    c["ops"] = [dict(q, r2=False, texp2=False) for q in c["ops"][:2]]
    c["forms"] = draw(st.lists(st.sampled_from(FORMS), min_size=6, max_size=6))
    c["scalarf"] = draw(st.booleans())
    return c


def forms(c):
    d, e, n = inputs(c)
    base = [tens(call(c, q, objects(c, d, e, n), e)) for q in c["ops"]]
    ins, vals = [], []
    count = [0]
    model = pm.Model()

    def turn(x):
        if isinstance(x, list):
            return [turn(y) for y in x]
        x = np.asarray(x)
        count[0] += 1
        f = c["forms"][count[0] % len(c["forms"])]
        if x.dtype == int:
            return x
        if f in ("list", "plain"):
            return x.tolist() if f == "list" else (float(x) if x.ndim == 0 else x)
        if f in ("constant", "shared"):
            return convert(x, f)
        name = f"x{count[0]}"
        if f == "symbolic":
            v = pt.tensor(name, shape=tuple(1 if m == 1 else None for m in x.shape), dtype="float64")
        else:
            v = pm.Normal(name, x, 1.0, shape=x.shape)
        ins.append(v)
        vals.append(x)
        return v

    with model, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d2 = {k: turn(v) for k, v in d.items()}
        e2 = dict(e, t=[turn(x) for x in e["t"]], texp=turn(e["texp"]), r=turn(e["r"]),
                  u=[turn(x) for x in e["u"]], v=[turn(x) for x in e["v"]], s=turn(e["s"]))
        # the caller indexes pairs of limb darkening coefficients
        e2["u"], e2["v"] = Pair(e2["u"]), Pair(e2["v"])
        other = [tens(call2(c, q, objects(c, d2, e2, n), e2, e)) for q in c["ops"]]
    with sut("evaluation"):
        a = compile_fn([], sum(base, []))()
        b = compile_fn(ins, sum(other, []))(*vals)
    i = 0
    for q, g in zip(c["ops"], base):
        for _ in g:
            close(b[i], a[i], f"{q['op']} with the inputs in other forms and as numbers",
                  1e-8 if q["op"] == "lc" else 1e-9)
            i += 1
    return info(any(np.size(x) and np.ptp(x) > 0 for x in a), c["kind"], *sorted(set(c["forms"])))


class Pair(list):
    def tolist(self):
        return list(self)


def call2(c, q, obj, e, plain):
    """The call of the literal inputs: choices depending on shapes are made from these."""
    if q["op"] == "lc" and q["lc"] == "interp" and (c["kind"] == "ttv" or plain["texp"].ndim):
        q = dict(q, lc="ld")
    e = dict(e)
    if q["lc"] == "interp":
        e["texp"] = pt.as_tensor_variable(e["texp"])
    for k in ("texp", "r"):
        if isinstance(e[k], (float, list)):
            e[k] = np.asarray(e[k])
    return call(c, q, obj, e)


# ------------------------------------------------------------------ number types

#: values with an exact single precision (and some with an exact integer) representation
Q = {"period": [3, 5, 2.5, 7, 10], "t0": [0, 1, -2, 0.25], "b": [0, 0.25, 0.5, 1], "r_star": [1, 2, 0.5],
     "m_star": [1, 2, 0.5], "rho_star": [1, 2, 0.75], "ecc": [0, 0.25, 0.5], "omega": [0, 1, -2, 0.5],
     "m_planet": [0, 1, 0.125], "Omega": [0, 1, -0.5], "incl": [1, 2, 1.5], "duration": [0.25, 0.5, 1],
     "ror": [0, 0.125, 1], "a": [20, 32, 15.5]}


@st.composite
def number_case(draw):
    kind = draw(st.sampled_from(["kepler", "kepler", "ttv", "simple"]))
    n = None if kind != "ttv" and draw(st.booleans()) else draw(st.integers(1, 3))

    def V(k, force=False):
        el = st.sampled_from(Q[k])
        return draw(el) if n is None or not (force or draw(st.booleans())) else [draw(el) for _ in range(n)]

    d = {}
    if kind == "simple":
        for k in ("period", "duration", "t0", "b", "r_star", "ror"):
            if k in ("period", "duration") or draw(st.booleans()):
                d[k] = V(k, k == "period") if k != "r_star" else draw(st.sampled_from(Q[k]))
    else:
        if kind == "kepler":
            size = draw(st.sampled_from(["period", "a"]))
            d[size] = V(size, True)
            e = draw(st.sampled_from(["t0", "t_periastron", None]))
            if e:
                d[e] = V("t0")
        star = draw(st.sampled_from([[], ["r_star", "m_star"], ["rho_star"], ["rho_star", "r_star"]]))
        for k in star:
            d[k] = draw(st.sampled_from(Q[k]))
        o = draw(st.sampled_from(["b", "incl", None]))
        if o:
            d[o] = V(o)
        if draw(st.booleans()):
            d["ecc"], d["omega"] = V("ecc"), V("omega")
        for k in ("Omega", "m_planet"):
            if draw(st.booleans()):
                d[k] = V(k)
    if kind == "ttv":
        m = [draw(st.integers(2, 4)) for _ in range(n)]
        P = [draw(st.sampled_from([4, 6, 10])) for _ in range(n)]
        dev = [draw(vec(st.sampled_from([0, 0.25, -0.25, 0]), k)) for k in m]
        if draw(st.booleans()):
            d["transit_times"] = [[p * i + x for i, x in enumerate(y)] for p, y in zip(P, dev)]
        else:
            d.update(ttvs=dev, period=P, t0=[draw(st.sampled_from(Q["t0"])) for _ in range(n)])
    k = draw(st.integers(1, 5))
    e = dict(t=[draw(vec(st.sampled_from([0, 1, 3, 5, 0.125, -0.25, 8, 10]), k)) for _ in range(2)],
             r=[draw(st.sampled_from([0, 0.125, 0.5, 1])) for _ in range(n or 1)],
             u=draw(st.sampled_from([[0, 1], [1, 0], [0.25, 0.5], [0, 0]])),
             v=draw(st.sampled_from([[0, 1], [0.5, 0]])), s=draw(st.sampled_from([0, 1, 0.5])),
             texp=draw(st.sampled_from([0.25, 0.125, 0])))
    ops = draw(st.lists(op_s(), min_size=1, max_size=3))
    for q in ops:
        if q["K"] is not None:
            q["K"] = 3
        if q["parallax"] is not None:
            q["parallax"] = 1
    return dict(kind=kind, d=d, e=e, ops=ops, lcform="tuple", n=n,
                types=draw(st.lists(st.sampled_from(["int", "list", "i64", "i32", "f32"]), min_size=5, max_size=5)))


def numbers(c):
    """Whole numbers and single precision floats are the numbers they stand for."""
    used = set()
    count = [0]

    def floats(x):
        return [floats(y) for y in x] if isinstance(x, list) and isinstance(x[0], list) else np.asarray(x, float)

    def typed(x):
        if isinstance(x, list) and isinstance(x[0], list):
            return [typed(y) for y in x]
        count[0] += 1
        f = c["types"][count[0] % len(c["types"])]
        a = np.asarray(x, float)
        if f != "f32" and np.any(a != np.round(a)):
            f = "f32"
        used.add(f)
        if f in ("int", "list"):
            return np.asarray(a, int).tolist()
        return a.astype({"i64": np.int64, "i32": np.int32, "f32": np.float32}[f])

    n = c["n"] or 1
    d, e = {k: floats(v) for k, v in c["d"].items()}, {k: floats(v) for k, v in c["e"].items()}
    e["t"] = [np.asarray(x, float) for x in c["e"]["t"]]
    base = [tens(call(c, q, objects(c, d, e, n), e)) for q in c["ops"]]
    d2 = {k: typed(v) for k, v in c["d"].items()}
    e2 = {k: typed(v) for k, v in c["e"].items()}
    # (what call() and objects() themselves look at)
    e2["u"], e2["v"] = np.asarray(e2["u"]), np.asarray(e2["v"])
    e2["texp"], e2["s"] = np.asarray(e2["texp"]), np.asarray(e2["s"])
    e2["t"] = [np.asarray(x) for x in e2["t"]]
    other = [tens(call(c, q, objects(c, d2, e2, n), e2)) for q in c["ops"]]
    with sut("evaluation"):
        out = compile_fn([], sum(base, []) + sum(other, []))()
    k = len(out) // 2
    names = sum([[q["op"]] * len(g) for q, g in zip(c["ops"], base)], [])
    for i in range(k):
        close(out[k + i], out[i], f"{names[i]} with inputs of types {sorted(used)} and as floats",
              1e-8 if names[i] == "lc" else 1e-9)
    return info(any(np.size(x) and np.any(np.isfinite(x) & (x != 0)) for x in out), c["kind"], *sorted(used))


# ------------------------------------------------------------------ estimators and interpolators


@st.composite
def data_case(draw):
    c = dict(n=draw(st.integers(20, 80)), seed=draw(st.integers(0, 2**31)), P=draw(U(1.5, 4.0)),
             form=draw(st.sampled_from(["array", "list"])),
             ops=draw(st.lists(st.tuples(st.sampled_from(
                 ["semi", "minm", "lomb", "auto", "bls", "interp", "grid"]), st.integers(0, 3)),
                 min_size=2, max_size=6)))
    c["ops"] = [list(x) for x in c["ops"]]
    return c


def data(c):
    rng = np.random.default_rng(c["seed"])
    # (autocorr_estimator interpolates to the smallest spacing)
    x = np.linspace(0, 12, c["n"]) + rng.uniform(-1, 1, c["n"]) * 4 / c["n"]
    y = 0.5 * np.sin(2 * np.pi * x / c["P"]) + 0.05 * rng.normal(size=c["n"])
    y[np.mod(x, c["P"]) < 0.2] -= 1.0
    yerr = rng.uniform(0.03, 0.1, c["n"])
    grid = [np.sort(rng.uniform(0, 1, 5)), np.sort(rng.uniform(0, 1, 4))]
    E = dict(x=x, y=y, yerr=yerr, periods=[c["P"], 1.7 * c["P"]], t0s=[0.1, 0.2], grid=grid,
             values=rng.normal(size=(5, 4)), pts=rng.uniform(-0.1, 1.1, (6, 2)))
    if c["form"] == "list":
        L = {k: (v if k in ("periods", "t0s", "grid") else v) for k, v in E.items()}
        L.update(periods=list(E["periods"]), grid=[g.tolist() for g in grid])
        E = L
    else:
        E.update(periods=np.array(E["periods"]), t0s=np.array(E["t0s"]))
    with sut("RegularGridInterpolator"):
        shared = RegularGridInterpolator(E["grid"], E["values"])

    def do(q, E, it):
        k, v = q
        ye = E["yerr"] if v % 2 else None
        with sut(k), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if k == "semi":
                return estimators.estimate_semi_amplitude(E["periods"], E["x"], E["y"], ye,
                                                          E["t0s"] if v > 1 else None)
            if k == "minm":
                return [q.value for q in [estimators.estimate_minimum_mass(
                    E["periods"], E["x"], E["y"], ye, E["t0s"] if v > 1 else None)]]
            if k == "lomb":
                return estimators.lomb_scargle_estimator(E["x"], E["y"], ye, min_period=1.0,
                                                         max_period=6.0, max_peaks=1 + v)
            if k == "auto":
                return estimators.autocorr_estimator(E["x"], E["y"], ye, min_period=1.0, max_period=6.0)
            if k == "bls":
                return estimators.bls_estimator(E["x"], E["y"], ye, duration=0.2 + 0.02 * v,
                                                min_period=1.2, max_period=6.0)
            kw = dict(fill_value=1.5) if v % 2 else {}
            if k == "grid":
                return regular_grid_interp(E["grid"], E["values"], E["pts"], **kw).eval(
                    mode=_mode())
            return it.evaluate(E["pts"]).eval(mode=_mode())

    keep = copy.deepcopy(E)
    got = [do(q, E, shared) for q in c["ops"]]
    same_tree(E, keep, "data")
    for q, g in zip(c["ops"], got):
        E2 = copy.deepcopy(keep)
        w = do(q, E2, RegularGridInterpolator(E2["grid"], E2["values"]))
        deep(g, w, q[0])
    again = [do(q, E, shared) for q in c["ops"]]
    for q, g, w in zip(c["ops"], got, again):
        deep(g, w, q[0] + " again")
    same_tree(E, keep, "data")
    return info(True, *sorted({q[0] for q in c["ops"]}), c["form"])


@st.composite
def int_case(draw):
    return dict(n=draw(st.integers(20, 60)), seed=draw(st.integers(0, 2**31)), P=draw(st.integers(5, 12)),
                op=draw(st.sampled_from(["semi", "minm", "lomb", "auto", "bls", "grid", "peaks", "times"])),
                v=draw(st.integers(0, 3)), dtype=draw(st.sampled_from(["int64", "int32", "float32"])))


def int_data(c):
    """Whole-number data are the same data as floats."""
    rng = np.random.default_rng(c["seed"])
    x = np.cumsum(rng.integers(1, 4, c["n"]))
    y = np.round(100 * np.sin(2 * np.pi * x / c["P"]) + 10 * rng.normal(size=c["n"]))
    y[np.mod(x, c["P"]) < 1] -= 200
    yerr = rng.integers(3, 10, c["n"])
    v = c["v"]
    per = np.array([c["P"], 2 * c["P"] + 1])
    t0 = np.array([0, 3])
    grid = [np.array([0, 2, 3, 7]), np.array([-1, 4, 6])]
    vals, pts = rng.integers(-9, 9, (4, 3)), rng.integers(-1, 7, (6, 2))
    power = rng.integers(1, 1000, c["n"])

    def do(f):
        X, Y, E = f(x), f(y), f(yerr) if v % 2 else None
        with sut(c["op"] + " with whole numbers"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if c["op"] == "semi":
                return estimators.estimate_semi_amplitude(f(per), X, Y, E, f(t0) if v > 1 else None)
            if c["op"] == "minm":
                return estimators.estimate_minimum_mass(f(per), X, Y, E, f(t0) if v > 1 else None,
                                                        m_star=f(np.array(2))).value
            if c["op"] == "lomb":
                return estimators.lomb_scargle_estimator(X, Y, E, min_period=4, max_period=30, max_peaks=1 + v)
            if c["op"] == "auto":
                return estimators.autocorr_estimator(X, Y, E, min_period=4, max_period=30)
            if c["op"] == "bls":
                return estimators.bls_estimator(X, Y, E, duration=2, min_period=5, max_period=30)
            if c["op"] == "peaks":
                return estimators.find_peaks(f(np.arange(1, c["n"] + 1)), f(power), max_peaks=1 + v)
            if c["op"] == "times":
                return xo.orbits.ttv.compute_expected_transit_times(
                    f(x).min(), f(x).max(), f(per), f(t0))
            kw = dict(fill_value=2) if v % 2 else {}
            return regular_grid_interp([f(g) for g in grid], f(vals), f(pts), **kw).eval(mode=_mode())

    dt = np.dtype(c["dtype"])
    if dt.kind == "f" and c["op"] != "grid":
        dt = np.dtype("int32")  # (numpy computes the rest in the precision of the data)
    deep(do(lambda a: np.asarray(a).astype(dt)), do(lambda a: np.asarray(a, float)), c["op"])
    return info(True, c["op"], dt.name)


def _mode():
    from harness.core import _MODES
    return _MODES["raw"]


def deep(a, b, what):
    if isinstance(a, dict):
        require(set(a) == set(b), f"{what}: keys {set(a) ^ set(b)}")
        for k in a:
            if k in ("bls",):
                continue
            deep(a[k], b[k], f"{what}[{k}]")
    elif isinstance(a, (list, tuple)):
        require(len(a) == len(b), f"{what}: {len(a)} and {len(b)} entries")
        for i, (x, y) in enumerate(zip(a, b)):
            deep(x, y, f"{what}[{i}]")
    elif a is None or isinstance(a, str):
        require(a == b, what)
    else:
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype == object:
            return
        require(x.shape == y.shape and np.allclose(x, y, rtol=1e-12, atol=0, equal_nan=True),
                f"{what} differs from the result of fresh data: {x.ravel()[:3]} and {y.ravel()[:3]}")


# ------------------------------------------------------------------ distributions


def distributions(c):
    """The same arrays of starting values (and radius ratios) used for two models."""
    def build(arrays):
        return Model(lambda: sum([c22.construct(i, it, "array", arrays)
                                  for i, it in enumerate(c["items"])], []),
                     "+".join(it["kind"] for it in c["items"]))

    A = {}
    first, lp = build(A).at_initial()
    fresh = {}
    want, lpw = build(fresh).at_initial()
    again, lp2 = build(A).at_initial()
    for k in fresh:
        if isinstance(fresh[k], np.ndarray):
            it = c["items"][k[0]]
            v = np.array(it[k[1]], float).reshape(np.shape(fresh[k]))
            require(np.array_equal(A[k], v), f"{it['kind']}: the caller's {k[1]} was modified")
    for a, b, w in zip(first, again, want):
        close(a, w, "initial point of equal models")
        close(b, w, "initial point of a model built from the arrays of another")
    close(lp, lpw, "log-probability of equal models")
    close(lp2, lpw, "log-probability of a model built from the arrays of another")
    return info(bool(A), *{it["kind"] for it in c["items"]})


@st.composite
def dist_case(draw):
    items = draw(st.lists(c22.item(), min_size=1, max_size=2))
    for it in items:
        it["default"] = False
    return dict(items=items)


CHECKS = [
    Check("history", case(), history, 220),
    Check("repeat", repeat_case(), history, 240),
    Check("reuse", case(), reuse, 150),
    Check("forms", form_case(), forms, 220),
    Check("numbers", number_case(), numbers, 200),
    Check("int_data", int_case(), int_data, 150, shards=4),
    Check("data", data_case(), data, 150),
    Check("distributions", dist_case(), distributions, 80),
]
