"""C22 requested starting values are honoured."""
import numpy as np
import pymc as pm
from hypothesis import strategies as st

from harness.core import Check, LU, U, UO, agree, info, mix, require, vec
from harness.dists import Model
from harness.env import xo  # noqa: F401
from harness.props.c21 import kw_shape, shp

from exoplanet import distributions as D

RULE = (
    "models of one to three distributions, each with a starting value drawn from its whole support "
    "(interior), under either keyword, with shapes (), 1, 3, (2,2), bounds and free hyperparameters, "
    "or with the default; non-trivial when a starting value is requested"
)
ASSUMPTIONS = [
    "a starting value has the shape of the parameter (PyMC does not broadcast it) and lies inside "
    "the support",
]
PI = np.pi
SHAPES = [None, None, 1, 3, [2, 2]]
KINDS = ["angle", "unit_disk", "quad_limb_dark", "impact_parameter", "kipping13", "vaneylen19"]


@st.composite
def item(draw, kinds=KINDS):
    k = draw(st.sampled_from(kinds))
    s = draw(st.sampled_from(SHAPES))
    n = int(np.prod(shp(s)))
    c = dict(kind=k, shape=s, key=draw(st.sampled_from(["initval", "initval", "testval"])),
             default=draw(st.integers(0, 3)) == 0, old=draw(st.integers(0, 3)) == 0)
    if k == "angle":
        c["val"] = draw(vec(mix(U(-PI, PI), 0.0, PI, -PI, PI / 2, -PI / 2, 3.1), n))
        c["reg"] = draw(st.sampled_from([None, "default", 0.0, 50.0]))
    elif k == "unit_disk":
        r = draw(vec(mix(U(0.0, 1.0), 0.0, 0.9999, 0.5), n))
        t = draw(vec(mix(U(-PI, PI), 0.0, PI / 2, PI), n))
        r = np.minimum(np.array(r), 0.9999)
        c["val"] = [(r * np.cos(t)).tolist(), (r * np.sin(t)).tolist()]
    elif k == "quad_limb_dark":
        q1 = np.array(draw(vec(mix(UO(0.0, 1.0), 1e-4, 0.25, 0.999), n)))
        q2 = np.array(draw(vec(mix(UO(0.0, 1.0), 1e-4, 0.5, 0.999), n)))
        c["val"] = [(2 * np.sqrt(q1) * q2).tolist(), (np.sqrt(q1) * (1 - 2 * q2)).tolist()]
    elif k == "impact_parameter":
        c["ror_form"] = draw(st.sampled_from(["number", "array", "rv"]))
        c["ror"] = draw(vec(mix(LU(1e-3, 1.5), 0.1), n))
        f = np.array(draw(vec(UO(0.0, 1.0), n)))
        if c["ror_form"] == "number":
            c["ror"] = [c["ror"][0]] * n
        c["val"] = ((1 + np.array(c["ror"])) * f).tolist()
        # one value for every planet is documented to broadcast here
        c["one"] = draw(st.integers(0, 3)) == 0
        if c["one"]:
            c["val"] = [min(c["val"])] * n
    else:
        b = draw(st.sampled_from(["none", "none", "lower", "upper", "both"]))
        lo = draw(U(0.0, 0.4)) if b in ("lower", "both") else None
        hi = draw(U(0.5, 1.0)) if b in ("upper", "both") else None
        c["lower"], c["upper"] = lo, hi
        f = np.array(draw(vec(UO(0.0, 1.0), n)))
        a, z = lo or 0.0, 1.0 if hi is None else hi
        c["val"] = (a + (z - a) * f).tolist()
        c["fixed"] = draw(st.booleans())
        c["opt"] = draw(st.sampled_from([None, True, False]))
        c["model"] = draw(st.booleans())
    return c


@st.composite
def case(draw):
    return dict(items=draw(st.lists(item(), min_size=1, max_size=3)),
                scalar_form=draw(st.sampled_from(["float", "array"])))


def construct(i, c, form, arrays=None):
    """The call a user makes; returns the tensors of the physical parameter.

    arrays: the caller's own arrays, used again where they exist.
    """
    own = lambda k, v: v if arrays is None else arrays.setdefault((i, k), v)  # noqa: E731
    kind, shape = c["kind"], shp(c["shape"])
    kw = kw_shape(c["shape"])
    two = kind in ("unit_disk", "quad_limb_dark")
    if not c["default"]:
        v = np.array(c["val"], float).reshape(((2,) if two else ()) + shape)
        if not shape and form == "float":
            v = v.tolist()
        elif c.get("one"):
            v = float(np.ravel(v)[0])
        kw[c["key"]] = own("val", v)
    nm = f"p{i}"
    if kind == "angle":
        if c["reg"] != "default":
            kw["regularization"] = c["reg"]
        return [D.angle(nm, **kw)]
    if kind == "unit_disk":
        return list(D.unit_disk(nm + "x", nm + "y", **kw))
    if kind == "quad_limb_dark":
        return [(D.QuadLimbDark if c.get("old") else D.quad_limb_dark)(nm, **kw)]
    if kind == "impact_parameter":
        r = np.array(c["ror"]).reshape(shape)
        if c["ror_form"] == "number":
            r = float(c["ror"][0])
        elif c["ror_form"] == "array":
            r = own("ror", r)
        elif c["ror_form"] == "rv":
            r = pm.Uniform(nm + "_ror", lower=0.0, upper=2.0, initval=r, shape=shape)
        return [(D.ImpactParameter if c.get("old") else D.impact_parameter)(nm, r, **kw)]
    f = getattr(D.eccentricity, kind)
    kw.update(fixed=c["fixed"], lower=c["lower"], upper=c["upper"])
    if kind == "kipping13":
        kw["long"] = c["opt"]
    else:
        kw["multi"] = bool(c["opt"])
    return [f(nm, **kw)]


def run(c):
    where = []

    def build():
        outs = []
        for i, it in enumerate(c["items"]):
            o = construct(i, it, c["scalar_form"])
            where.append((len(outs), len(o)))
            outs += o
        return outs

    kinds = "+".join(it["kind"] for it in c["items"])
    mod = Model(build, kinds)
    outs, lp = mod.at_initial()
    require(np.isfinite(lp), f"{kinds}: log-probability {lp} at the initial point")
    for it, (a, k) in zip(c["items"], where):
        shape = shp(it["shape"])
        two = it["kind"] in ("unit_disk", "quad_limb_dark")
        got = np.stack(outs[a:a + k]) if k == 2 else outs[a]
        full = ((2,) if two else ()) + shape
        require(got.shape == full, f"{it['kind']}: initial shape {got.shape}, expected {full}")
        require(np.isfinite(got), f"{it['kind']}: initial value {got}")
        if it["default"]:
            continue
        want = np.array(it["val"], float).reshape(full)
        if it["kind"] == "angle":
            # the two ends of the range are the same angle
            d = np.abs(np.angle(np.exp(1j * (got - want))))
            agree(d, np.zeros(full), atol=1e-12, what="angle: initial value (circular distance)")
            inner = np.abs(want) < PI - 1e-9
            agree(got[inner], want[inner], atol=1e-12, what="angle: initial value")
        else:
            agree(got, want, rtol=1e-9, atol=1e-11, what=f"{it['kind']}: initial value")
    return info(any(not it["default"] for it in c["items"]),
                *{it["kind"] + (":default" if it["default"] else ":" + it["key"])
                  for it in c["items"]},
                *{f"shape={it['shape']}" for it in c["items"]})


def run_one(c):
    return run(dict(items=[c["item"]], scalar_form=c["form"]))


def single(kind):
    return st.fixed_dictionaries(dict(item=item([kind]), form=st.sampled_from(["float", "array"])))


CHECKS = [Check("models", case(), run, 400)] + [
    Check(k, single(k), run_one, 120) for k in KINDS
]
