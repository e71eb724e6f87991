"""C23 eccentricity priors: density, bounds, forms."""
import warnings

import numpy as np
import pymc as pm
from hypothesis import strategies as st
from scipy import stats

from harness.core import Check, LU, U, UO, Violation, agree, compile_fn, info, mix, require, sut, vec
from harness.dists import Model
from harness.env import xo  # noqa: F401
from harness.props.c21 import kw_shape, shp

from exoplanet.compat import tensor as pt
from exoplanet.distributions.eccentricity import kipping13, vaneylen19

RULE = (
    "eccentricities over (0,1), all combinations of fixed / long / multi / bounds / shape, free "
    "variables (at random points of the sampled space, hyperparameters included) and observed values "
    "(numbers, arrays and functions of other variables, inside and outside the bounds); non-trivial "
    "when the eccentricity varies inside the support"
)
ASSUMPTIONS = [
    "the mixture is judged up to a constant (it is not renormalised)",
    "published hyperparameter means and widths as documented in the module "
    "(Kipping 2013b table 1, Van Eylen et al. 2019)",
]
SHAPES = [None, None, 1, 3, [2, 2]]

KIP = {None: (1.12, 0.1, 3.09, 0.3), True: (1.12, 0.1, 3.09, 0.3), False: (0.697, 0.4, 3.27, 0.3)}
VE = dict(sigma_gauss=(0.049, 0.02), sigma_rayleigh=(0.26, 0.05))
VE_F = {True: (0.08, 0.08), False: (0.76, 0.2)}


@st.composite
def options(draw, kind):
    b = draw(st.sampled_from(["none", "none", "lower", "upper", "both"]))
    c = dict(kind=kind, bounds=b)
    c["lower"] = draw(mix(U(0.0, 0.5), 0.0)) if b in ("lower", "both") else None
    c["upper"] = draw(mix(U(0.55, 1.0), 1.0)) if b in ("upper", "both") else None
    if b == "both" and draw(st.booleans()):
        # a narrow range
        c["upper"] = c["lower"] + draw(LU(1e-3, 0.45))
    c["fixed"] = draw(st.booleans())
    c["opt"] = draw(st.sampled_from([None, True, False] if kind == "kipping13" else [True, False, None]))
    c["ctx"] = draw(st.booleans())
    c["omit"] = draw(st.booleans())
    return c


def kwargs(c):
    kw = dict(lower=c["lower"], upper=c["upper"], fixed=c["fixed"])
    # omit arguments at their default now and then
    kw = {k: v for k, v in kw.items() if v is not None}
    if c["fixed"] and c.get("omit"):
        del kw["fixed"]
    if c["opt"] is not None:
        kw["long" if c["kind"] == "kipping13" else "multi"] = c["opt"]
    return kw


FN = dict(kipping13=kipping13, vaneylen19=vaneylen19)


def log_density(c, e, hyper):
    """Elementwise log density of e given the hyperparameters (vaneylen19: mixture only)."""
    e = np.asarray(e, float)
    lo = 0.0 if c["lower"] is None else c["lower"]
    hi = 1.0 if c["upper"] is None else c["upper"]
    ok = (e >= lo) & (e <= hi)
    with np.errstate(all="ignore"):
        if c["kind"] == "kipping13":
            d = stats.beta(hyper["alpha"], hyper["beta"])
            # same normalisation, computed from the smaller tail
            mass = d.cdf(hi) - d.cdf(lo) if d.cdf(lo) < 0.5 else d.sf(lo) - d.sf(hi)
            lp = d.logpdf(e) - np.log(mass)
        else:
            f = hyper["frac"]
            lp = np.logaddexp(
                np.log1p(-f) + stats.halfnorm(scale=hyper["sigma_gauss"]).logpdf(e),
                np.log(f) + stats.rayleigh(scale=hyper["sigma_rayleigh"]).logpdf(e))
    return np.where(ok, lp, -np.inf)


def fixed_hyper(c):
    if c["kind"] == "kipping13":
        a, _, b, _ = KIP[c["opt"]]
        return dict(alpha=a, beta=b)
    return dict(sigma_gauss=VE["sigma_gauss"][0], sigma_rayleigh=VE["sigma_rayleigh"][0],
                frac=VE_F[bool(c["opt"])][0])


def hyper_prior(c, hyper):
    """Log density of the free hyperparameters."""
    if c["kind"] == "kipping13":
        a, sa, b, sb = KIP[c["opt"]]
        spec = dict(alpha=(a, sa, np.inf), beta=(b, sb, np.inf))
    else:
        spec = {k: v + (np.inf,) for k, v in VE.items()}
        spec["frac"] = VE_F[bool(c["opt"])] + (1.0,)
    out = 0.0
    for k, (mu, sd, up) in spec.items():
        z = stats.norm(mu, sd)
        out += z.logpdf(hyper[k]) - np.log(z.cdf(up) - z.cdf(0.0))
    return out


def hyper_names(c):
    return ["alpha", "beta"] if c["kind"] == "kipping13" else ["sigma_gauss", "sigma_rayleigh", "frac"]


# --------------------------------------------------------------- free variable

@st.composite
def free_case(draw, kind):
    c = draw(options(kind))
    c["shape"] = draw(st.sampled_from(SHAPES))
    n = int(np.prod(shp(c["shape"])))
    m = 0 if c["fixed"] else (2 if kind == "kipping13" else 3)
    c["pts"] = draw(vec(vec(mix(U(-6.0, 6.0), 0.0), n), 4))
    c["hyp"] = draw(vec(vec(U(-1.5, 1.5), m), 4))
    if m == 3:
        # the mixture fraction is followed to both ends of its range
        for h in c["hyp"]:
            h[2] = draw(mix(U(-1.5, 1.5), 9.0, -9.0))
    return c


def find(model, name):
    """The free variable whose (model-prefixed) name ends with name."""
    hits = [v for v in model.free_RVs if v.name == name or v.name.endswith("::" + name)]
    if len(hits) != 1:
        raise Violation(f"expected one free variable {name}, found {[v.name for v in model.free_RVs]}")
    return hits[0]


def run_free(c):
    kw = dict(kwargs(c), **kw_shape(c["shape"]))
    shape = shp(c["shape"])
    f = FN[c["kind"]]
    hn = [] if c["fixed"] else hyper_names(c)

    def build(model=None):
        e = f("e", **(dict(kw, model=model) if model is not None else kw))
        mm = pm.modelcontext(model)
        return [e] + [find(mm, k) for k in hn]

    mod = Model(build, c["kind"], jacobian=False, ctx=c["ctx"])
    require(len(mod.m.free_RVs) == 1 + len(hn),
            f"{c['kind']}: free variables {[v.name for v in mod.m.free_RVs]}")
    init = mod.initial()
    base = None
    lo = 0.0 if c["lower"] is None else c["lower"]
    hi = 1.0 if c["upper"] is None else c["upper"]
    hvars = [mod.m.rvs_to_values[find(mod.m, k)].name for k in hn]
    varied = False
    for v, h in zip(c["pts"], c["hyp"]):
        args = []
        for nm in mod.names:
            if nm in hvars:
                args.append(np.asarray(init[nm] + h[hvars.index(nm)]))
            else:
                args.append(np.asarray(v, float).reshape(shape))
        outs, lp = mod(args)
        e = outs[0]
        require(e.shape == shape, f"{c['kind']}: shape {e.shape}, expected {shape}")
        require((e >= lo) & (e <= hi), f"{c['kind']}: sampled value {e} outside [{lo}, {hi}]")
        hyper = {k: float(o) for k, o in zip(hn, outs[1:])} if hn else fixed_hyper(c)
        for k, x in hyper.items():
            # the transforms cover the whole support and nothing else
            require(x > 0 and (k != "frac" or x < 1), f"{c['kind']}: hyperparameter {k} = {x}")
        want = log_density(c, e, hyper).sum() + (hyper_prior(c, hyper) if hn else 0.0)
        if not np.isfinite(want):
            continue
        if c["kind"] == "vaneylen19":
            if base is None:
                base = lp - want
                continue
            want = want + base
        varied = True
        agree(lp, want, rtol=1e-9, atol=1e-8 * max(1, e.size),
              what=f"{c['kind']}: log-probability at e={e.tolist()}, {hyper}")
    return info(varied, f"bounds={c['bounds']}", f"fixed={c['fixed']}", f"opt={c['opt']}",
                f"shape={c['shape']}")


# ------------------------------------------------------------------- observed

@st.composite
def obs_case(draw, kind):
    c = draw(options(kind))
    c["form"] = draw(st.sampled_from(["number", "array", "array", "tensor", "disk"]))
    n = 1 if c["form"] in ("number", "disk") else draw(st.integers(1, 3))
    el = mix(UO(0.0, 1.0), 0.3, 0.7, 1e-4, 0.999)
    near = [x * f for x in (c["lower"], c["upper"]) if x for f in (0.9, 0.99, 1.001, 1.02) if x * f < 1]
    if near:
        # just inside and just outside the bounds
        el = st.one_of(el, st.sampled_from(near))
    c["e"] = draw(vec(vec(el, n), 3))
    c["h"] = draw(vec(U(-1.5, 1.5), 3))
    return c


def run_obs(c):
    kw = kwargs(c)
    f = FN[c["kind"]]
    hn = [] if c["fixed"] else hyper_names(c)
    base = None
    varied = out = False
    if c["form"] in ("number", "array"):
        # a new model per value
        points = []
        for e in c["e"]:
            val = e[0] if c["form"] == "number" else np.array(e)
            points.append((np.array(val), [val]))
    else:
        points = [(np.array(e if c["form"] == "tensor" else e[0]), None) for e in c["e"]]
    shared = None
    for e, val in points:
        if val is not None or shared is None:
            extra = pt.vector("ecc_in", shape=(len(c["e"][0]),)) if c["form"] == "tensor" else \
                pt.scalar("ecc_in")
            with sut(f"{c['kind']} with observed="), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with pm.Model() as m:
                    obs = val[0] if val is not None else extra if c["form"] == "tensor" else (
                        (extra * 0.6) ** 2 + (extra * 0.8) ** 2) ** 0.5
                    f("e", observed=obs, **kw)
                hv = [m.rvs_to_values[find(m, k)] for k in hn]
                outs = m.replace_rvs_by_values([find(m, k) for k in hn] + [m.logp(jacobian=False)])
                fn = compile_fn([extra] + hv, outs)
                init = m.initial_point() if hn else {}
            require(len(m.free_RVs) == len(hn),
                    f"{c['kind']}(observed): free variables {[v.name for v in m.free_RVs]}")
            shared = fn
        arg = e if val is None else np.zeros(extra.type.shape or ())
        with sut(f"{c['kind']} with observed=: evaluating"), np.errstate(all="ignore"):
            r = shared(arg, *[np.asarray(init[x.name] + c["h"][i]) for i, x in enumerate(hv)])
        lp = float(r[-1])
        hyper = {k: float(o) for k, o in zip(hn, r[:-1])} if hn else fixed_hyper(c)
        want = log_density(c, e, hyper).sum() + (hyper_prior(c, hyper) if hn else 0.0)
        if want == -np.inf:
            out = True
            if lp != -np.inf:
                raise Violation(f"{c['kind']}(observed={e}): log-probability {lp} outside the bounds "
                                f"[{c['lower']}, {c['upper']}]")
            continue
        if c["kind"] == "vaneylen19":
            # the flat factor on [lower, upper] is a constant
            if base is None:
                base = lp - want
                require(np.isfinite(base), f"{c['kind']}(observed={e}): log-probability {lp}")
                continue
            want = want + base
        varied = True
        agree(lp, want, rtol=1e-9, atol=1e-8 * max(1, e.size),
              what=f"{c['kind']}(observed={e.tolist()}): log-probability, {hyper}")
    return info(varied, f"form={c['form']}", f"bounds={c['bounds']}", f"fixed={c['fixed']}",
                *(["outside"] if out else []))


# --------------------------------------------- observed equals the free density

@st.composite
def same_case(draw, kind):
    c = draw(options(kind))
    c["shape"] = draw(st.sampled_from(SHAPES))
    n = int(np.prod(shp(c["shape"])))
    c["fixed"] = True
    c["v"] = draw(vec(U(-4.0, 4.0), n))
    return c


def run_same(c):
    kw = kwargs(c)
    shape = shp(c["shape"])
    f = FN[c["kind"]]
    mod = Model(lambda: [f("e", **kw, **kw_shape(c["shape"]))], c["kind"], jacobian=False)
    mod.initial()
    (e,), lp = mod([np.asarray(c["v"], float).reshape(shape)])

    def build():
        f("e", observed=e, **kw)
        return []

    lp2 = Model(build, c["kind"] + "(observed)", jacobian=False)([])[1]
    agree(lp2, lp, rtol=1e-10, atol=1e-9 * max(1, e.size),
          what=f"{c['kind']}: observed= log-probability against the free variable's at {e.tolist()}")
    return info(True, f"bounds={c['bounds']}", f"opt={c['opt']}")


CHECKS = []
for _k in ("kipping13", "vaneylen19"):
    CHECKS += [
        Check(_k + "_free", free_case(_k), run_free, 200),
        Check(_k + "_observed", obs_case(_k), run_obs, 160),
        Check(_k + "_same", same_case(_k), run_same, 120),
    ]
