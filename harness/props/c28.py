"""C28 citations of the components of a model."""
import logging
import re
import warnings

import numpy as np
import pymc as pm
from hypothesis import strategies as st

from harness.core import Check, Violation, info, require, sut
from harness.env import xo

from exoplanet import distributions as D
from exoplanet.citations import get_citations_for_model

RULE = (
    "sequences of up to 12 component constructions and queries over three models, each inside a model "
    "context, with the model passed explicitly, with another model's context open, or outside any "
    "model, at widths 30-200; non-trivial when at least one queried model has a citing component"
)
ASSUMPTIONS = [
    "components inside a nested (named) submodel are not claimed",
    "widths shorter than the longest word are outside the domain",
]

BASE = {"exoplanet:joss", "exoplanet:zenodo"}
ALWAYS = {"exoplanet:arviz"}
STARRY = {"exoplanet:luger18", "exoplanet:agol20"}
ASTROPY = {"exoplanet:astropy13", "exoplanet:astropy18"}
#: component -> (keys it adds, can take model=)
KEYS = dict(
    orbit=(ASTROPY, True), ttv=(ASTROPY, True), simple=(set(), False),
    lc=(STARRY, True), lc_vector=(STARRY, True), secondary=(STARRY, True),
    interpolated=(STARRY, True),
    quad=({"exoplanet:kipping13"}, True),
    quad_old=({"exoplanet:kipping13"}, True), kipping13=({"exoplanet:kipping13b"}, True),
    vaneylen19=({"exoplanet:vaneylen19"}, True),
    angle=(set(), False), unit_disk=(set(), False), impact=(set(), False), uniform=(set(), False),
)
NEEDS_MODEL = {"quad", "quad_old", "kipping13", "vaneylen19", "angle", "unit_disk", "impact", "uniform"}


@st.composite
def op(draw):
    if draw(st.integers(0, 3)) == 0:
        return dict(op="query", model=draw(st.integers(0, 2)), how=draw(st.sampled_from(["ctx", "arg", "arg_ctx"])),
                    other=draw(st.integers(0, 2)),
                    width=draw(st.one_of(st.none(), st.integers(30, 200))))
    k = draw(st.sampled_from(sorted(KEYS)))
    how = ["ctx"]
    if KEYS[k][1]:
        how += ["arg", "arg_ctx"]
    if k not in NEEDS_MODEL:
        how.append("outside")
    return dict(op=k, model=draw(st.integers(0, 2)), how=draw(st.sampled_from(how)),
                other=draw(st.integers(0, 2)))


case = st.fixed_dictionaries(dict(ops=st.lists(op(), min_size=1, max_size=12)))


def build(kind, name, kw):
    if kind == "orbit":
        return xo.orbits.KeplerianOrbit(period=3.0, b=0.1, **kw)
    if kind == "ttv":
        return xo.orbits.TTVOrbit(period=[3.0], t0=[0.0], ttvs=[np.array([0.0, 0.1, 0.0])], **kw)
    if kind == "simple":
        return xo.orbits.SimpleTransitOrbit(period=3.0, t0=0.0, b=0.1, duration=0.1)
    if kind == "lc":
        return xo.LimbDarkLightCurve(0.3, 0.2, **kw)
    if kind == "lc_vector":
        return xo.LimbDarkLightCurve([0.3, 0.2], **kw)
    if kind == "secondary":
        return xo.SecondaryEclipseLightCurve([0.3, 0.2], [0.1, 0.1], 0.5, **kw)
    if kind == "interpolated":
        return xo.InterpolatedLightCurve(xo.LimbDarkLightCurve(0.3, 0.2, **kw), 100, 1)
    if kind == "quad":
        return D.quad_limb_dark(name, **kw)
    if kind == "quad_old":
        return D.QuadLimbDark(name, **kw)
    if kind == "kipping13":
        return D.eccentricity.kipping13(name, **kw)
    if kind == "vaneylen19":
        return D.eccentricity.vaneylen19(name, **kw)
    if kind == "angle":
        return D.angle(name)
    if kind == "unit_disk":
        return D.unit_disk(name + "x", name + "y")
    if kind == "impact":
        return D.impact_parameter(name, 0.1)
    return pm.Uniform(name)


def query(models, o):
    m = models[o["model"]]
    kw = {} if o["width"] is None else dict(width=o["width"])
    with sut("get_citations_for_model"):
        if o["how"] == "ctx":
            with m:
                return get_citations_for_model(**kw)
        if o["how"] == "arg":
            return get_citations_for_model(m, **kw) if o["other"] else get_citations_for_model(
                model=m, **kw)
        with models[o["other"]]:
            return get_citations_for_model(model=m, **kw)


def judge(txt, bib, want, width):
    flat = " ".join(txt.split())
    groups = re.findall(r"\\citep\{([^{}]*)\}", flat)
    require(len(groups) == 2, f"text has {len(groups)} \\citep groups: {flat}")
    require("\\textsf{exoplanet}" in flat, "exoplanet is not acknowledged")
    k0 = [k.strip() for k in groups[0].split(",")]
    k1 = [k.strip() for k in groups[1].split(",")]
    if sorted(k0) != sorted(BASE):
        raise Violation(f"exoplanet's own citations are {k0}")
    if sorted(k1) != sorted(want):
        raise Violation(f"text cites {sorted(k1)}, the model's components need {sorted(want)}")
    keys = re.findall(r"@\w+\{([^,\s]+),", bib)
    if sorted(keys) != sorted(want | BASE):
        raise Violation(f"bibliography has {sorted(keys)}, expected {sorted(want | BASE)}")
    # every entry is complete: braces balance
    require(bib.count("{") == bib.count("}"), "bibliography braces do not balance")
    for line in txt.split("\n"):
        require(len(line) <= width, f"line of {len(line)} characters, width {width}: {line}")


def run(c):
    logging.disable(logging.WARNING)
    models = [pm.Model() for _ in range(3)]
    used = [set(), set(), set()]
    touched = [False] * 3
    nontrivial = False
    seen = []
    final = [dict(op="query", model=i, how="arg", other=0, width=None) for i in range(3)]
    for i, o in enumerate(c["ops"] + final):
        if o["op"] == "query":
            txt, bib = query(models, o)
            m = o["model"]
            seen.append("query")
            if not touched[m]:
                if txt or bib:
                    raise Violation(f"a model without citing components cites: {txt!r}")
                continue
            nontrivial = True
            judge(txt, bib, used[m] | ALWAYS, o["width"] or 79)
            require((txt, bib) == query(models, o), "two identical queries differ")
            continue
        keys, _ = KEYS[o["op"]]
        m = o["model"]
        name = f"v{i}"
        seen.append(o["how"])
        with sut(f"constructing {o['op']}"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if o["how"] == "ctx":
                with models[m]:
                    build(o["op"], name, {})
            elif o["how"] == "arg":
                build(o["op"], name, dict(model=models[m]))
            elif o["how"] == "arg_ctx":
                with models[o["other"]]:
                    build(o["op"], name, dict(model=models[m]))
            else:
                build(o["op"], name, {})
        if o["how"] != "outside" and keys:
            used[m] |= keys
            touched[m] = True
    return info(nontrivial, *set(seen), *{o["op"] for o in c["ops"]})


CHECKS = [Check("citations", case, run, 1200)]
