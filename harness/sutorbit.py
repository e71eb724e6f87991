"""Call the code under test from plain JSON specifications."""
import warnings

import numpy as np

from harness.core import arr, sut, value
from harness.env import xo

KO = xo.orbits.KeplerianOrbit


def make(p, cls=None, **extra):
    with sut("constructing the orbit"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return (cls or KO)(**{k: arr(v) for k, v in p.items()}, **extra)


def get(outs, what="evaluating", mode="raw"):
    with sut(what):
        return value(outs() if callable(outs) else outs, mode)


def out_shape(t, orb):
    """squeeze(t.shape + planet shape): the documented layout with length-1 axes removed."""
    s = np.shape(t) + (orb.nplanets if orb.nplanets else ())
    return tuple(k for k in s if k != 1)


def squeeze(x):
    return np.squeeze(np.asarray(x))


def make_ttv(c, **extra):
    """A TTVOrbit from a gen.ttv_system case."""
    kw = {k: arr(v) for k, v in c["p"].items()}
    for k in ("ttvs", "transit_times"):
        if c.get(k) is not None:
            kw[k] = [np.array(v, float) for v in c[k]]
    if c.get("transit_inds") is not None:
        kw["transit_inds"] = [np.array(v, dtype=int) for v in c["transit_inds"]]
    if c.get("delta_log_period") is not None:
        kw["delta_log_period"] = arr(c["delta_log_period"])
    with sut("constructing the TTV orbit"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return xo.orbits.TTVOrbit(**kw, **extra)
