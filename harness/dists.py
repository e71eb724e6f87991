"""Build PyMC models holding the distributions under test and evaluate them point by point."""
import warnings

import numpy as np
import pymc as pm

from harness.core import compile_fn, sut


def flat_point(point, names):
    return np.concatenate([np.ravel(np.asarray(point[n], float)) for n in names])


class Model:
    """build(): called in a model context, returns the list of tensors to observe."""

    def __init__(self, build, what="building the model", jacobian=True, ctx=True):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.m = pm.Model()
            with sut(what):
                if ctx:
                    with self.m:
                        outs = build()
                else:
                    outs = build(self.m)
            with sut(what + ": log-probability graph"):
                outs = self.m.replace_rvs_by_values([pm.math.stack(x, axis=0) if isinstance(
                    x, (list, tuple)) else x for x in outs])
                self.fn = compile_fn(self.m.value_vars, outs + [self.m.logp(jacobian=jacobian)])
            self.nout = len(outs)
            self.names = [v.name for v in self.m.value_vars]
        self.what = what

    def initial(self):
        with sut(self.what + ": initial point"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p = self.m.initial_point()
        self.shapes = [np.shape(p[n]) for n in self.names]
        return p

    def __call__(self, vals):
        with sut(self.what + ": evaluating"), np.errstate(all="ignore"):
            r = self.fn(*vals)
        return [np.array(x) for x in r[: self.nout]], float(r[-1])

    def at_initial(self):
        p = self.initial()
        return self([p[n] for n in self.names])
