import numpy as np
from scipy.stats import distributions as stats_dist
from scipy.stats import gaussian_kde
import mud.funs as F
import mud.util as U
import mud.plot as P
import mud.norm as NM
import mud.preprocessing as PP
from mud.base import DensityProblem, BayesProblem, LinearGaussianProblem, IterativeLinearProblem, SpatioTemporalProblem, LinearWMEProblem


def thorough(f):
    return f


def D(x):
    return dims(x) if isinstance(x, str) else x


def raises(label, f, *excs):
    try:
        f()
        r = "no exception"
    except excs:
        r = "rejected"
    check(label, r, "rejected")


def pdf(name, data):
    return Dist(name).pdf(data)


def product(a):
    return np.prod(a, axis=1)


def log_product(name, data):
    return np.sum(Dist(name).logpdf(data), axis=1)


def kde(data, weights, bw=None):
    return gaussian_kde(data.T, bw_method=bw, weights=weights)


def domain(p, name="dom"):
    """rows [lower, upper] with lower below upper"""
    lo = arr(name + "_lo", p)
    return np.stack([lo, lo + posarr(name + "_width", p)], axis=1)


def uniform_over(dm):
    return stats_dist.uniform(loc=dm[:, 0], scale=dm[:, 1] - dm[:, 0])


class Joint:
    """a distribution whose density takes whole rows"""

    def __init__(self, name):
        self.name = name

    def pdf(self, y, **kw):
        return rowfun(self.name, y, **kw)


def intact(_label, _f, *args, **kw):
    """a call that leaves its arguments and the library's shared defaults as they were"""
    before, shared = frozen((args, kw)), defaults()
    r = _f(*args, **kw)
    check(_label + ": arguments", (args, kw), before)
    check(_label + ": shared defaults", defaults(), shared)
    return r


def has_mass(ps, log=False):
    """the posterior ps (its logarithm, in log form) does not vanish at every sample"""
    if log:
        assume(not np.all(np.isneginf(ps)))
    else:
        assume(np.sum(ps) != 0)


def no_mass(ps, log=False):
    if log:
        assume(np.all(np.isneginf(ps)))
    else:
        assume(np.sum(ps) == 0)
