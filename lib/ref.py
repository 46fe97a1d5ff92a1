"""Reference model: textbook densities of the component distributions, the
Chinese restaurant process and the CrossCat mixture, written from the
documented generative models and independent of the code under test."""

import functools
import math

import numpy as np
from scipy.special import logsumexp

NAN = float('nan')
NINF = -float('inf')


def lse(xs):
    xs = [float(x) for x in xs]
    m = max(xs) if xs else NINF
    if m == NINF:
        return NINF
    return m + math.log(math.fsum(math.exp(x - m) for x in xs))


def _nig_post(xs, h):
    n = len(xs)
    r, nu = h['r'] + n, h['nu'] + n
    m = (h['r'] * h['m'] + math.fsum(xs)) / r
    xbar = math.fsum(xs) / n if n else 0.
    s = h['s'] + math.fsum((x - xbar) ** 2 for x in xs) \
        + (h['r'] * n / (h['r'] + n)) * (xbar - h['m']) ** 2
    return m, r, s, nu


def _lp_normal(x, xs, h, d):
    # rho ~ Gamma(nu/2, rate s/2), mu|rho ~ N(m, 1/(r rho)), x ~ N(mu, 1/rho)
    m, r, s, nu = _nig_post(xs, h)
    scale2 = s / nu * (r + 1) / r       # Student t, nu degrees of freedom
    return math.lgamma((nu + 1) / 2) - math.lgamma(nu / 2) \
        - .5 * math.log(nu * math.pi * scale2) \
        - (nu + 1) / 2 * math.log1p((x - m) ** 2 / (nu * scale2))


def _lp_lognormal(x, xs, h, d):
    if x <= 0:
        return NINF
    return _lp_normal(math.log(x), [math.log(y) for y in xs], h, d) \
        - math.log(x)


def _lp_bernoulli(x, xs, h, d):
    if x not in (0, 1):
        return NINF
    k = sum(xs) if x == 1 else len(xs) - sum(xs)
    return math.log((k + (h['alpha'] if x == 1 else h['beta']))
        / (len(xs) + h['alpha'] + h['beta']))


def _lp_categorical(x, xs, h, d):
    k = int(d['k'])
    if x != int(x) or not 0 <= x < k:
        return NINF
    c = sum(1 for y in xs if y == x)
    return math.log((c + h['alpha']) / (len(xs) + k * h['alpha']))


def _lp_poisson(x, xs, h, d):
    if x < 0 or x != int(x):
        return NINF
    a, b = h['a'] + sum(xs), h['b'] + len(xs)
    return math.lgamma(a + x) - math.lgamma(a) - math.lgamma(x + 1) \
        + a * math.log(b / (b + 1.)) - x * math.log(b + 1.)


def _lp_exponential(x, xs, h, d):
    if x < 0:
        return NINF
    a, b = h['a'] + len(xs), h['b'] + math.fsum(xs)
    return math.log(a / b) - (a + 1) * math.log1p(x / b)


def _lp_geometric(x, xs, h, d):
    if x < 0 or x != int(x):
        return NINF
    a, b = h['a'] + len(xs), h['b'] + sum(xs)
    # integral of p (1-p)^x under Beta(a, b)
    lp = math.log(a) - math.log(a + b)
    for i in range(int(x)):
        lp += math.log(b + i) - math.log(a + b + 1 + i)
    return lp


@functools.lru_cache(maxsize=20000)
def _vm_joint(xs, a, b, k):
    """log integral of prior(mu) prod vm(x | mu, k) over mu."""
    n = 720
    mu = (np.arange(n) + .5) * 2 * math.pi / n
    lp = a * np.cos(mu - b) - math.log(2 * math.pi * ss_i0(a))
    for x in xs:
        lp = lp + k * np.cos(x - mu) - math.log(2 * math.pi * ss_i0(k))
    return float(logsumexp(lp) + math.log(2 * math.pi / n))


def ss_i0(x):
    from scipy.special import i0
    return float(i0(x))


def _lp_vonmises(x, xs, h, d):
    if not 0 <= x <= 2 * math.pi:
        return NINF
    num = _vm_joint(tuple(sorted(list(xs) + [x])), h['a'], h['b'], h['k'])
    return num - _vm_joint(tuple(sorted(xs)), h['a'], h['b'], h['k'])


PRED = {
    'normal': _lp_normal, 'lognormal': _lp_lognormal,
    'bernoulli': _lp_bernoulli, 'categorical': _lp_categorical,
    'poisson': _lp_poisson, 'exponential': _lp_exponential,
    'geometric': _lp_geometric, 'vonmises': _lp_vonmises,
}


def pred(cctype, x, xs, hypers, distargs=None):
    """log p(x | xs) in one component of the given type."""
    return PRED[cctype](x, list(xs), hypers, distargs or {})


def marginal(cctype, xs, hypers, distargs=None):
    """log p(xs), by the chain rule."""
    return math.fsum(pred(cctype, x, xs[:i], hypers, distargs)
        for i, x in enumerate(xs))


def crp_pred(k, assignments, alpha):
    n = len(assignments)
    c = sum(1 for z in assignments if z == k)
    return math.log((c if c else alpha) / (n + alpha))


def crp_joint(assignments, alpha):
    lp = 0.
    for i, z in enumerate(assignments):
        lp += crp_pred(z, assignments[:i], alpha)
    return lp


class Mixture(object):
    """One CrossCat view: rows partitioned by Z, columns independent given
    the cluster; nan cells are missing."""

    def __init__(self, cols, Z, alpha):
        # cols: {c: (cctype, hypers, distargs, [values by row])}
        self.cols, self.Z, self.alpha = cols, list(Z), alpha

    def clusters(self):
        ks = sorted(set(self.Z))
        return ks, (max(ks) + 1 if ks else 0)

    def cell(self, c, x, k, exclude=None):
        t, h, d, vals = self.cols[c]
        xs = [v for r, (v, z) in enumerate(zip(vals, self.Z))
            if z == k and v == v and r != exclude]
        return pred(t, x, xs, h, d)

    def row_given_cluster(self, row, k):
        return math.fsum(self.cell(c, x, k) for c, x in row.items())

    def cluster_logps(self, given):
        """Normalised log p(z | given) for a fresh row."""
        ks, new = self.clusters()
        lps = {k: crp_pred(k, self.Z, self.alpha)
            + self.row_given_cluster(given, k) for k in ks + [new]}
        tot = lse(lps.values())
        return {k: v - tot for k, v in lps.items()}

    def logpdf(self, targets, given):
        lz = self.cluster_logps(given)
        return lse([lz[k] + self.row_given_cluster(targets, k) for k in lz])

    def likelihood(self):
        lp = 0.
        for c, (t, h, d, vals) in self.cols.items():
            for k in set(self.Z):
                xs = [v for v, z in zip(vals, self.Z) if z == k and v == v]
                lp += marginal(t, xs, h, d)
        return lp

    def score(self):
        return crp_joint(self.Z, self.alpha) + self.likelihood()


def partitions(n):
    """All partitions of range(n) as restricted growth strings."""
    def rec(prefix, m):
        if len(prefix) == n:
            yield list(prefix)
            return
        for z in range(m + 1):
            for p in rec(prefix + [z], max(m, z + 1)):
                yield p
    return rec([], 0)


def canon_partition(labels):
    """Relabel in order of first appearance."""
    seen = {}
    return tuple(seen.setdefault(z, len(seen)) for z in labels)


def close(a, b, tol=1e-7):
    a, b = float(a), float(b)
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * max(1., abs(a), abs(b))
