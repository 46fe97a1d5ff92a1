"""A random number generator whose every draw is a branch of an explorer.

CRng implements the numpy.random.RandomState methods.  While disarmed it
delegates to a seeded RandomState; while armed each draw is a choice point
with an explicit list of alternatives and probabilities, and explore() runs a
function once per complete sequence of alternatives (stateless depth first
search with prefix replay), returning the exact distribution of its result.
Draws from continuous distributions branch over `grid` equiprobable quantile
midpoints (a stated discretisation), infinite discrete ones over the support
up to a tail mass, all others over their exact support.
"""

import itertools
import math

import numpy as np
import functools

import scipy.special as sp
import scipy.stats as ss


@functools.lru_cache(maxsize=100000)
def _vm_ppf(q, k):
    return float(ss.vonmises.ppf(q, k))


class TooManyPaths(Exception):
    pass


class Divergence(Exception):
    """Replaying a prefix of choices met a different choice point."""


class CRng(object):

    def __init__(self, seed=1, grid=5, tail=1e-6, max_support=40):
        self.base = np.random.RandomState(seed)
        self.seed0 = seed
        self.grid = grid
        self.tail = tail
        self.max_support = max_support
        self.armed = False
        self.prefix = []
        self.points = []        # (number of alternatives, index taken, prob)
        self.prob = 1.
        self.calls = []
        self.bigcount = 0

    # Copies of an object share its (controlled) source of randomness.
    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # ---------------------------------------------------------- control
    def arm(self, prefix):
        self.armed = True
        self.prefix = list(prefix)
        self.points = []
        self.prob = 1.
        self.calls = []
        self.bigcount = 0

    def disarm(self):
        self.armed = False

    def branch(self, probs, what):
        """Choose an index; probs are the probabilities of the indices."""
        live = [i for i, p in enumerate(probs) if p > 0]
        if not live:
            raise ValueError('no alternative has positive probability: %s'
                % (what,))
        if len(live) == 1:
            return live[0]
        k = len(self.points)
        if k < len(self.prefix):
            j, n = self.prefix[k]
            if n != len(live):
                raise Divergence('choice point %d (%s): %d alternatives, '
                    'was %d' % (k, what, len(live), n))
        else:
            j = 0
        self.points.append((j, len(live)))
        self.prob *= float(probs[live[j]])
        self.calls.append(what)
        return live[j]

    def uniform_branch(self, n, what):
        return self.branch([1. / n] * n, what)

    # ---------------------------------------------------------- helpers
    def _sized(self, size, one):
        if size is None:
            return one()
        shape = (size,) if isinstance(size, (int, np.integer)) \
            else tuple(size)
        n = int(np.prod(shape)) if shape else 1
        vals = [one() for _ in range(n)]
        return np.array(vals).reshape(shape)

    def _quantile(self, ppf, size, what, *params):
        params = [np.asarray(p) for p in params]
        if any(p.ndim for p in params):
            bs = np.broadcast_arrays(*params)
            shape = bs[0].shape
            flat = [b.ravel() for b in bs]
            out = [self._q1(ppf, what, *[f[i] for f in flat])
                for i in range(len(flat[0]))]
            return np.array(out).reshape(shape)
        params = [p.item() for p in params]
        return self._sized(size, lambda: self._q1(ppf, what, *params))

    def _q1(self, ppf, what, *params):
        j = self.uniform_branch(self.grid, what)
        return float(ppf((j + .5) / self.grid, *params))

    def _discrete(self, pmf, what, size, start=0):
        def one():
            probs, total, x = [], 0., start
            while total < 1 - self.tail and len(probs) < self.max_support:
                p = float(pmf(x))
                probs.append(p)
                total += p
                x += 1
            # The remaining tail mass is put on the last value.
            probs[-1] += max(0., 1 - total)
            return start + self.branch(probs, what)
        return self._sized(size, one)

    # ---------------------------------------------------------- RandomState
    def seed(self, seed=None):
        if not self.armed:
            self.base.seed(seed)

    def get_state(self):
        return self.base.get_state()

    def set_state(self, s):
        self.base.set_state(s)

    def choice(self, a, size=None, replace=True, p=None):
        if not self.armed:
            return self.base.choice(a, size=size, replace=replace, p=p)
        arr = np.arange(a) if isinstance(a, (int, np.integer)) \
            else np.array(a)
        if arr.ndim != 1:
            raise ValueError('a must be 1-dimensional')
        n = len(arr)
        if n == 0:
            raise ValueError("'a' cannot be empty")
        if p is None:
            probs = [1. / n] * n
        else:
            probs = [float(x) for x in p]
            if len(probs) != n:
                raise ValueError("'a' and 'p' must have same size")
            if any(x < 0 for x in probs) or any(x != x for x in probs):
                raise ValueError('probabilities are not non-negative')
            if abs(math.fsum(probs) - 1) > 1e-7:
                raise ValueError('probabilities do not sum to 1')
        if size is None:
            return arr[self.branch(probs, 'choice')]
        shape = (size,) if isinstance(size, (int, np.integer)) \
            else tuple(size)
        m = int(np.prod(shape))
        if replace:
            idx = [self.branch(probs, 'choice') for _ in range(m)]
        else:
            if m > n:
                raise ValueError('Cannot take a larger sample')
            rest, idx = list(range(n)), []
            w = list(probs)
            for _ in range(m):
                t = math.fsum(w[i] for i in rest)
                j = self.branch([w[i] / t for i in rest], 'choice-wr')
                idx.append(rest.pop(j))
        return arr[np.array(idx, dtype=int)].reshape(shape)

    def permutation(self, x):
        if not self.armed:
            return self.base.permutation(x)
        arr = np.arange(x) if isinstance(x, (int, np.integer)) \
            else np.array(x)
        return arr[self._perm(len(arr))]

    def _perm(self, n):
        rest, out = list(range(n)), []
        while rest:
            out.append(rest.pop(self.uniform_branch(len(rest), 'perm')))
        return np.array(out, dtype=int)

    def shuffle(self, x):
        if not self.armed:
            return self.base.shuffle(x)
        order = self._perm(len(x))
        old = [x[i] for i in range(len(x))]
        for i, j in enumerate(order):
            x[i] = old[j]

    def randint(self, low, high=None, size=None, dtype=int):
        if not self.armed:
            return self.base.randint(low, high=high, size=size)
        if high is None:
            low, high = 0, low
        n = int(high) - int(low)
        if n > 64:
            # A seed: one representative, fresh on every draw.
            def one():
                self.bigcount += 1
                return int(low) + self.bigcount % n
            return self._sized(size, one)
        return self._sized(
            size, lambda: int(low) + self.uniform_branch(n, 'randint'))

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return self.randint(low, high + 1, size)

    def rand(self, *shape):
        if not self.armed:
            return self.base.rand(*shape)
        return self.random_sample(shape if shape else None)

    def random_sample(self, size=None):
        if not self.armed:
            return self.base.random_sample(size)
        return self._quantile(lambda q: q, size, 'uniform01')

    random = ranf = sample = random_sample

    def randn(self, *shape):
        if not self.armed:
            return self.base.randn(*shape)
        return self.normal(size=shape if shape else None)

    def uniform(self, low=0., high=1., size=None):
        if not self.armed:
            return self.base.uniform(low, high, size)
        return self._quantile(
            lambda q, l, h: l + (h - l) * q, size, 'uniform', low, high)

    def normal(self, loc=0., scale=1., size=None):
        if not self.armed:
            return self.base.normal(loc, scale, size)
        return self._quantile(
            lambda q, m, s: m + s * sp.ndtri(q), size, 'normal', loc,
            scale)

    def standard_normal(self, size=None):
        return self.normal(0., 1., size)

    def lognormal(self, mean=0., sigma=1., size=None):
        if not self.armed:
            return self.base.lognormal(mean, sigma, size)
        return self._quantile(
            lambda q, m, s: math.exp(m + s * sp.ndtri(q)), size,
            'lognormal', mean, sigma)

    def gamma(self, shape, scale=1., size=None):
        if not self.armed:
            return self.base.gamma(shape, scale, size)
        return self._quantile(
            lambda q, a, s: s * sp.gammaincinv(a, q), size, 'gamma', shape,
            scale)

    def standard_gamma(self, shape, size=None):
        return self.gamma(shape, 1., size)

    def chisquare(self, df, size=None):
        return self.gamma(df / 2., 2., size)

    def standard_t(self, df, size=None):
        if not self.armed:
            return self.base.standard_t(df, size)
        return self._quantile(
            lambda q, d: sp.stdtrit(d, q), size, 'standard_t', df)

    def beta(self, a, b, size=None):
        if not self.armed:
            return self.base.beta(a, b, size)
        return self._quantile(
            lambda q, a, b: sp.betaincinv(a, b, q), size, 'beta', a, b)

    def exponential(self, scale=1., size=None):
        if not self.armed:
            return self.base.exponential(scale, size)
        return self._quantile(
            lambda q, s: -s * math.log1p(-q), size, 'exponential', scale)

    def standard_exponential(self, size=None):
        return self.exponential(1., size)

    def vonmises(self, mu, kappa, size=None):
        if not self.armed:
            return self.base.vonmises(mu, kappa, size)

        def ppf(q, m, k):
            x = m + _vm_ppf(q, k)
            return (x + math.pi) % (2 * math.pi) - math.pi
        return self._quantile(ppf, size, 'vonmises', mu, kappa)

    def geometric(self, p, size=None):
        if not self.armed:
            return self.base.geometric(p, size)
        return self._discrete(
            lambda x: p * (1 - p) ** (x - 1), 'geometric', size, start=1)

    def poisson(self, lam=1., size=None):
        if not self.armed:
            return self.base.poisson(lam, size)
        return self._discrete(
            lambda x: ss.poisson.pmf(x, lam), 'poisson', size)

    def negative_binomial(self, n, p, size=None):
        if not self.armed:
            return self.base.negative_binomial(n, p, size)
        return self._discrete(
            lambda x: ss.nbinom.pmf(x, n, p), 'negative_binomial', size)

    def binomial(self, n, p, size=None):
        if not self.armed:
            return self.base.binomial(n, p, size)
        return self._sized(size, lambda: self.branch(
            [float(ss.binom.pmf(x, n, p)) for x in range(int(n) + 1)],
            'binomial'))

    def multinomial(self, n, pvals, size=None):
        if not self.armed:
            return self.base.multinomial(n, pvals, size)

        def one():
            out = np.zeros(len(pvals), dtype=int)
            for _ in range(int(n)):
                out[self.branch([float(x) for x in pvals],
                    'multinomial')] += 1
            return out
        if size is None:
            return one()
        return np.array([one() for _ in range(int(np.prod(size)))])

    def dirichlet(self, alpha, size=None):
        if not self.armed:
            return self.base.dirichlet(alpha, size)

        def one():
            g = np.array([self.gamma(a) for a in alpha])
            return g / g.sum()
        return one() if size is None else \
            np.array([one() for _ in range(int(np.prod(size)))])

    def multivariate_normal(self, mean, cov, size=None, *a, **k):
        if not self.armed:
            return self.base.multivariate_normal(mean, cov, size, *a, **k)
        mean = np.atleast_1d(np.asarray(mean, dtype=float))
        cov = np.atleast_2d(np.asarray(cov, dtype=float))
        w, v = np.linalg.eigh(cov)
        root = v * np.sqrt(np.clip(w, 0, None))

        def one():
            z = np.array([self.normal() for _ in range(len(mean))])
            return mean + root.dot(z)
        if size is None:
            return one()
        shape = (size,) if isinstance(size, (int, np.integer)) \
            else tuple(size)
        vals = [one() for _ in range(int(np.prod(shape)))]
        return np.array(vals).reshape(shape + (len(mean),))


def explore(rng, fn, max_paths=200000, catch=None):
    """Run fn() under every resolution of the random choices made via rng.

    Yields (probability, result, choices) per path.  With catch, exceptions
    of that type are yielded as results."""
    prefix = []
    paths = 0
    while True:
        rng.arm(prefix)
        np.random.seed(777)     # draws that bypass the given rng are fixed
        try:
            try:
                result = fn()
            except Divergence:
                raise
            except Exception as e:
                if catch is None or not isinstance(e, catch):
                    raise
                result = e
        finally:
            points, prob = rng.points, rng.prob
            rng.disarm()
        yield prob, result, [j for j, _n in points]
        paths += 1
        if len(points) < len(prefix):
            raise Divergence('fewer choice points than the replayed prefix')
        # Next prefix: increment the deepest choice that can be.
        while points and points[-1][0] + 1 >= points[-1][1]:
            points.pop()
        if not points:
            return
        j, n = points[-1]
        prefix = points[:-1] + [(j + 1, n)]
        if paths >= max_paths:
            raise TooManyPaths('%d paths' % paths)


def distribution(rng, fn, key=lambda r: r, max_paths=200000, rec=None,
        catch=None):
    """Exact distribution {key(result): probability} of fn over all paths."""
    dist = {}
    n = 0
    for p, r, _c in explore(rng, fn, max_paths, catch):
        k = key(r)
        dist[k] = dist.get(k, 0.) + p
        n += 1
    if rec is not None:
        rec.eval(n)
        rec.trans(n)
        rec.trace(n)
        for k in dist:
            rec.outcome(k)
    return dist
