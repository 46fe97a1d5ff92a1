"""The parameter samplers leave their target invariant."""
import copy
import functools
import itertools
import math
import warnings

import numpy as np
import scipy.special as sp
import scipy.stats as ss

import comp
import mc
import ref
from crng import CRng, distribution, explore

PID = 'C30'
RULE = ('samplers: from every start on a grid of equally likely starts, every '
    'outcome of every random choice of one move on a grid; the transition '
    'matrix so obtained keeps the law of the target; every history '
    'of choices up to a depth for the schedule of burn, lag and count; every '
    'acceptance pattern of a tuning window of a family; uncollapsed '
    'components: every data set over an alphabet, start and proposal of a '
    'grid at the first, middle and last moves, and pairs of proposals, '
    'accepted exactly as the joint score says')
ASSUMPTIONS = ['continuous choices on a grid of quantiles; laws compared at a '
    'stated tolerance', 'the adaptation of the step is judged by its '
    'direction, not its effect on the law',
    'the domain excludes an explicitly infinite density on its bounds']
INF = float('inf')


class Retry(Exception):
    pass


class GridRng(CRng):
    """Grids by kind of draw.  A normal drawn again with the same parameters
    is the retry of a rejected proposal: the path is dropped, which leaves the
    law of the result, given that a path ends, as it is."""

    def __init__(self, normal, uniforms, rest=3):
        CRng.__init__(self, 1)
        self.n, self.uniforms, self.rest = normal, uniforms, rest
        self.last, self.k = None, 0

    def arm(self, prefix):
        CRng.arm(self, prefix)
        self.last, self.k = None, 0

    def normal(self, loc=0., scale=1., size=None):
        if self.armed and size is None:
            w = (float(loc), float(scale))
            if w == self.last:
                raise Retry()
            self.last, self.grid = w, self.n
        return CRng.normal(self, loc, scale, size)

    def _next(self):
        self.last = None
        if self.k < len(self.uniforms):
            self.grid = self.uniforms[self.k]
        elif self.rest is None:
            if self.armed:
                raise Retry()
        else:
            self.grid = self.rest
        self.k += 1

    def random_sample(self, size=None):
        self._next()
        return CRng.random_sample(self, size)

    random = ranf = sample = random_sample

    def uniform(self, low=0., high=1., size=None):
        self._next()
        return CRng.uniform(self, low, high, size)


# ------------------------------------------------------------------- targets
class Target(object):
    def __init__(self, ppf, cdf, logpdf, D):
        self.ppf, self.cdf, self.D = ppf, cdf, D
        low, high = D

        def inside(x):
            if not low <= x <= high:
                raise ValueError('target evaluated outside its domain')
            return logpdf(x)
        self.logpdf = inside


def uniform(l, h):
    return Target(lambda q: l + (h - l) * q, lambda x: (x - l) / (h - l),
        lambda x: 0., (l, h))


def beta(a, b):
    return Target(lambda q: sp.betaincinv(a, b, q),
        lambda x: sp.betainc(a, b, x), lambda x: -INF if x in (0, 1) else
        (a - 1) * math.log(x) + (b - 1) * math.log(1 - x), (0, 1))


def expon(l, s):
    return Target(lambda q: l - s * math.log(1 - q),
        lambda x: 1 - math.exp(-(x - l) / s), lambda x: -(x - l) / s,
        (l, INF))


def minus_expon(h, s):
    return Target(lambda q: h + s * math.log(q),
        lambda x: math.exp((x - h) / s), lambda x: (x - h) / s, (-INF, h))


def gamma(a):
    return Target(lambda q: sp.gammaincinv(a, q), lambda x: sp.gammainc(a, x),
        lambda x: (a - 1) * math.log(x) - x if x > 0 else -INF, (0., INF))


def tnormal(m, s, l, h):
    a, b = sp.ndtr((l - m) / s), sp.ndtr((h - m) / s)
    return Target(lambda q: m + s * sp.ndtri(a + (b - a) * q),
        lambda x: (sp.ndtr((x - m) / s) - a) / (b - a),
        lambda x: -.5 * ((x - m) / s) ** 2, (l, h))


def mixture(m, s, w):
    """Two equal normals at -m and m, weights w and 1-w; ppf by bisection."""
    def cdf(x):
        return w * sp.ndtr((x + m) / s) + (1 - w) * sp.ndtr((x - m) / s)

    def ppf(q):
        a, b = -m - 10 * s, m + 10 * s
        for _ in range(70):
            c = (a + b) / 2
            a, b = (c, b) if cdf(c) < q else (a, c)
        return a

    def logpdf(x):
        a = math.log(w) - .5 * ((x + m) / s) ** 2
        b = math.log(1 - w) - .5 * ((x - m) / s) ** 2
        return max(a, b) + math.log1p(math.exp(-abs(a - b)))
    return Target(ppf, cdf, logpdf, (-INF, INF))


TARGETS = {
    'normal': lambda: tnormal(0., 1., -INF, INF),
    'mixture': lambda: mixture(1.5, .6, .3),
    'uniform01': lambda: uniform(0, 1),
    'beta': lambda: beta(1.5, 3.),
    'beta right': lambda: beta(3., 1.),
    'expon': lambda: expon(0, 1.),
    'expon shifted': lambda: expon(1, .8),
    'expon negative': lambda: expon(-1., 1.),
    'expon left': lambda: minus_expon(2., 1.),
    'gamma': lambda: gamma(2.),
    'uniform25': lambda: uniform(2, 5),
    'truncated': lambda: tnormal(0., 1., -.5, 2.),
    'truncated left': lambda: tnormal(1., 1.5, -3., 1.5),
    'truncated half': lambda: tnormal(0., 1., -.3, INF),
    'unit scaled': lambda: tnormal(0., 1., 0, 1),
}


def cases(tier):
    quick = tier == 'quick'
    for name in TARGETS:
        for w in ((.5, 2.) if quick else (.25, 1., 4.)):
            yield {'id': 'mh:%s:%s' % (name, w), 'mh': name, 'width': w,
                'grid': [30, 60, 20] if quick else [50, 100, 30]}
        for w in ((.5, 2.) if quick else (.25, .7, 2.)):
            yield {'id': 'slice:%s:%s' % (name, w), 'slice': name, 'width': w,
                'quick': quick}
    yield {'id': 'reject', 'reject': True, 'quick': quick}
    for which in ('mh', 'slice'):
        for lag in (1, 2, 3):
            yield {'id': 'schedule:%s:%s' % (which, lag), 'schedule': which,
                'lag': lag, 'depth': 5 if quick else 6}
    yield {'id': 'tuning', 'tuning': True, 'quick': quick}
    for name in ('beta', 'normal_trunc'):
        values = {'beta': [.2, .5, .9], 'normal_trunc': [-1., .5, 3.]}[name]
        for n in range(3 if quick else 4):
            for data in itertools.combinations_with_replacement(values, n):
                yield {'id': 'component:%s:%s' % (name, list(data)),
                    'component': name, 'data': list(data), 'quick': quick}
        yield {'id': 'dim:' + name, 'dim': name, 'quick': quick}


# ------------------------------------------------------------------- kernels
def stationary(rec, key, target, rng, move, G, tol):
    """The chain whose moves are `move` keeps the law of the target."""
    P = np.zeros((G, G))
    low, high = target.D
    for i in range(G):
        x = float(target.ppf((i + .5) / G))
        rec.state((key, i))
        total, n = 0., 0
        for p, r, _c in explore(rng, lambda: move(x), 10 ** 7,
                catch=Exception):
            n += 1
            if isinstance(r, Retry):
                continue
            if isinstance(r, Exception):
                rec.fail(key + ': crash', 'from %s: %s: %s' % (x,
                    type(r).__name__, r))
                return
            r = float(r)
            if not low <= r <= high:
                rec.fail(key + ': domain', 'from %s to %s' % (x, r))
                return
            total += p
            P[i, min(G - 1, int(target.cdf(r) * G))] += p
        rec.trans(n)
        rec.eval(n)
        rec.trace(n)
        P[i] /= total
    u = np.ones(G) / G
    one = float(np.abs(np.cumsum(u @ P - u)).max())
    P = np.linalg.matrix_power(P, 8)
    v = u @ P
    limit = float(np.abs(np.cumsum(v - u)).max())
    rec.outcome((key, round(limit, 3)))
    rec.sample({'chain': key, 'one move': round(one, 5), 'eight':
        round(limit, 5)})
    if not limit < 2 * tol or not one < tol:
        rec.fail(key + ': law', 'one move shifts the target by %.4f, eight '
            'by %.4f' % (one, limit))


def run_mh(case, rec):
    from cgpm.utils import sampling as su
    target = TARGETS[case['mh']]()
    G, n, m = case['grid']
    rng = GridRng(n, [m])
    std = case['width'] * float(target.ppf(.75) - target.ppf(.25)) / 1.35
    stationary(rec, case['id'], target, rng, lambda x: su.mh_sample(
        x, target.logpdf, std, target.D, num_samples=1, burn=0, lag=1,
        rng=rng), G, .01)


def run_slice(case, rec):
    from cgpm.utils import sampling as su
    target = TARGETS[case['slice']]()
    rng = GridRng(3, [10, 4, 32, 5, 3] if case['quick'] else
        [14, 4, 48, 9, 4, 2], rest=1)
    w = case['width'] * float(target.ppf(.75) - target.ppf(.25)) / 1.35
    stationary(rec, case['id'], target, rng, lambda x: su.slice_sample(
        lambda: x, target.logpdf, target.D, num_samples=1, burn=0, lag=1,
        w=w, rng=rng), 16 if case['quick'] else 24, .02)


def run_reject(case, rec):
    """All paths of rejection sampling on finite tables."""
    from cgpm.utils import sampling as su
    for prop, env, tgt in (
            ([.25, .25, .5], 2., [.2, .5, .3]),
            ([.5, .5], 1.5, [.75, .25]),
            ([.3, .3, .4], 4., [1., .2, .4]),
            ([.5, .5], 2., [0., 1.])):
        key = 'reject %s %s %s' % (prop, env, tgt)
        q = [env * p for p in prop]
        rec.state(key)

        class Stop(Exception):
            pass
        for N, limit, grid in ((1, 2, 20), (2, 3, 8)):
            rng = CRng(1, grid=grid)
            count = [0]

            def draw():
                count[0] += 1
                if count[0] > limit:
                    raise Stop()
                return rng.choice(len(prop), p=prop)

            def go():
                count[0] = 0
                return su.rejection_sample(lambda x: tgt[x], lambda x: q[x],
                    draw, N=N, rng=rng)
            law, n = {}, 0
            for p, r, _c in explore(rng, go, 10 ** 7, catch=Exception):
                n += 1
                if isinstance(r, Stop):
                    continue
                if isinstance(r, Exception):
                    rec.fail(key + ': crash', repr(r))
                    break
                k = (int(r),) if N == 1 else tuple(int(x) for x in r)
                law[k] = law.get(k, 0) + p
            rec.trans(n)
            rec.trace(n)
            total, mass = sum(law.values()), sum(tgt)
            for k in itertools.product(range(len(prop)), repeat=N):
                want = np.prod([tgt[i] / mass for i in k])
                rec.eval()
                if abs(law.get(k, 0) / total - want) > 1e-9 and \
                        all(abs(t * grid / s - round(t * grid / s)) < 1e-9
                            for t, s in zip(tgt, q)):
                    rec.fail(key + ': law', 'N=%d: %s has probability %s, '
                        'not %s' % (N, k, law.get(k, 0) / total, want))
                elif abs(law.get(k, 0) / total - want) > .1:
                    rec.fail(key + ': law', 'N=%d: %s has probability %s, '
                        'not %s' % (N, k, law.get(k, 0) / total, want))
    # An envelope below the target is refused.
    rng = CRng(1)
    if mc.raises(lambda: su.rejection_sample(lambda x: 2., lambda x: 1.,
            lambda: 0, rng=rng)) is None:
        rec.fail('reject: envelope', 'a target above the envelope is accepted')


# ----------------------------------------------------------------- schedules
def run_schedule(case, rec):
    """What is returned is every lag-th point of the chain after the burn."""
    from cgpm.utils import sampling as su
    which, lag, depth = case['schedule'], case['lag'], case['depth']
    target = TARGETS['truncated']()

    def chain(**kw):
        if which == 'mh':
            return su.mh_sample(.3, target.logpdf, .7, target.D, rng=rng, **kw)
        return su.slice_sample(lambda: .3, target.logpdf, target.D, w=1.,
            rng=rng, **kw)
    rng = GridRng(3, [], rest=2)
    for N, burn in itertools.product((1, 2, 3), (0, 1, 2, 3)):
        # The moves after which samples are taken: beyond the burn, in steps
        # of lag.
        bound = burn + lag * (N + 1)
        if (burn + lag * N) > depth:
            continue
        key = 'schedule %s N=%d burn=%d lag=%d' % (which, N, burn, lag)
        rec.state(key)
        n = 0
        for _p, r, choices in explore(rng, lambda: chain(num_samples=N,
                burn=burn, lag=lag), 10 ** 7):
            n += 1
            if (N == 1) == isinstance(r, (list, np.ndarray)):
                rec.fail(key + ': shape', repr(r))
                return
            got = [float(r)] if N == 1 else [float(x) for x in r]
            if len(got) != N:
                rec.fail(key + ': count', '%d samples' % len(got))
                return
            # The same choices, every point of the chain.
            rng.arm([(j, None) for j in choices])
            rng.branch = functools.partial(scripted, rng, list(choices))
            try:
                full = chain(num_samples=bound, burn=0, lag=1)
            finally:
                del rng.branch
                rng.disarm()
            first = [i for i in range(burn + 1, burn + lag + 1)]
            ok = any(got == [float(full[i - 1 + lag * j]) for j in range(N)]
                for i in first)
            if not ok:
                rec.fail(key + ': selection', '%s is not every %d-th point '
                    'after the first %d of %s' % (got, lag, burn, full))
                return
            if n > 4000:
                rec.note('histories beyond 4000 left out')
                break
        rec.trans(n)
        rec.trace(n)
        rec.eval(n)


def scripted(rng, choices, probs, what):
    """Replay the given indices, then the first alternative for ever."""
    k = len(rng.points)
    rng.points.append((0, len(probs)))
    return choices[k] if k < len(choices) else 0


# -------------------------------------------------------------------- tuning
class Script(CRng):
    """normal() moves by eps(k) standard deviations, rand() gives u(k)."""

    def __init__(self, eps, u):
        CRng.__init__(self, 1)
        self.eps, self.u = eps, u
        self.nn = self.nu = 0
        self.on = True

    def normal(self, loc=0., scale=1., size=None):
        if not self.on or size is not None:
            return CRng.normal(self, loc, scale, size)
        self.nn += 1
        return float(loc) + float(scale) * self.eps(self.nn - 1)

    def random_sample(self, size=None):
        if not self.on or size is not None:
            return CRng.random_sample(self, size)
        self.nu += 1
        return self.u(self.nu - 1)

    random = ranf = sample = random_sample

    def rand(self, *shape):
        return self.random_sample(shape if shape else None)

    def randn(self, *shape):
        return self.normal(size=shape if shape else None)

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.random_sample(size)


def run_tuning(case, rec):
    """The step widens when proposals are accepted too often, narrows when
    too rarely, and stays otherwise, whatever the order of acceptances."""
    from cgpm.utils import sampling as su

    def steps(accepts, n):
        # A falling target, always one step to the right.
        rng = Script(lambda k: 1., lambda k: .01 if k >= len(accepts) or
            accepts[k] else 1 - 1e-12)
        xs = su.mh_sample(0., lambda x: -x / 1000., 1., (-INF, INF),
            num_samples=n, burn=0, lag=1, rng=rng)
        xs = [0.] + [float(x) for x in xs]
        return [b - a for a, b in zip(xs, xs[1:])]
    W = 20
    for window in ((0,) if case['quick'] else (0, 1, 2)):
        for k in range(W + 1):
            orders = [[i < k for i in range(W)], [i >= W - k for i in
                range(W)], [(i * k) // W != ((i + 1) * k) // W for i in
                range(W)]]
            for o, order in enumerate(orders):
                # Earlier windows keep the step: six of twenty.
                calm = [i % 10 in (2, 5, 9) for i in range(W)] * window
                d = steps(calm + order, W * (window + 1) + 1)
                rec.state((k, o))
                rec.trans()
                rec.eval()
                last = d[-1]
                base = next((x for x in d[:W * (window + 1)] if x), 1.)
                want = 1 if k >= .4 * W else -1 if k <= .2 * W else 0
                got = 1 if last > base + 1e-9 else -1 if last < base - 1e-9 \
                    else 0
                rec.outcome((k, got))
                if want != got:
                    rec.fail('tuning %d of %d' % (k, W), 'accepted %s: step '
                        'from %s to %s' % ([int(x) for x in order], base,
                        last))


# ---------------------------------------------------------------- components
STARTS = {'beta': [{'strength': 2., 'balance': .5},
        {'strength': .4, 'balance': .9}, {'strength': 12., 'balance': .15}],
    'normal_trunc': [{'mu': 1., 'sigma': 1.}, {'mu': 2.9, 'sigma': .4},
        {'mu': -.8, 'sigma': 6.}]}


def prior(name, p):
    if name == 'beta':
        return ss.expon.logpdf(p['strength'], scale=5.) + \
            ss.beta.logpdf(p['balance'], 1., 1.)
    return ss.gamma.logpdf(p['sigma'], 2., scale=2.) + \
        ss.uniform.logpdf(p['mu'], -1., 4.)


def likelihood(name, p, x):
    if name == 'beta':
        return ss.beta.logpdf(x, p['strength'] * p['balance'],
            p['strength'] * (1 - p['balance']))
    return ss.truncnorm.logpdf(x, (-1. - p['mu']) / p['sigma'],
        (3. - p['mu']) / p['sigma'], loc=p['mu'], scale=p['sigma'])


def posterior(name, p, data):
    return float(prior(name, p) + sum(likelihood(name, p, x) for x in data))


def component(name, data, params, rng):
    m = comp.make(name, params=params, rng=rng)
    for i, x in enumerate(data):
        m.incorporate(i, {0: x})
    return m


def run_component(case, rec):
    name, data, quick = case['component'], case['data'], case['quick']
    key = case['id']

    def run(start, jumps, us, rec=rec):
        """Parameters after the update with the given jumps (move -> size)."""
        rng = Script(lambda k: jumps.get(k, 0.), lambda k: us.get(k, .5))
        m = component(name, data, start, rng)
        m.transition_params()
        rec.trans()
        rec.eval()
        return dict(m.get_params()), rng.nn

    for start in STARTS[name][:2 if quick and len(data) > 1 else 3]:
        rec.state((key, tuple(start.values())))
        score = float(component(name, data, start, None).logpdf_score())
        want = posterior(name, start, data)
        if not ref.close(score, want, 1e-6):
            rec.fail(key + ': score', 'score %s, the model says %s at %s' % (
                score, want, start))
        after, n = run(start, {}, {})
        if n < 2:
            rec.fail(key + ': moves', 'only %d moves' % n)
            return
        if not all(ref.close(after[p], start[p], 1e-9) for p in start):
            rec.fail(key + ': still', 'no jump, but %s became %s' % (start,
                after))
            continue
        moved = set()
        places = [0, n // 2 - 1, n // 2, n - 1] if quick else \
            [0, 3, n // 4, n // 2 - 1, n // 2, n - 1]
        eps = [-1.03, -.23, .6, 4.13] if quick else \
            [-5.9, -1.53, -.7, -.23, .3, .83, 1.5, 4.13]
        for k, e in itertools.product(places, eps):
            decide(rec, key, name, data, run, start, start, {}, {}, k, e,
                moved)
        if moved != set(start):
            rec.fail(key + ': all', 'only %s are ever updated' %
                sorted(moved))
        # A jump of one parameter is followed by a jump of the other.
        for e, f in itertools.product([-.5, 1.2], repeat=2):
            if quick and e * f > 0:
                continue
            first, _n = run(start, {n // 2 - 1: e}, {n // 2 - 1: 1e-300})
            decide(rec, key, name, data, run, start, first,
                {n // 2 - 1: e}, {n // 2 - 1: 1e-300}, n - 1, f, set())
    # A fresh component draws its parameters from the prior.
    rng = CRng(1, grid=12)
    for which, cdf in {'beta': [('strength', lambda t: ss.expon.cdf(t,
            scale=5.)), ('balance', lambda t: t)], 'normal_trunc': [('sigma',
            lambda t: ss.gamma.cdf(t, 2., scale=2.)), ('mu', lambda t:
            (t + 1) / 4.)]}[name]:
        d = distribution(rng, lambda: comp.make(name, rng=rng).get_params(),
            lambda p: float(p[which]), rec=rec)
        below = 0.
        for x in sorted(d):
            if not below - 1e-6 <= cdf(x) <= below + d[x] + 1e-6:
                rec.fail(key + ': prior', '%s has %s below %s, not %s' % (
                    which, below, x, cdf(x)))
                break
            below += d[x]
    rec.sample({'component': name, 'data': data, 'moves': n})


def decide(rec, key, name, data, run, start, before, jumps, us, k, e, moved):
    """A jump at move k is accepted up to the ratio of the joint scores."""
    base = posterior(name, before, data)
    new, _n = run(start, {**jumps, k: e}, {**us, k: 1e-300})
    changed = [p for p in new if not ref.close(new[p], before[p], 1e-9)]
    rec.outcome((key, k, e, tuple(round(v, 6) for v in new.values())))
    if len(changed) > 1:
        rec.fail(key + ': one', 'one move changed %s' % changed)
        return
    if not changed:
        # So unlikely a value that even the smallest draw refuses it.
        rec.note('jumps without effect')
        return
    moved.update(changed)
    lp = posterior(name, new, data)
    if not lp > -INF:
        rec.fail(key + ': support', 'moved to %s' % new)
        return
    ratio = math.exp(min(0., lp - base))
    for u, accept in ((ratio * (1 - 1e-3), True), (ratio * (1 + 1e-3),
            False)):
        if u >= 1 or u <= 0:
            continue
        got, _n = run(start, {**jumps, k: e}, {**us, k: u})
        to = new if accept else before
        if not all(ref.close(got[p], to[p], 1e-9) for p in to):
            rec.fail(key + ': accept %s' % changed[0], 'from %s to %s the '
                'joint score changes by %s; draw %s gave %s' % (before, new,
                lp - base, u, got))
            return


def run_dim(case, rec):
    """Every cluster of a column is updated given its own rows."""
    from cgpm.mixtures.dim import Dim
    name = case['dim']
    values = {'beta': [.2, .5, .9], 'normal_trunc': [-.5, 0., 2.5]}[name]
    for rows in (((0, 0, 1), (0, 1, 2), (4, 4, 2)) if case['quick'] else
            ((0, 0, 0), (0, 0, 1), (1, 4, 1), (0, 1, 2), (4, 4, 2), (7, 1,
            3))):
        base = [None]

        def build(jumps, us):
            rng = Script(lambda k: jumps.get(k, 0.), lambda k: us.get(k, .5))
            rng.on = False
            d = Dim(outputs=[5], inputs=[9], cctype=name, hypers={},
                distargs=comp.SPECS[name][2], rng=rng)
            for r, k in enumerate(rows):
                d.incorporate(r, {5: values[r]}, {9: k})
            rng.on = True
            d.transition_params()
            return {k: dict(c.get_params()) for k, c in d.clusters.items()}, \
                rng.nn
        still, n = build({}, {})
        rec.state((name, rows))
        seen = {}
        for k in range(0, n, 47 if case['quick'] else 23):
            after, _n = build({k: .4}, {k: 1e-300})
            rec.trans()
            rec.eval()
            diff = [(c, p) for c in after for p in after[c]
                if not ref.close(after[c][p], still[c][p], 1e-9)]
            if len(diff) > 1:
                rec.fail('dim %s: one' % name, 'one move changed %s' % diff)
                continue
            for c, p in diff:
                seen[c, p] = seen.get((c, p), 0) + 1
                data = [v for v, z in zip(values, rows) if z == c]
                gain = posterior(name, after[c], data) - posterior(name,
                    still[c], data)
                ratio = math.exp(min(0., gain))
                for u, accept in ((ratio * (1 - 1e-3), True),
                        (ratio * (1 + 1e-3), False)):
                    if not 0 < u < 1:
                        continue
                    got, _n = build({k: .4}, {k: u})
                    to = after if accept else still
                    if not all(ref.close(got[x][y], to[x][y], 1e-9)
                            for x in to for y in to[x]):
                        rec.fail('dim %s: accept' % name, 'rows %s move %d '
                            'of cluster %s: score changes by %s; draw %s '
                            'gave %s' % (rows, k, c, gain, u, got))
        for c in set(rows):
            for p in still[c]:
                if (c, p) not in seen:
                    rec.fail('dim %s: all' % name, 'rows %s: %s of cluster '
                        '%s is not updated' % (rows, p, c))
    rec.sample({'dim': name})


def run_case(case, rec):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    for kind, f in (('mh', run_mh), ('slice', run_slice), ('reject',
            run_reject), ('schedule', run_schedule), ('tuning', run_tuning),
            ('component', run_component), ('dim', run_dim)):
        if kind in case:
            return f(case, rec)
