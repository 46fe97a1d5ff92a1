"""Simulating a component draws from exactly the density it reports."""
import itertools
import math

import comp
import mc
import ref
from crng import CRng, distribution

PID = 'C04'
RULE = ('all data histories up to the stated size per component type and '
    'setting; every resolution of the random choices of simulate is run on '
    'the real component and the resulting distribution compared with its '
    'density (exactly for finite choices, as distribution functions for '
    'continuous ones)')
ASSUMPTIONS = ['continuous draws branch over equiprobable quantile midpoints '
    '(grid sizes in the evidence rule); agreement of distribution functions '
    'to 0.03 there, 1e-6 for finite choices']
GRID = {'normal': 24, 'lognormal': 24, 'exponential': 60, 'geometric': 300,
    'vonmises': 40, 'beta': 200, 'normal_trunc': 400}


def cases(tier):
    size = 2 if tier == 'quick' else 3
    for name in sorted(comp.SPECS):
        for i in range(len(comp.configs(name))):
            values = comp.SPECS[name][4]
            for k in range(size + 1):
                for hist in itertools.combinations_with_replacement(
                        values, k):
                    if name == 'vonmises' and tier == 'quick' and k == 2 \
                            and hist[0] == hist[1]:
                        continue
                    yield {'id': '%s/%d%s' % (name, i, list(hist)),
                        'kind': name, 'config': i, 'hist': list(hist),
                        'fine': tier != 'quick'}


def cdf(name, f, distargs, xs):
    """Distribution function of exp(f) at the points xs (increasing)."""
    import numpy as np
    lo, hi = {'normal': (-math.inf, math.inf),
        'lognormal': (0, math.inf), 'exponential': (0, math.inf),
        'vonmises': (0, 2 * math.pi), 'beta': (0, 1)}.get(
        name, (distargs or {}).get('l') and (distargs['l'], distargs['h']))
    # In a bounded coordinate u, with density rescaled.
    if name == 'normal':
        to, back, jac = (lambda x: math.atan(x / 2)), \
            (lambda u: 2 * math.tan(u)), (lambda u: 2 / math.cos(u) ** 2)
        a, b = -math.pi / 2, math.pi / 2
    elif name == 'lognormal':
        to = lambda x: math.atan(math.log(x) / 2)
        back = lambda u: math.exp(min(600, 2 * math.tan(u)))
        jac = lambda u: back(u) * 2 / math.cos(u) ** 2
        a, b = -math.pi / 2, math.pi / 2
    elif name == 'exponential':
        to, back, jac = (lambda x: x / (1 + x)), (lambda u: u / (1 - u)), \
            (lambda u: 1 / (1 - u) ** 2)
        a, b = 0., 1.
    else:
        to = back = lambda x: x
        jac = lambda u: 1.
        a, b = lo, hi
    n = 600
    us = [a + (b - a) * (i + .5) / n for i in range(n)]
    acc, out = 0., [0.]
    for u in us:
        x = back(u)
        if name == 'lognormal' and not 1e-250 < x < 1e250:
            w = 0.
        else:
            w = math.exp(min(600, f(x))) * jac(u) * (b - a) / n
        acc += w
        out.append(acc)
    edges = [a + (b - a) * i / n for i in range(n + 1)]
    return [float(np.interp(to(x), edges, out)) for x in xs]


def run_case(case, rec):
    name, hist = case['kind'], case['hist']
    h, p = comp.configs(name)[case['config']]
    distargs = comp.SPECS[name][2]
    grid = GRID.get(name, 5)
    if case.get('fine') and name in ('normal', 'lognormal', 'vonmises'):
        grid *= 2
    rng = CRng(1, grid=grid, tail=1e-7, max_support=60)
    m = comp.make(name, h, p, rng=rng)
    for r, v in enumerate(hist):
        m.incorporate(r, {0: v})
    rec.state(case['id'])
    before = m.logpdf_score()
    fresh = 10 ** 6

    def f(x):
        return float(m.logpdf(fresh, {0: x}))
    fails = rec.fail
    # One draw.
    if name == 'normal_trunc':
        # Rejection: condition on acceptance of the first proposal.
        class Reject(Exception):
            pass
        calls = [0]
        real = rng.normal

        def once(*a, **k):
            calls[0] += 1
            if calls[0] > 1:
                raise Reject()
            return real(*a, **k)
        rng.normal = once

        def go():
            calls[0] = 0
            return m.simulate(fresh, [0])
        dist = distribution(rng, go, lambda r: None if isinstance(r, Reject)
            else (sorted(r), float(r[0])) if False else
            (tuple(sorted(r)), float(r[0])), rec=rec, catch=Reject)
        del rng.normal
        acc = 1 - dist.pop(None, 0.)
        dist = {k: v / acc for k, v in dist.items()}
    else:
        dist = distribution(rng, lambda: m.simulate(fresh, [0]),
            lambda r: (tuple(sorted(r)), float(r[0])), rec=rec)
    if any(k[0] != (0,) for k in dist):
        fails('%s keys' % name, 'simulate returned other variables: %s'
            % set(k[0] for k in dist))
    dist = {k[1]: v for k, v in dist.items()}
    if abs(math.fsum(dist.values()) - 1) > 1e-6:
        raise AssertionError('probabilities sum to %r' % sum(dist.values()))
    if name in ('bernoulli', 'categorical', 'crp', 'poisson'):
        xs = set(dist)
        if name == 'categorical':
            xs |= set(range(distargs['k']))
        if name == 'bernoulli':
            xs |= {0., 1.}
        top = max(xs)
        for x in xs:
            if name == 'poisson' and x == top:
                continue        # carries the remaining tail
            want = math.exp(f(x))
            if abs(dist.get(x, 0.) - want) > 1e-6:
                fails('%s law' % case['id'], 'value %r is drawn with '
                    'probability %r, its density is %r'
                    % (x, dist.get(x, 0.), want))
    elif name == 'geometric':
        # The parameter is drawn on a grid: compare distribution functions.
        acc = want = 0.
        for x in range(0, 30):
            acc += dist.get(float(x), 0.)
            want += math.exp(f(x))
            if abs(acc - want) > .012:
                fails('%s law' % case['id'], 'P(X <= %d) is %r under '
                    'simulate, %r under the density' % (x, acc, want))
                break
        if any(x < 0 or x != int(x) for x in dist):
            fails('%s support' % name, 'simulated %s' % sorted(dist)[:3])
    else:
        xs = sorted(dist)
        # Compare at 40 interior points.
        pick = xs[::max(1, len(xs) // 40)]
        model = cdf(name, f, distargs, pick)
        acc, pos, worst = 0., 0, 0.
        for x, want in zip(pick, model):
            while pos < len(xs) and xs[pos] < x:
                acc += dist[xs[pos]]
                pos += 1
            mid = acc + dist[x] / 2
            worst = max(worst, abs(mid - want))
        rec.outcome(('worst', case['id'], round(worst, 3)))
        if worst > .035:
            fails('%s law' % case['id'], 'distribution functions of simulate '
                'and of the density differ by %.3f' % worst)
        if any(f(x) == ref.NINF for x in xs):
            fails('%s support' % name, 'simulated a value of zero density')
    # N samples: count, and independence of the samples.
    for N in (0, 1, 2, 3):
        r = m.simulate(fresh, [0], N=N)
        rec.eval()
        if not isinstance(r, list) or len(r) != N or any(
                sorted(x) != [0] for x in r):
            fails('%s count' % name, 'N=%d returned %r' % (N, r))
        elif len(set(id(x) for x in r)) != N:
            fails('%s alias' % name, 'the %d samples share one object' % N)
    rng.grid, rng.max_support, rng.tail = 3, 5, 1e-2
    if name != 'normal_trunc':
        one = distribution(rng, lambda: m.simulate(fresh, [0]),
            lambda r: float(r[0]), rec=rec)
        two = distribution(rng, lambda: m.simulate(fresh, [0], N=2),
            lambda r: (float(r[0][0]), float(r[1][0])), rec=rec)
        for a in one:
            for b in one:
                if abs(two.get((a, b), 0.) - one[a] * one[b]) > 1e-9:
                    fails('%s independence' % name, 'P(%r, %r) is %r, product'
                        ' of the marginals %r' % (a, b, two.get((a, b), 0.),
                        one[a] * one[b]))
                    break
        if len(two) <= 16:
            law = distribution(rng, lambda: m.simulate(fresh, [0], N=3),
                lambda r: tuple(float(x[0]) for x in r), rec=rec)
            bad = [k for k in itertools.product(one, repeat=3) if abs(law.get(
                k, 0.) - one[k[0]] * one[k[1]] * one[k[2]]) > 1e-9]
            if bad:
                fails('%s independence of three' % name, 'P%r is %r' % (
                    bad[0], law.get(bad[0], 0.)))
    # An observed row gives back its value; the model is untouched.
    for r, v in enumerate(hist):
        got = [m.simulate(r, [0])] + list(m.simulate(r, [0], N=2))
        rec.eval(2)
        if any(abs(x[0] - v) > 1e-12 for x in got):
            fails('%s observed' % name, 'row %d holds %r, simulate returned '
                '%r' % (r, v, got))
    if m.logpdf_score() != before:
        fails('%s pure' % name, 'simulate changed the score from %r to %r'
            % (before, m.logpdf_score()))
    if len(hist) == 1:
        rec.sample({'component': case['id'], 'outcomes': len(dist)})
