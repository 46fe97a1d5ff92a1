"""Component densities are proper distributions over exactly the values the
component accepts."""
import copy
import itertools
import math

import numpy as np

import comp
import mc
import ref

PID = 'C03'
RULE = ('all data histories up to the stated size over a three value '
    'alphabet, per component type and hyperparameter setting; at each state '
    'the real density is summed or integrated over its support and compared '
    'with the generative model at every probe')
ASSUMPTIONS = ['integrals by 2 x 200 point Gauss-Legendre quadrature (1e-4)',
    'infinite discrete supports summed until 1e-7 of the model mass is left']

EDGE = {
    'bernoulli': [0, 1, -1, 2, .5, True, 1.0],
    'categorical': [0, 2, 3, -1, .5, 1.0],
    'poisson': [0, 3, 1.0, -1, .5, -2.0],
    'geometric': [0, 3, 1.0, -1, .5, -2.0],
    'exponential': [0., 1e-9, 2, -1e-9, -3.],
    'lognormal': [1e-9, 2, 0., -1.],
    'normal': [-3., 0, 2., 1e3],
    'vonmises': [0., math.pi, 2 * math.pi, -1e-6, 2 * math.pi + 1e-6],
    'beta': [0., 1., .5, 1e-12, 1 - 1e-12, -.1, 1.1],
    'normal_trunc': [-1., 3., 0., -1.0001, 3.0001],
    'crp': [0, 1, 9],
}


def cases(tier):
    size = 2 if tier == 'quick' else 4
    for name in sorted(comp.SPECS):
        for i in range(len(comp.configs(name))):
            yield {'id': '%s/%d' % (name, i), 'kind': name, 'config': i,
                'size': size}


def gauss(a, b, n=200):
    x, w = np.polynomial.legendre.leggauss(n)
    return (b - a) / 2 * x + (a + b) / 2, w * (b - a) / 2


def integrate(name, f, distargs):
    """Integral of the density over the real line."""
    if name == 'normal':
        # x = sinh-type map of (-1, 1)
        t, w = gauss(-1, 1, 600)
        xs, jac = 3 * t / (1 - t * t), 3 * (1 + t * t) / (1 - t * t) ** 2
    elif name == 'exponential':
        t, w = gauss(0, 1, 400)
        xs, jac = t / (1 - t), 1 / (1 - t) ** 2
    elif name == 'lognormal':
        # x = exp(y)
        t, w = gauss(-1, 1, 800)
        y, jy = 4 * t / (1 - t * t), 4 * (1 + t * t) / (1 - t * t) ** 2
        keep = np.abs(y) < 600
        y, jy, w = y[keep], jy[keep], w[keep]
        return sum(wi * ji * math.exp(min(700, f(math.exp(yi)) + yi))
            for yi, ji, wi in zip(y, jy, w))
    elif name == 'beta':
        t, w = gauss(0, 1, 400)
        # smooth the end points: x = t^2 (3 - 2 t)
        xs, jac = t * t * (3 - 2 * t), 6 * t * (1 - t)
    elif name == 'vonmises':
        xs, w = gauss(0, 2 * math.pi)
        jac = np.ones(len(xs))
    else:
        xs, w = gauss(distargs['l'], distargs['h'])
        jac = np.ones(len(xs))
    return sum(wi * ji * math.exp(f(float(xi)))
        for xi, ji, wi in zip(xs, jac, w))


def run_case(case, rec):
    name = case['kind']
    h, p = comp.configs(name)[case['config']]
    distargs = comp.SPECS[name][2]
    values = comp.SPECS[name][4]
    hists = [()]
    for k in range(1, case['size'] + 1):
        hists += list(itertools.combinations_with_replacement(values, k))
    for hist in hists:
        m = comp.make(name, h, p)
        for r, v in enumerate(hist):
            m.incorporate(r, {0: v})
            rec.trans()
        rec.state((case['id'], hist))
        rec.trace()

        def f(x):
            rec.eval()
            return float(m.logpdf(10 ** 6, {0: x}))
        # Total mass.
        if name in ('poisson', 'geometric'):
            total, x, want = 0., 0, 0.
            while x < 4000 and want < 1 - 1e-7:
                total += math.exp(f(x))
                want += math.exp(ref.pred(name, x, hist, h, distargs))
                x += 1
            ok = abs(total - want) < 1e-6
        elif name in ('bernoulli', 'categorical', 'crp'):
            support = range(distargs['k']) if name == 'categorical' else \
                (0, 1) if name == 'bernoulli' else \
                sorted(set(hist)) + [max(list(hist) + [0]) + 1]
            total = sum(math.exp(f(x)) for x in support)
            ok = abs(total - 1) < 1e-9
        else:
            total = integrate(name, f, distargs)
            # Cauchy-like tails beyond the nodes: the model's own mass there.
            want = 1. if name != 'lognormal' else integrate(name, lambda x:
                ref.pred(name, x, hist, h, distargs), distargs)
            ok = abs(total - want) < 2e-4
        if not ok:
            rec.fail('%s mass' % case['id'], 'the density given %s has total '
                'mass %r' % (hist, total), history=hist)
        # Pointwise.
        for x in list(values) + [e for e in EDGE[name]
                if name != 'beta' or e == .5]:
            got = f(x)
            if got != got:
                rec.fail('%s nan' % case['id'], 'density at %r given %s is '
                    'nan' % (x, hist))
                continue
            if name in ref.PRED:
                want = ref.pred(name, x, hist, h, distargs)
            elif name == 'crp':
                want = ref.crp_pred(x, hist, h['alpha'])
            elif name == 'beta':
                from scipy.stats import beta
                s, b = p['strength'], p['balance']
                want = beta.logpdf(x, s * b, s * (1 - b)) \
                    if 1e-6 < x < 1 - 1e-6 or not 0 <= x <= 1 else got
            else:
                from scipy.stats import truncnorm
                mu, sg = p['mu'], p['sigma']
                want = truncnorm.logpdf(x, (distargs['l'] - mu) / sg,
                    (distargs['h'] - mu) / sg, loc=mu, scale=sg)
            rec.outcome((case['id'], round(got, 9)))
            if not ref.close(got, want, 1e-6):
                rec.fail('%s density' % case['id'], 'density at %r given %s: '
                    '%r, generative model says %r' % (x, hist, got, want),
                    history=hist)
        # A value can be recorded exactly when its density is positive, and
        # a refused value leaves no trace.
        for x in EDGE[name]:
            lp = f(x)
            m2 = copy.deepcopy(m)
            e = mc.raises(m2.incorporate, 77, {0: x})
            rec.trans()
            if e is None and lp == ref.NINF:
                rec.fail('%s accepts %r' % (name, x), '%r is recorded '
                    'although its density is zero' % (x,), history=hist)
            if e is not None:
                if not isinstance(e, ValueError):
                    rec.fail('%s refusal of %r' % (name, x), 'recording %r '
                        'raises %r instead of ValueError' % (x, e))
                if lp != ref.NINF:
                    rec.fail('%s refuses %r' % (name, x), '%r has log density'
                        ' %r but cannot be recorded: %r' % (x, lp, e))
                if m2.logpdf_score() != m.logpdf_score() or any(
                        m2.logpdf(10 ** 6, {0: v}) != m.logpdf(10 ** 6,
                        {0: v}) for v in values):
                    rec.fail('%s refusal effect' % name, 'refusing %r changed '
                        'the model' % (x,))
        if len(hist) == 2:
            rec.sample({'component': case['id'], 'data': hist,
                'mass': total})
