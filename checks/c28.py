"""Log space arithmetic is exact and draws are faithful."""
import decimal
import itertools
import math

import numpy as np

import mc
from crng import CRng, distribution

PID = 'C28'
RULE = ('all vectors of up to 4 entries over an alphabet of ordinary, huge, '
    'tiny and infinite values; all random-choice paths of draws from them')
ASSUMPTIONS = ['reference values in 60-digit decimal arithmetic; vectors '
    'mixing both infinities are undefined, as documented, for sums']
INF = float('inf')
ALPHA = [0., 1.5, -2.25, 709.5, 1000., -800., 1e306, -1e306, 1e-300, INF,
    -INF]
D = decimal.Decimal
decimal.getcontext().prec = 60


def cases(tier):
    quick = tier == 'quick'
    for n in (0, 1, 2, 3, 4):
        alpha = ALPHA if n < 4 or not quick else \
            [0., -2.25, 1000., -800., -1e306, INF, -INF]
        if n < 2:
            yield {'id': 'vec/%d' % n, 'what': 'vec', 'n': n,
                'alpha': [repr(a) for a in alpha], 'first': None}
        else:
            for a in alpha:
                yield {'id': 'vec/%d/%r' % (n, a), 'what': 'vec', 'n': n,
                    'alpha': [repr(x) for x in alpha], 'first': repr(a)}
    for n in (1, 2, 3):
        yield {'id': 'weighted/%d' % n, 'what': 'weighted', 'n': n}
    yield {'id': 'flip', 'what': 'flip'}
    yield {'id': 'choose', 'what': 'choose'}


def lse(xs):
    """Decimal log-sum-exp of a list without +inf."""
    fin = [D(x) for x in xs if x != -INF]
    if not fin:
        return -INF
    m = max(fin)
    s = sum((x - m).exp() if x - m > -10000 else D(0) for x in fin)
    return m + s.ln()


def close(got, want, tol=1e-12):
    if want == INF or want == -INF:
        return got == want
    if got != got or got in (INF, -INF):
        return False
    w = float(want)
    return abs(float(got) - w) <= tol * max(1., abs(w))


def run_case(case, rec):
    {'vec': vec, 'weighted': weighted, 'flip': flip, 'choose': choose}[
        case['what']](case, rec)


def vec(case, rec):
    from cgpm.utils import general as gu
    n = case['n']
    alpha = [float(a) for a in case['alpha']]
    firsts = [float(case['first'])] if case['first'] is not None else None
    space = itertools.product(*([firsts or alpha] + [alpha] * (n - 1))) \
        if n else [()]
    for xs in space:
        xs = list(xs)
        rec.state(repr(xs))
        rec.trans()
        rec.trace()
        for form in (list, np.array):
            arr = form(xs)
            both = INF in xs and -INF in xs
            if not both:
                want = INF if INF in xs else lse(xs)
                got = gu.logsumexp(arr)
                rec.eval()
                if not close(got, want):
                    rec.fail('logsumexp %s' % xs, '%r, should be %s'
                        % (got, want))
            want = INF if INF in xs else lse(xs) - D(n).ln() \
                if n and lse(xs) != -INF else -INF
            got = gu.logmeanexp(arr)
            rec.eval()
            if not close(got, want):
                rec.fail('logmeanexp %s' % xs, '%r, should be %s'
                    % (got, want))
            if n and INF not in xs and lse(xs) != -INF:
                tot = lse(xs)
                got = gu.log_normalize(arr)
                rec.eval()
                for g, x in zip(got, xs):
                    if not close(g, -INF if x == -INF else D(x) - tot,
                            1e-9 if abs(x) < 1e300 else 1e300):
                        rec.fail('log_normalize %s' % xs, '%s' % (got,))
                        break
            ps = [abs(x) for x in xs]
            if n and INF not in ps and 0 < math.fsum(ps) < 1e300:
                tot = sum(D(x) for x in ps)
                got = gu.normalize(form(ps))
                rec.eval()
                if any(not close(g, D(x) / tot) for g, x in zip(got, ps)):
                    rec.fail('normalize %s' % ps, '%s' % (got,))
    if n == 3:
        rec.sample({'entries': xs})
    # Undefined entries stay undefined.
    if n == 2:
        for x in alpha:
            for p in ([x, math.nan], [math.nan, x]):
                rec.eval()
                if gu.logsumexp(p) == gu.logsumexp(p):
                    rec.fail('logsumexp nan', '%s gives %r' % (p,
                        gu.logsumexp(p)))
                if gu.logmeanexp(p) == gu.logmeanexp(p):
                    rec.fail('logmeanexp nan', '%s gives %r' % (p,
                        gu.logmeanexp(p)))


def weighted(case, rec):
    from cgpm.utils import general as gu
    n = case['n']
    A = [0., -2.25, 800., -900., -INF]
    W = [0., 1.5, -1000., 700., -INF]
    if n == 3:
        A, W = [0., 800., -INF], [0., 1.5, -1000., -INF]
    for a in itertools.product(A, repeat=n):
        for w in itertools.product(W, repeat=n):
            if lse(w) == -INF:
                continue
            rec.state(repr((a, w)))
            rec.trans()
            rec.trace()
            num = lse([-INF if -INF in (x, y) else D(x) + D(y)
                for x, y in zip(a, w)])
            want = num if num == -INF else num - lse(w)
            for form in (list, np.array):
                got = gu.logmeanexp_weighted(form(a), form(w))
                rec.eval()
                if not close(got, want, 1e-11):
                    rec.fail('logmeanexp_weighted %s %s' % (a, w),
                        '%r, should be %s' % (got, want))
    rec.sample({'values': [0., 800.], 'weights': [1.5, -1000.], 'result':
        gu.logmeanexp_weighted([0., 800.], [1.5, -1000.])})
    for a, w in [([0.], []), ([], [0.]), ([1., 2.], [0.])]:
        if mc.raises(gu.logmeanexp_weighted, a, w) is None:
            rec.fail('weighted lengths', 'mismatched lengths accepted')


def flip(case, rec):
    from cgpm.utils import general as gu
    rng = CRng(1)
    vals = [-INF, 0., -2.25, 1000., -800.]
    items = ['p', 'q', 'r', 's']
    for n in (1, 2, 3):
        for lp in itertools.product(vals, repeat=n):
            if lse(lp) == -INF:
                continue
            tot = lse(lp)
            probs = [0. if x == -INF else float((D(x) - tot).exp())
                for x in lp]
            rec.state(repr(lp))
            for array in (None, items[:n], [5, 2, 9][:n]):
                arr = list(range(n)) if array is None else array
                for form in (list, np.array):
                    draws(rec, 'log_pflip %s' % (lp,), rng, lambda size:
                        gu.log_pflip(form(lp), array=array, size=size,
                        rng=rng), arr, probs, form is list)
    weights = [0., 1., 3., .25]
    for n in (1, 2, 3):
        for w in itertools.product(weights, repeat=n):
            if sum(w) == 0:
                continue
            probs = [x / math.fsum(w) for x in w]
            rec.state(('w', w))
            for array in (None, items[:n]):
                arr = list(range(n)) if array is None else array
                for form in (list, tuple, np.array):
                    draws(rec, 'pflip %s' % (w,), rng, lambda size:
                        gu.pflip(form(w), array=array, size=size, rng=rng),
                        arr, probs, form is list)
    rec.sample({'log weights': [0., -2.25], 'draw': 'compared exactly'})


def draws(rec, key, rng, f, arr, probs, sized):
    want = {}
    for x, p in zip(arr, probs):
        if p > 0:
            want[str(x)] = p
    got = distribution(rng, lambda: f(None), lambda x: str(x), rec=rec)
    rec.eval()
    for k in set(got) | set(want):
        if abs(got.get(k, 0.) - want.get(k, 0.)) > 1e-9:
            rec.fail(key, '%s is drawn with probability %r, should be %r'
                % (k, got.get(k, 0.), want.get(k, 0.)))
            return
    if not sized:
        return
    for size in (0, 1, 2):
        got = distribution(rng, lambda: f(size), lambda x: tuple(str(y)
            for y in x), rec=rec)
        for k in itertools.product(want, repeat=size):
            p = 1.
            for y in k:
                p *= want[y]
            rec.eval()
            if abs(got.get(k, 0.) - p) > 1e-9:
                rec.fail(key, '%d draws: %s has probability %r, should be '
                    '%r' % (size, k, got.get(k, 0.), p))
                return


def choose(case, rec):
    from cgpm.utils import general as gu
    for n in range(0, 40):
        for k in range(0, n + 1):
            rec.state((n, k))
            rec.eval()
            rec.trans()
            rec.trace()
            if not close(gu.log_nCk(n, k), D(math.comb(n, k)).ln(), 1e-10):
                rec.fail('log_nCk', '%d over %d: %r' % (n, k,
                    gu.log_nCk(n, k)))
    for n, k in [(10000, 5000), (100000, 3)]:
        if not close(gu.log_nCk(n, k), D(math.comb(n, k)).ln(), 1e-9):
            rec.fail('log_nCk', '%d over %d: %r' % (n, k, gu.log_nCk(n, k)))
    for a in (1e-3, .5, 1., 7.):
        for b in (1e-3, .5, 1., 7., 1e5):
            for n in (1, 2, 3, 30):
                g = gu.log_linspace(a, b, n)
                want = [a * (b / a) ** (i / float(max(n - 1, 1)))
                    for i in range(n)]
                rec.eval()
                if len(g) != n or any(not close(x, y, 1e-10)
                        for x, y in zip(g, want)):
                    rec.fail('log_linspace', '(%s, %s, %s): %s' % (a, b, n,
                        list(g)))
    rec.sample({'log_nCk(5, 2)': gu.log_nCk(5, 2)})
