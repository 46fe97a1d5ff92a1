"""Regression and toy models honour the model contract."""
import copy
import itertools
import math
import warnings

import numpy as np
import scipy.stats as ss

import mc
import models
import ref
from crng import CRng, distribution, explore, TooManyPaths

PID = 'C29'
RULE = ('random forest and least squares: every history of recording, '
    'forgetting and fitting up to a depth, every state reached checked at '
    'every input of an alphabet against the stated law, with every sample '
    'count, and against a fresh model of the same rows; every malformed '
    'request of an alphabet in every kind of state; toy models: every query '
    'pattern at every input of an alphabet against the closed form, densities '
    'and all paths of the random choices of simulate')
ASSUMPTIONS = ['3 to 4 rows, one numeric and one categorical input',
    'the trees themselves are those of the library; the mixture with the '
    'uniform law, the rows it is fitted to and the weight are checked',
    'least squares simulates its prediction without noise, as its code says',
    'continuous draws on a grid of quantiles; laws compared by the '
    'probabilities of intervals at a stated tolerance',
    'exact fits (no residual) have no density and are left out']


def cases(tier):
    quick = tier == 'quick'
    for name in ('forest', 'ols-mixed', 'ols-numeric', 'ols-prior'):
        subj = models.subjects()[name]
        for first in subj.ops[:3]:
            yield {'id': 'history:%s.%s' % (name, first), 'subject': name,
                'first': [first], 'depth': 4 if quick else 5}
        # Enough rows for a fit which is not exact.
        yield {'id': 'history:%s.large' % name, 'subject': name,
            'first': ['+5', '+4', '+0', '+3', '+1'],
            'depth': 7 if quick else 9}
        yield {'id': 'refusals:' + name, 'refuse': name}
        yield {'id': 'reuse:' + name, 'reuse': name, 'quick': quick}
    for alpha in (.01, .3, .99):
        yield {'id': 'weight:%s' % alpha, 'weight': alpha,
            'rows': 2 if quick else 4}
    for name in TOYS:
        yield {'id': 'toy:' + name, 'toy': name, 'quick': quick}


# ------------------------------------------------------------- regressions
INPUTS = [{3: a, 1: b} for a in (-1., .5, 7.) for b in (0, 1, 2)]


def rows_of(m):
    return {r: m.simulate(r, [7], None, {3: .1, 1: 1})[7]
        for r in sorted(m.data.x)}


def inputs_of(hist, subj):
    """Rows recorded by a history, in order."""
    rows = {}
    for op in hist:
        if op[0] == '+':
            rows[int(op[1:])] = subj.row(int(op[1:]))
        elif op[0] == '-':
            rows.pop(int(op[1:]))
    return rows


def code(inp, mixed=True):
    return [inp[3]] + ([1. if inp[1] == j else 0. for j in range(2)] if mixed
        else [inp[1]])


def least_squares(rows, mixed):
    X = np.array([code(i, mixed) for _, i in rows.values()])
    y = np.array([o[7] for o, _ in rows.values()])
    mx, my = X.mean(axis=0), y.mean()
    w = np.linalg.pinv(X - mx).dot(y - my)
    noise = np.sqrt(np.mean((y - my - (X - mx).dot(w)) ** 2))
    return lambda inp: my + (np.array(code(inp, mixed)) - mx).dot(w), noise


def check_counts(rec, key, m, inp, rowid, val=None):
    """Sample counts; the samples are the caller's own."""
    one = m.simulate(rowid, [7], None, dict(inp))
    if set(one) != {7}:
        rec.fail(key + ': one', 'one sample: %r' % (one,))
        return
    for N in (0, 1, 2, 3):
        got = m.simulate(rowid, [7], None, dict(inp), N)
        rec.eval()
        if not isinstance(got, list) or len(got) != N or any(
                set(s) != {7} for s in got):
            rec.fail(key + ': count', '%d samples requested: %r' % (N, got))
            return
        if val is not None and any(s[7] != val for s in got):
            rec.fail(key + ': recorded', 'recorded %r, simulated %r' % (val,
                got))
        if N == 3:
            keep = copy.deepcopy(got)
            got[0][7] = 99
            if got[1:] != keep[1:]:
                rec.fail(key + ': shared', 'samples share storage')
    if val is not None and one[7] != val:
        rec.fail(key + ': recorded', 'recorded %r, simulated %r' % (val, one))


def forest_law(m, inp):
    """The stated mixture at an input."""
    forest, alpha = m.get_params()['forest'], m.get_params()['alpha']
    p = [1. / 3] * 3
    if hasattr(forest, 'classes_'):
        p = [alpha / 3.] * 3
        # The trees see the inputs in the order they were recorded in.
        y = [inp[c] for c in sorted(inp)]
        for c, q in zip(forest.classes_, forest.predict_proba([y])[0]):
            p[int(c)] += (1 - alpha) * q
    return p


def check_forest(rec, key, m, rng, cheap):
    for inp in INPUTS if not cheap else INPUTS[::4]:
        p = [math.exp(m.logpdf(-1, {7: k}, None, dict(inp)))
            for k in range(3)]
        rec.eval(3)
        if abs(sum(p) - 1) > 1e-7:
            rec.fail(key + ': proper', 'at %s probabilities %s' % (inp, p))
            return
        a, alpha = m.get_params()['forest'], m.get_params()['alpha']
        low = alpha / 3 if hasattr(a, 'classes_') else 1. / 3
        if min(p) < low - 1e-9:
            rec.fail(key + ': weight', 'at %s probabilities %s, least %s'
                % (inp, p, low))
        if not ref_close(p, forest_law(m, inp)):
            rec.fail(key + ': mixture', 'at %s: %s, the mixture is %s'
                % (inp, p, forest_law(m, inp)))
        # The order in which the inputs are named does not matter.
        q = [math.exp(m.logpdf(-1, {7: float(k)}, None, {c: inp[c] for c in
            sorted(inp)})) for k in range(3)]
        if not ref_close(p, q):
            rec.fail(key + ': order', 'at %s: %s or %s' % (inp, p, q))
        d = distribution(rng, lambda: m.simulate(-1, [7], None, dict(inp)),
            lambda s: s[7], rec=rec)
        if not ref_close([d.get(k, 0.) for k in range(3)], p):
            rec.fail(key + ': simulate', 'at %s simulates %s, density %s'
                % (inp, d, p))
    for bad in (3, -1, .5, 17.):
        if m.logpdf(-1, {7: bad}, None, dict(INPUTS[0])) != -math.inf:
            rec.fail(key + ': outside', 'density at %s' % bad)
    if len(m.data.x):
        want = sum(math.log(forest_law(m, dict(zip(sorted(m.inputs), y)))[x])
            for x, y in zip(m.data.x.values(), m.data.Y.values()))
        if not ref_close([m.logpdf_score()], [want]):
            rec.fail(key + ': score', '%s, the rows give %s' % (
                m.logpdf_score(), want))


def ref_close(a, b, tol=1e-7):
    return len(a) == len(b) and all(ref.close(x, y, tol)
        for x, y in zip(a, b))


def check_ols(rec, key, m, rows, fitted, subj):
    """fitted: the rows of the latest fit, or None."""
    if fitted is None:
        # Without a fit there is no prediction to give.
        return
    mean, noise = least_squares(fitted, subj.conf != 'numeric')
    if noise < 1e-9:
        rec.note('exact fits left out')
    elif not ref_close([m.get_params()['noise']], [noise]):
        rec.fail(key + ': noise', '%s, residuals %s' % (
            m.get_params()['noise'], noise))
    for inp in INPUTS:
        for shuffled in (inp, {c: inp[c] for c in sorted(inp)}):
            got = m.simulate(-1, [7], None, dict(shuffled))[7]
            rec.eval()
            if not ref_close([float(got)], [mean(inp)], 1e-6):
                rec.fail(key + ': prediction', 'at %s: %s, least squares %s'
                    % (inp, got, mean(inp)))
                return
        if noise < 1e-9:
            continue
        for y in (-2., .3, 4.):
            got = m.logpdf(-1, {7: y}, None, dict(inp))
            want = ss.norm.logpdf(y, mean(inp), noise)
            if not ref_close([got], [want], 1e-6):
                rec.fail(key + ': density', 'of %s at %s: %s, normal %s'
                    % (y, inp, got, want))


def check_state(rec, key, m, hist, subj, rng, fitted, cheap):
    rows = inputs_of(hist, subj)
    if m.N != len(rows) or list(sorted(m.data.x)) != sorted(rows):
        rec.fail(key + ': rows', 'rows %s (N=%s), history leaves %s' % (
            list(m.data.x), m.N, sorted(rows)))
        return
    for r, (obs, _) in rows.items():
        check_counts(rec, key, m, INPUTS[1], r, obs[7])
    if subj.name == 'forest':
        counts = [sum(o[7] == k for o, _ in rows.values()) for k in range(3)]
        if list(m.counts) != counts:
            rec.fail(key + ': counts', 'category counts %s, rows have %s'
                % (list(m.counts), counts))
        check_forest(rec, key, m, rng, cheap)
    else:
        check_ols(rec, key, m, rows, fitted, subj)
    if subj.name == 'forest' or fitted:
        check_counts(rec, key, m, INPUTS[0], -1)


def law(m, subj):
    out = []
    for inp in INPUTS:
        if subj.name == 'forest':
            a = m.get_params()['alpha']
            out += [(math.exp(m.logpdf(-1, {7: k}, None, dict(inp))) - a / 3)
                / (1 - a) for k in range(3)]
        else:
            out.append(float(m.simulate(-1, [7], None, dict(inp))[7]))
    return out


def run_history(case, rec):
    subj = models.subjects()[case['subject']]
    rng = CRng(3)
    fresh_laws = {}

    def fresh(rows):
        key = tuple(rows)
        if key not in fresh_laws:
            m = subj.build()
            m.rng = CRng(5)
            for r, (o, i) in rows.items():
                m.incorporate(r, dict(o), dict(i))
            m.transition()
            fresh_laws[key] = law(m, subj)
        return fresh_laws[key]

    def go(m, hist, fitted):
        key = '%s %s' % (case['subject'], '>'.join(hist))
        rows = inputs_of(hist, subj)
        new = rec.state((case['subject'], tuple(rows), tuple(fitted or ())))
        with rec.guard(key):
            check_state(rec, key, m, hist, subj, rng, fitted,
                not new or len(hist) > 3)
            if hist and hist[-1] == 'fit' and not ref_close(law(m, subj),
                    fresh(rows), 1e-6):
                rec.fail(key + ': refit', 'fitted after %s differs from a '
                    'fresh model of the same rows' % (hist,))
        if len(hist) == case['depth'] or len(rec.fails) > 8:
            return
        for op in subj.ops:
            m2 = copy.deepcopy(m)
            m2.rng = rng
            if op[0] == '+' and int(op[1:]) in rows or \
                    op[0] == '-' and int(op[1:]) not in rows or \
                    op == 'fit' and not rows:
                continue
            rec.trans()
            with rec.guard('%s>%s' % (key, op)):
                if op[0] == '+':
                    obs, inp = subj.row(int(op[1:]))
                    keep = dict(obs), dict(inp)
                    m2.incorporate(int(op[1:]), obs, inp)
                    if keep != (obs, inp):
                        rec.fail(key + ': arguments', 'changed')
                elif op[0] == '-':
                    m2.unincorporate(int(op[1:]))
                else:
                    m2.transition()
                go(m2, hist + [op], dict(inputs_of(hist, subj)) if op == 'fit'
                    else fitted)
    m = subj.build()
    m.rng = rng
    if case['first'] == subj.ops[:1]:
        with rec.guard('new'):
            check_state(rec, case['subject'] + ' new', m, [], subj, rng,
                None, False)
    for op in case['first']:
        m.incorporate(int(op[1:]), *subj.row(int(op[1:])))
    go(m, list(case['first']), None)
    rec.sample({'subject': case['subject'], 'states': len(rec.states)})


def run_reuse(case, rec):
    """A row name used again for other values, with requests in between."""
    subj = models.subjects()[case['reuse']]
    rng = CRng(3)
    names = [0, 1, 2] if case['quick'] else [0, 1, 2, 3]

    def fresh(rows):
        m = subj.build()
        m.rng = CRng(5)
        for r, k in rows.items():
            o, i = subj.row(k)
            m.incorporate(r, dict(o), dict(i))
        m.transition()
        return m, law(m, subj)

    for r in names:
        for k in (4, 5, 3):
            for fit_first, fit_between in ((1, 0), (1, 1), (0, 0)):
                key = '%s row %d as %d (%d, %d)' % (case['reuse'], r, k,
                    fit_first, fit_between)
                with rec.guard(key):
                    m = subj.build()
                    m.rng = rng
                    rows = {}

                    def fit():
                        m.transition()
                        if not ref_close(law(m, subj), fresh(rows)[1], 1e-6):
                            rec.fail(key + ': refit', 'rows %s: differs from '
                                'a fresh model' % (rows,))
                        rec.eval()
                    for q in names:
                        m.incorporate(q, *subj.row(q))
                        rows[q] = q
                    m.logpdf_score()
                    if fit_first:
                        fit()
                    m.unincorporate(r)
                    del rows[r]
                    if fit_between:
                        fit()
                    m.incorporate(r, *subj.row(k))
                    rows[r] = k
                    rec.trans(len(names) + 2)
                    for q, j in rows.items():
                        check_counts(rec, key, m, INPUTS[1], q,
                            subj.row(j)[0][7])
                    fit()
                    rec.state((case['reuse'], r, k, fit_first, fit_between))
                    if subj.name == 'forest':
                        check_forest(rec, key, m, rng, True)
                    else:
                        check_ols(rec, key, m, {q: subj.row(j) for q, j in
                            rows.items()}, {q: subj.row(j) for q, j in
                            rows.items()}, subj)
    rec.sample({'subject': case['reuse'], 'names': names})


NAN = float('nan')


def refusals(subj):
    """Requests that must be refused: (label, method, args)."""
    good = {3: .5, 1: 1}
    obs = dict(subj.row(1)[0])
    bad_inputs = [('missing input', {3: .5}), ('no inputs', {}),
        ('nan input', {3: NAN, 1: 1}), ('output as input', {3: .5, 1: 1,
        7: obs[7]}), ('unknown input', {3: .5, 1: 1, 12: 4.})]
    if subj.name != 'forest' and subj.conf != 'numeric':
        bad_inputs += [('category', {3: .5, 1: 3}), ('category', {3: .5,
            1: -1}), ('category', {3: .5, 1: .5})]
    bad_obs = [('nan', {7: NAN}), ('missing', {}), ('none', {7: None}),
        ('other variable', {3: 1.})]
    for label, inp in bad_inputs:
        yield 'record: ' + label, 'incorporate', (9, dict(obs), inp)
        yield 'density: ' + label, 'logpdf', (-1, dict(obs), None, inp)
        yield 'simulate: ' + label, 'simulate', (-1, [7], None, inp)
        yield 'simulate many: ' + label, 'simulate', (-1, [7], None, inp, 3)
    for label, o in bad_obs:
        yield 'record: ' + label, 'incorporate', (9, o, dict(good))
        yield 'density: ' + label, 'logpdf', (-1, o, None, dict(good))
    if subj.name == 'forest':
        for v in (3, -1, .5):
            yield 'record: category', 'incorporate', (9, {7: v}, dict(good))
    yield 'record twice', 'incorporate', (0, dict(obs), dict(good))
    yield 'forget unknown', 'unincorporate', (9,)
    yield 'forget unknown', 'unincorporate', (-1,)
    yield 'density of recorded row', 'logpdf', (0, dict(obs), None,
        dict(good))
    yield 'wrong target', 'simulate', (-1, [3], None, dict(good))
    yield 'two targets', 'simulate', (-1, [7, 3], None, dict(good))
    yield 'no target', 'simulate', (-1, [], None, dict(good))
    yield 'constraint', 'simulate', (-1, [7], {3: 1.}, dict(good))
    yield 'constraint', 'logpdf', (-1, dict(obs), {3: 1.}, dict(good))


def run_refusals(case, rec):
    subj = models.subjects()[case['refuse']]
    for pre in ([], ['+0'], ['+0', '+1', '+2'], ['+0', '+1', 'fit'],
            ['+0', '+1', '+2', 'fit'], ['+0', '+1', '+2', 'fit', '-1']):
        m = subj.build()
        for op in pre:
            subj.op(m, op)
        rec.state((case['refuse'], tuple(pre)))
        before = subj.answers(m)
        for label, name, args in refusals(subj):
            if 0 in args[:1] and '+0' not in pre:
                continue
            m2 = copy.deepcopy(m)
            rec.trans()
            rec.eval()
            e = mc.raises(getattr(m2, name), *copy.deepcopy(args))
            key = '%s after %s: %s' % (case['refuse'], '>'.join(pre), label)
            if e is None:
                rec.fail(key + ': accepted', '%s%r accepted' % (name, args))
                continue
            rec.outcome((label, type(e).__name__))
            bad = models.diff(before, subj.answers(m2))
            if bad:
                rec.fail(key + ': changed', 'refused %s%r, but %s' % (name,
                    args, bad))
    rec.sample({'subject': case['refuse'], 'refusals': sorted(set(
        l for l, _, _ in refusals(subj)))[:20]})


def run_weight(case, rec):
    """The weight of the uniform law is drawn by its likelihood."""
    subj = models.subjects()['forest']
    for n in range(1, case['rows'] + 1):
        for vals in itertools.product(range(3), repeat=n):
            m = subj.build()
            rng = m.rng = CRng(2)
            for r, v in enumerate(vals):
                m.incorporate(r, {7: v}, {3: [.3, 1.4, -2., .9, .2][r],
                    1: [2, 0, 1, 2, 2][r]})
            m.transition()
            # Look at other rows than those fitted.
            m.incorporate(8, {7: (vals[0] + 1) % 3}, {3: .35, 1: 2})
            m.alpha = case['weight']
            trees = [forest_law_at(m, y) for y in m.data.Y.values()]
            xs = list(m.data.x.values())
            rec.state(vals)

            def once():
                w = copy.deepcopy(m)
                w.rng = rng
                w.transition(1)
                return w.get_params()['alpha']
            d = distribution(rng, once, lambda a: round(float(a), 12),
                rec=rec)
            if n == 1 or len(set(vals)) == n == 2:
                # One step, asked for by number or not, fitted or not.
                for fitted in (True, False):
                    laws = []
                    for args in ((), (1,)):
                        def step():
                            w = copy.deepcopy(m)
                            w.rng = rng
                            if not fitted:
                                w = subj.build()
                                w.rng = rng
                                for r, v in enumerate(vals):
                                    w.incorporate(r, {7: v}, {3: .3 * r,
                                        1: r})
                            w.transition(*args)
                            return w.get_params()['alpha']
                        laws.append(distribution(rng, step, lambda a:
                            round(float(a), 12), rec=rec))
                    rec.eval()
                    if set(laws[0]) != set(laws[1]) or not ref_close([
                            laws[0][a] for a in sorted(laws[0])], [laws[1][a]
                            for a in sorted(laws[0])]):
                        rec.fail('default steps', 'rows %s, fitted before: '
                            '%s: transition() and transition(1) differ: %s, '
                            '%s' % (vals, fitted, laws[0], laws[1]))
                        return
            like = {a: math.exp(sum(math.log(a / 3 + (1 - a) * t.get(x, 0.))
                for x, t in zip(xs, trees))) for a in d}
            z = sum(like.values())
            if len(d) < 2:
                rec.fail('weight grid', 'only %s' % sorted(d))
                return
            bad = [a for a in d if abs(d[a] - like[a] / z) > 1e-6]
            if bad:
                rec.fail('weight %s' % (vals,), 'weight %s with probability '
                    '%s, likelihood gives %s' % (bad[0], d[bad[0]],
                    like[bad[0]] / z))
                return
    rec.sample({'weights': sorted(d)[:5], 'rows': list(vals)})


def forest_law_at(m, y):
    f = m.get_params()['forest']
    return dict(zip([int(c) for c in f.classes_], f.predict_proba([y])[0]))


# -------------------------------------------------------------------- toys
def table(rec, key, m, want, inputs, targets_as=(int, float)):
    """A discrete conditional model against its table."""
    rng = m.rng
    out = m.outputs[0]
    for kind in (int, float):
        inp = {c: kind(v) if kind(v) == v else v for c, v in inputs.items()}
        for cast in targets_as:
            got = [math.exp(m.logpdf(-1, {out: cast(k)}, None, dict(inp)))
                for k in range(len(want))]
            rec.eval(len(want))
            if not ref_close(got, want):
                rec.fail(key + ': density', 'at %s: %s, stated %s' % (inp,
                    got, want))
                return
        if abs(sum(got) - 1) > 1e-9:
            rec.fail(key + ': proper', 'at %s: %s' % (inp, got))
        for bad in (len(want), -1, .5):
            if m.logpdf(-1, {out: bad}, None, dict(inp)) != -math.inf:
                rec.fail(key + ': outside', 'density at %s' % bad)
        for N in (None, 1, 2):
            d = distribution(rng, lambda: m.simulate(-1, [out], None,
                dict(inp), N), lambda s: tuple(x[out] for x in (s if N else
                [s])), rec=rec)
            exp = {ks: np.prod([want[k] for k in ks]) for ks in
                itertools.product(range(len(want)), repeat=N or 1)}
            bad = [k for k in exp if abs(exp[k] - d.get(k, 0)) > 1e-6]
            if bad or set(d) - set(exp):
                rec.fail(key + ': simulate', 'at %s simulates %s, stated %s'
                    % (inp, d, exp))
                return
        if m.simulate(-1, [out], None, dict(inp), 0) != []:
            rec.fail(key + ': none', 'zero samples requested')


def paths(rec, rng, fn, grid):
    """All paths, on a coarser grid if there are more draws than foreseen."""
    for coarser in (1, 2, 4, 8):
        rng.grid = max(4, grid // coarser)
        try:
            return [(p, r) for p, r, _ in explore(rng, fn, 40000)], coarser
        except TooManyPaths:
            continue
    rec.note('too many paths')
    return None, None


def cdf_check(rec, key, rng, fn, out, cdf, grid=48, tol=None):
    """Draws on a grid of quantiles against a distribution function."""
    vals, coarser = paths(rec, rng, fn, grid)
    if vals is None:
        return
    vals = [(float(r[out]), p) for p, r in vals]
    rec.eval(len(vals))
    rec.trans(len(vals))
    rec.trace(len(vals))
    tol = (tol or 1.5 / grid) * coarser
    xs = sorted(v for v, _ in vals)
    lo, hi = xs[0] - 1, xs[-1] + 1
    pts = np.linspace(lo, hi, 41)
    for t in pts:
        got = sum(p for v, p in vals if v <= t)
        if abs(got - cdf(t)) > tol:
            rec.fail(key, 'probability below %.3f: %.4f, stated %.4f'
                % (t, got, cdf(t)))
            return


def density_is(rec, key, got, want):
    rec.eval()
    if not (got == want or ref_close([got], [want])):
        rec.fail(key, 'log density %s, stated %s' % (got, want))


def fourway(rec, quick):
    from cgpm.dummy.fourway import FourWay
    law = {0: [7., 1., .5, .5], 1: [1., 8., 1., 1.], 2: [1., 1.5, 6.5, 1.],
        3: [1., .5, 1., 7.5]}
    for a, b in itertools.product([-2., -.5, 1., 3.], repeat=2):
        m = FourWay([5], [8, 2], rng=CRng(1))
        quad = {(1, 1): 0, (0, 1): 1, (1, 0): 2, (0, 0): 3}[
            (int(a > 0), int(b > 0))]
        w = law[quad]
        rec.state((a, b))
        table(rec, 'fourway %s %s' % (a, b), m, [x / sum(w) for x in w],
            {8: a, 2: b})
    for k in range(4):
        y = FourWay.retrieve_y_for_x(k)
        p = [m.logpdf(-1, {5: j}, None, {8: y[0], 2: y[1]}) for j in range(4)]
        if p.index(max(p)) != k:
            rec.fail('fourway: example', 'inputs for %d' % k)
    for inp in ({8: 1.}, {}, {8: NAN, 2: 1.}):
        for f in (lambda: m.simulate(-1, [5], None, inp),
                lambda: m.logpdf(-1, {5: 1}, None, inp)):
            if mc.raises(f) is None:
                rec.fail('fourway: refuse', 'inputs %s accepted' % inp)


def twoway(rec, quick):
    from cgpm.dummy.twoway import TwoWay
    for y in (0, 1):
        m = TwoWay([5], [8], rng=CRng(1))
        rec.state(y)
        table(rec, 'twoway %s' % y, m, [[.9, .1], [.3, .7]][y], {8: y})
    for inp in ({8: 2}, {8: .5}, {}, {8: -1}, {8: NAN}):
        for f in (lambda: m.simulate(-1, [5], None, inp),
                lambda: m.logpdf(-1, {5: 1}, None, inp)):
            if mc.raises(f) is None:
                rec.fail('twoway: refuse', 'inputs %s accepted' % inp)


def piecewise(rec, quick):
    from cgpm.dummy.piecewise import PieceWise
    for flip, sigma, y in itertools.product((.5, .2, .8), (1., .3, 2.5),
            (-1.5, 0., 2)):
        key = 'piecewise %s %s %s' % (flip, sigma, y)
        rec.state(key)
        m = PieceWise([7, 4], [9], sigma=sigma, flip=flip, rng=CRng(1))
        pz = [flip, 1 - flip]

        def lx(x, z):
            return ss.norm.logpdf(x, y + 2 * z - 1, sigma)
        for x in (-2., 0., .7, 3.):
            post = [math.log(pz[z]) + lx(x, z) for z in (0, 1)]
            lse = ref_lse(post)
            for z in (0, 1, 0., 1.):
                k = int(z)
                density_is(rec, key + ': joint', m.logpdf(-1, {7: x, 4: z},
                    None, {9: y}), post[k])
                density_is(rec, key + ': joint', m.logpdf(-1, {4: z, 7: x},
                    {}, {9: y}), post[k])
                density_is(rec, key + ': x given z', m.logpdf(-1, {7: x},
                    {4: z}, {9: y}), lx(x, k))
                density_is(rec, key + ': z given x', m.logpdf(-1, {4: z},
                    {7: x}, {9: y}), post[k] - lse)
                density_is(rec, key + ': z', m.logpdf(-1, {4: z}, None,
                    {9: y}), math.log(pz[k]))
            density_is(rec, key + ': x', m.logpdf(-1, {7: x}, None, {9: y}),
                lse)
            for bad in (2, -1, .5):
                for t, c in (({4: bad}, None), ({4: bad, 7: x}, None),
                        ({4: bad}, {7: x})):
                    density_is(rec, key + ': z outside', m.logpdf(-1, t, c,
                        {9: y}), -math.inf)
            d = distribution(m.rng, lambda: m.simulate(-1, [4], {7: x},
                {9: y}), lambda s: int(s[4]), rec=rec)
            if not ref_close([d.get(k, 0) for k in (0, 1)],
                    [math.exp(p - lse) for p in post]):
                rec.fail(key + ': simulate z given x', '%s at %s' % (d, x))
        for z in (0, 1):
            cdf_check(rec, key + ': simulate x given z', m.rng, lambda:
                m.simulate(-1, [7], {4: z}, {9: y}), 7,
                lambda t: ss.norm.cdf(t, y + 2 * z - 1, sigma))
        cdf_check(rec, key + ': simulate x', m.rng, lambda: m.simulate(-1,
            [7], None, {9: y}), 7, lambda t: sum(pz[z] * ss.norm.cdf(t, y + 2
            * z - 1, sigma) for z in (0, 1)))
        d = distribution(m.rng, lambda: m.simulate(-1, [4], None, {9: y}),
            lambda s: int(s[4]), rec=rec)
        if not ref_close([d.get(k, 0) for k in (0, 1)], pz):
            rec.fail(key + ': simulate z', '%s' % d)
        for z in (0, 1):
            # The two parts of a joint draw belong together.
            m.rng.grid = 48
            num = den = 0
            for p, s, _ in explore(m.rng, lambda: m.simulate(-1, [4, 7], None,
                    {9: y}, 1)[0]):
                rec.trans()
                if set(s) != {4, 7}:
                    rec.fail(key + ': joint draw', repr(s))
                if int(s[4]) == z:
                    den += p
                    num += p * s[7]
            if not ref_close([num / den], [y + 2 * z - 1], 1e-6):
                rec.fail(key + ': simulate joint', 'mean of x with z=%d: %s'
                    % (z, num / den))
        for N in (0, 2):
            if len(m.simulate(-1, [7, 4], None, {9: y}, N)) != N:
                rec.fail(key + ': count', 'N=%d' % N)
        for f in (lambda: m.simulate(-1, [7], None, {}),
                lambda: m.logpdf(-1, {7: 1.}, None, {3: 1.}),
                lambda: m.simulate(-1, [], None, {9: y}),
                lambda: m.logpdf(-1, {}, None, {9: y}),
                lambda: m.simulate(-1, [7], {7: 1.}, {9: y}),
                lambda: m.logpdf(-1, {7: 1.}, {7: 1.}, {9: y}),
                lambda: m.simulate(-1, [12], None, {9: y}),
                lambda: m.logpdf(-1, {12: 1.}, None, {9: y})):
            if mc.raises(f) is None:
                rec.fail(key + ': refuse', 'malformed request accepted')


def ref_lse(xs):
    m = max(xs)
    return m + math.log(sum(math.exp(x - m) for x in xs))


def troll(rec, quick):
    from cgpm.dummy.trollnormal import TrollNormal
    for a, b in itertools.product((-2., 0., 1.5), (-3., 0., 2)):
        key = 'troll %s %s' % (a, b)
        rec.state(key)
        m = TrollNormal([7], [9, 2], rng=CRng(1))
        inp = {9: a, 2: b}
        for x in (-4., 0., 1., 2.5):
            density_is(rec, key, m.logpdf(-1, {7: x}, None, dict(inp)),
                ss.norm.logpdf(x, a, abs(b) + 1))
        cdf_check(rec, key + ': simulate', m.rng, lambda: m.simulate(-1, [7],
            None, dict(inp)), 7, lambda t: ss.norm.cdf(t, a, abs(b) + 1))
        if [set(s) for s in m.simulate(-1, [7], None, dict(inp), 3)] != \
                [{7}] * 3:
            rec.fail(key + ': count', 'N=3')
    m = TrollNormal([7], [9, 2], rng=CRng(1))
    for hist in itertools.product(['+1', '+2', '-1', '-2'], repeat=4):
        have = set()
        w = copy.deepcopy(m)
        for op in hist:
            r = int(op[1:])
            ok = (op[0] == '+') == (r not in have)
            e = mc.raises(w.incorporate, r, {7: 1.}, {9: 1., 2: 1.}) \
                if op[0] == '+' else mc.raises(w.unincorporate, r)
            rec.trans()
            if (e is None) != ok:
                rec.fail('troll rows', '%s: %r' % (hist, e))
                return
            if ok:
                have ^= {r}


def barebones(rec, quick):
    from cgpm.dummy.barebones import BareBonesCGpm
    m = BareBonesCGpm([3, 8, 1], [2])
    for k in range(1, 4):
        for t in itertools.permutations([3, 8, 1], k):
            rec.state(t)
            rec.trans(2)
            one = m.simulate(-1, list(t), None, {2: 1.})
            three = m.simulate(-1, list(t), None, {2: 1.}, 3)
            if set(one) != set(t) or len(three) != 3 or any(
                    set(s) != set(t) for s in three):
                rec.fail('barebones: targets', '%s: %s, %s' % (t, one, three))
                return
            three[0].clear()
            if any(set(s) != set(t) for s in three[1:]):
                rec.fail('barebones: shared', '%s' % (t,))
                return


def uniform(rec, quick):
    from cgpm.uncorrelated.uniformx import UniformX
    for low, high in ((0, 1), (-2., .5), (3, 7)):
        m = UniformX([6], low=low, high=high, rng=CRng(1))
        rec.state((low, high))
        for x in (low - .1, low + .01, (low + high) / 2., high - .01,
                high + .1):
            density_is(rec, 'uniform', float(m.logpdf(-1, {6: x})),
                -math.log(high - low) if low <= x <= high else -math.inf)
        cdf_check(rec, 'uniform: simulate', m.rng, lambda: m.simulate(-1,
            [6]), 6, lambda t: min(1, max(0, (t - low) / float(high - low))))


def box(rec, key, rng, fn, xs, ys, prob, grid, tol):
    """Joint draws against the probabilities of quadrants."""
    vals, coarser = paths(rec, rng, fn, grid)
    if vals is None:
        return
    tol *= coarser
    rec.eval(len(vals))
    rec.trans(len(vals))
    rec.trace(len(vals))
    for a in xs:
        for b in ys:
            got = sum(p for p, (x, y) in vals if x <= a and y <= b)
            if abs(got - prob(a, b)) > tol:
                rec.fail(key, 'P(x<=%.2f, y<=%.2f): %.4f, stated %.4f' % (a,
                    b, got, prob(a, b)))
                return


def pair(s, a, b):
    return s[a], s[b]


def directed(name):
    def run(rec, quick):
        import importlib
        mod = importlib.import_module('cgpm.uncorrelated.' + name)
        cls = getattr(mod, name.capitalize())
        D = {'sin': 1.5 * np.pi}.get(name, 1.)
        for noise in (.1, .4):
            for outs in ([6, 2], [0, 1]):
                a, b = outs
                key = '%s %s' % (name, noise)
                rec.state((noise, tuple(outs)))
                m = cls(outputs=list(outs), noise=noise, rng=CRng(1))
                if list(m.inputs) != []:
                    rec.fail(key + ': inputs', repr(m.inputs))

                def cond(x):
                    """Pieces (low, high, weight) of y given x."""
                    if name == 'sin':
                        c = math.cos(x)
                        return [(c, c + noise, 1.)] if c < 0 else \
                            [(c - noise, c, 1.)]
                    if name == 'parabola':
                        return [(x * x - noise, x * x + noise, .5),
                            (-x * x - noise, -x * x + noise, .5)]

                def dens(x, y):
                    if abs(x) > D:
                        return -math.inf
                    p = sum(w / (h - l) for l, h, w in cond(x) if l <= y <= h)
                    return math.log(p) if p else -math.inf

                def cdf(x):
                    if name == 'diamond':
                        # Smeared inwards from the two edges at x.
                        s = 1 - abs(x)
                        u = np.linspace(0, noise, 401)

                        def f(t):
                            up = np.mean(np.maximum(-s, s - u) <= t)
                            dn = np.mean(np.minimum(s, -s + u) <= t)
                            return (up + dn) / 2
                        return f
                    return lambda t: sum(w * min(1, max(0, (t - l) / (h -
                        l))) for l, h, w in cond(x))
                for x in (-.9, -.35, .2, .8, 1.4, 3.):
                    if abs(x) > D:
                        continue
                    cdf_check(rec, key + ': simulate y given x', m.rng,
                        lambda: m.simulate(-1, [b], {a: x}), b, cdf(x), 48,
                        .04)
                    if name == 'diamond':
                        continue
                    for y in (-.95, -.5, .02, .3, .9, x * x, -x * x,
                            math.cos(x) - .05, math.cos(x) + .05):
                        want = dens(x, y)
                        density_is(rec, key + ': y given x', float(m.logpdf(
                            -1, {b: y}, {a: x})), want)
                        density_is(rec, key + ': joint', float(m.logpdf(-1,
                            {a: x, b: y})), want - math.log(2 * D))
                    density_is(rec, key + ': x', float(m.logpdf(-1, {a: x})),
                        -math.log(2 * D))
                if name != 'diamond':
                    for x in (D + .2, -D - .2):
                        density_is(rec, key + ': outside', float(m.logpdf(-1,
                            {a: x})), -math.inf)
                cdf_check(rec, key + ': simulate x', m.rng, lambda:
                    m.simulate(-1, [a]), a, lambda t: min(1, max(0, (t + D) /
                    (2 * D))))
                xg = np.linspace(-D, D, 401)[:-1] + D / 400.

                def prob(s, t):
                    return np.mean([cdf(x)(t) if x <= s else 0. for x in xg])
                box(rec, key + ': simulate', m.rng, lambda:
                    pair(m.simulate(-1, [b, a]), a, b), np.linspace(-D, D, 5)[1:],
                    np.linspace(-1.2, 1.2, 7), prob, 24, .07)
                for N in (0, 1, 3):
                    got = m.simulate(-1, [a, b], N=N)
                    if len(got) != N or any(set(s) != {a, b} for s in got):
                        rec.fail(key + ': count', 'N=%d: %r' % (N, got))
                got = m.simulate(-1, [b], {a: .2}, None, 2)
                if len(got) != 2 or any(set(s) != {b} for s in got):
                    rec.fail(key + ': count given', repr(got))
                if quick:
                    break
    return run


def undirected(name):
    def run(rec, quick):
        import importlib
        mod = importlib.import_module('cgpm.uncorrelated.' + name)
        cls = getattr(mod, {'xcross': 'XCross'}.get(name, name.capitalize()))
        for noise in (.1, .35, .7):
            a, b = 6, 2
            key = '%s %s' % (name, noise)
            rec.state(noise)
            m = cls(outputs=[a, b], noise=noise, rng=CRng(1))
            c = 1 - noise
            mv = ss.multivariate_normal
            S, T = [[1, c], [c, 1]], [[1, -c], [-c, 1]]
            dots = [(x, y) for x in (-1, 1) for y in (-1, 1)]
            joint = {
                'linear': lambda x, y: mv.logpdf([x, y], [0, 0], S),
                'xcross': lambda x, y: math.log(.5 * mv.pdf([x, y], [0, 0], S)
                    + .5 * mv.pdf([x, y], [0, 0], T)),
                'dots': lambda x, y: ref_lse([math.log(.25) + ss.norm.logpdf(
                    x, p, noise) + ss.norm.logpdf(y, q, noise)
                    for p, q in dots])}.get(name)
            marg = {
                'linear': ss.norm.logpdf,
                'dots': lambda z: ref_lse([math.log(.5) + ss.norm.logpdf(z, p,
                    noise) for p in (-1, 1)])}.get(name)
            vals = (-1.4, -.6, .3, 1.1)
            for x, y in itertools.product(vals, repeat=2):
                if joint:
                    density_is(rec, key + ': joint', float(m.logpdf(-1,
                        {a: x, b: y})), joint(x, y))
                    density_is(rec, key + ': joint', float(m.logpdf(-1,
                        {b: y, a: x})), joint(x, y))
                if marg:
                    for q in (a, b):
                        density_is(rec, key + ': marginal', float(m.logpdf(-1,
                            {q: x})), float(marg(x)))
                    for p, q in ((a, b), (b, a)):
                        density_is(rec, key + ': conditional', float(m.logpdf(
                            -1, {p: x}, {q: y})), joint(x, y) - float(
                            marg(y)))
            if marg:
                cd = {'linear': lambda z: lambda t: ss.norm.cdf(t, c * z,
                    math.sqrt(1 - c * c)),
                    'dots': lambda z: lambda t: .5 * ss.norm.cdf(t, -1, noise)
                    + .5 * ss.norm.cdf(t, 1, noise)}[name]
                for z in vals:
                    for p, q in ((a, b), (b, a)):
                        if name == 'dots':
                            m.rng.grid = 12
                        cdf_check(rec, key + ': simulate conditional', m.rng,
                            lambda: m.simulate(-1, [p], {q: z}), p, cd(z),
                            48 if name == 'linear' else 20, .06)
            grid = {'dots': 20, 'xcross': 24}.get(name, 40)
            n = np.linspace(-1.6, 1.6, 7)
            if name == 'ring':
                u = (np.arange(200) + .5) / 200
                ang, dist = np.meshgrid(2 * np.pi * u, 1 - noise * u)
                px, py = np.cos(ang) * dist, np.sin(ang) * dist

                def prob(s, t):
                    return np.mean((px <= s) & (py <= t))
            elif name == 'dots':
                def prob(s, t):
                    return np.mean([ss.norm.cdf(s, p, noise) * ss.norm.cdf(t,
                        q, noise) for p, q in dots])
            else:
                covs = [S] if name == 'linear' else [S, T]

                def prob(s, t):
                    return np.mean([mv.cdf([s, t], [0, 0], k) for k in covs])
            box(rec, key + ': simulate', m.rng, lambda:
                    pair(m.simulate(-1, [b, a]), a, b), n, n, prob, grid, .05)
            for N in (0, 1, 3):
                got = m.simulate(-1, [a, b], N=N)
                if len(got) != N or any(set(s) != {a, b} for s in got):
                    rec.fail(key + ': count', 'N=%d: %r' % (N, got))
            for q in (a, b):
                got = m.simulate(-1, [q])
                if set(got) != {q}:
                    rec.fail(key + ': targets', '%s: %r' % (q, got))
    return run


TOYS = {'fourway': fourway, 'twoway': twoway, 'piecewise': piecewise,
    'troll': troll, 'barebones': barebones, 'uniform': uniform,
    'diamond': directed('diamond'), 'parabola': directed('parabola'),
    'sin': directed('sin'), 'linear': undirected('linear'),
    'ring': undirected('ring'), 'dots': undirected('dots'),
    'xcross': undirected('xcross')}


def run_case(case, rec):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    if 'toy' in case:
        TOYS[case['toy']](rec, case['quick'])
        rec.sample({'toy': case['toy']})
    elif 'reuse' in case:
        run_reuse(case, rec)
    elif 'refuse' in case:
        run_refusals(case, rec)
    elif 'weight' in case:
        run_weight(case, rec)
    else:
        run_history(case, rec)
