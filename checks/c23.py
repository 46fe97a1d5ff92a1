"""Gaussian models obey the laws of the normal distribution."""
import copy
import itertools
import math
from fractions import Fraction as F

import numpy as np

import gauss
import mc
import ref
from crng import CRng, distribution, explore

PID = 'C23'
RULE = ('every covariance, mean and point from small rational alphabets in 1 '
    'to 3 (4) dimensions and every split of the variables; factor models '
    'with 1 or 2 latent variables: every pair of disjoint sets of targets '
    'and constraints, every missing pattern of an observed row; regressions '
    'on every set of up to 3 rows; compared with exact rational arithmetic. '
    'Simulated values: exact moments over all random-choice paths')
ASSUMPTIONS = ['positive definite covariances, singular ones only in the '
    'evidence', 'a normal draw is replaced '
    'by its equiprobable quantile midpoints, for which moments are exact',
    'numerical tolerance 1e-7 relative']
NAN = float('nan')
GRIDN = 3


def cases(tier):
    quick = tier == 'quick'
    for n in (1, 2, 3):
        for i in range(len(list(roots(n, quick)))):
            yield {'id': 'mvn%d.%d' % (n, i), 'mvn': n, 'i': i,
                'quick': quick}
    for D, L in ((1, 1), (2, 1), (3, 1), (2, 2)) + (() if quick else ((4, 1),
            (3, 2), (4, 2))):
        for i in range(3):
            yield {'id': 'factor%d.%d.%d' % (D, L, i), 'factor': (D, L),
                'i': i, 'quick': quick}
    for i in range(4):
        yield {'id': 'factor history.%d' % i, 'fhist': i, 'quick': quick}
    for i in range(3):
        yield {'id': 'factor fit.%d' % i, 'fit': i, 'quick': quick}
    for i, kinds in enumerate(KINDS):
        for h in range(len(HYPERS)):
            yield {'id': 'linreg%d.%d' % (i, h), 'linreg': i, 'h': h,
                'quick': quick}


# ------------------------------------------------------------------ algebra
def roots(n, quick):
    """Small matrices A; the covariances are A A' + diag."""
    vals = [F(0), F(1), F(-1, 2)]
    low = [(i, j) for i in range(n) for j in range(i)]
    for k, c in enumerate(itertools.product(vals, repeat=len(low))):
        if n == 3 and quick and k % 3:
            continue
        A = [[F(int(i == j)) * (1 + F(i, 2)) for j in range(n)]
            for i in range(n)]
        for (i, j), v in zip(low, c):
            A[i][j] = v
        yield A


def arr(x):
    return np.array([[float(v) for v in r] for r in x]) if x and isinstance(
        x[0], list) else np.array([float(v) for v in x])


def close(a, b):
    return ref.close(float(a), float(b), 1e-7)


def same_arr(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-8)


def mvn(case, rec):
    from cgpm.utils import mvnormal
    n = case['mvn']
    A = list(roots(n, case['quick']))[case['i']]
    S = gauss.mul(A, gauss.tr(A))
    pts = [F(0), F(3, 2), F(-2)]
    for mu in itertools.product([F(0), F(-1, 2)], repeat=n):
        for scale in (F(1), F(1, 9)):
            C = [[v * scale for v in r] for r in S]
            for x in itertools.product(pts, repeat=n):
                if n == 3 and case['quick'] and sum(map(int, x)) % 2:
                    continue
                rec.eval()
                rec.trans()
                with rec.guard('logpdf'):
                    got = mvnormal.logpdf(arr(x), arr(mu), arr(C))
                    want = gauss.logpdf(x, mu, C)
                    if not close(got, want):
                        rec.fail('logpdf', 'density of %s under N(%s, %s) is '
                            '%r, expected %r' % (arr(x), arr(mu), arr(C),
                            got, want))
                        return
                # Every split.
                for r in range(1, n):
                    for Q in itertools.combinations(range(n), r):
                        E = [i for i in range(n) if i not in Q]
                        rec.eval()
                        m, c = gauss.condition(mu, C, Q, E, [x[i]
                            for i in E])
                        with rec.guard('conditional'):
                            gm, gc = mvnormal.conditional(arr([x[i]
                                for i in E]), arr([mu[i] for i in Q]),
                                arr([mu[i] for i in E]), arr(gauss.sub(C, Q,
                                Q)), arr(gauss.sub(C, Q, E)), arr(gauss.sub(
                                C, E, Q)), arr(gauss.sub(C, E, E)))
                            if not same_arr(gm, arr(m)) or not same_arr(gc,
                                    arr(c)):
                                rec.fail('conditional', 'variables %s given '
                                    '%s: %s, %s, expected %s, %s' % (Q, x,
                                    gm, gc, arr(m), arr(c)))
                                return
                        # Evidence that says the same thing twice has a
                        # singular covariance and changes nothing.
                        for dup in (E[0], E[-1]):
                            E2 = E + [dup]
                            rec.eval()
                            with rec.guard('singular evidence'):
                                gm, gc = mvnormal.conditional(arr([x[i]
                                    for i in E2]), arr([mu[i] for i in Q]),
                                    arr([mu[i] for i in E2]), arr(gauss.sub(
                                    C, Q, Q)), arr(gauss.sub(C, Q, E2)),
                                    arr(gauss.sub(C, E2, Q)), arr(gauss.sub(
                                    C, E2, E2)))
                                if not np.allclose(gm, arr(m), atol=1e-6) \
                                        or not np.allclose(gc, arr(c),
                                        atol=1e-6):
                                    rec.fail('singular evidence', 'variables '
                                        '%s given %s with variable %d twice: '
                                        '%s, %s, expected %s, %s' % (Q, x,
                                        dup, gm, gc, arr(m), arr(c)))
                                    return
                if sum(map(abs, x)) > 4:
                    continue
                # Derivatives along every direction of the parameters.
                dirs = [[int(i == j) + (j == 0) for j in range(n)]
                    for i in range(n)]
                sdirs = [[[int({a, b} == {i, j}) for b in range(n)]
                    for a in range(n)] for i in range(n)
                    for j in range(i + 1)]
                with rec.guard('dlogpdf'):
                    gx, gm, gs = mvnormal.dlogpdf(arr(x), [np.array(d,
                        dtype=float) for d in dirs], arr(mu), [np.array(d,
                        dtype=float) for d in dirs], arr(C), [np.array(d,
                        dtype=float) for d in sdirs])
                    want = [[], [], []]
                    for d in dirs:
                        dx = [gauss.Dual(v, e) for v, e in zip(x, d)]
                        want[0].append(dlog(dx, mu, C))
                        dm = [gauss.Dual(v, e) for v, e in zip(mu, d)]
                        want[1].append(dlog(x, dm, C))
                    for d in sdirs:
                        dc = [[gauss.Dual(v, e) for v, e in zip(r, f)]
                            for r, f in zip(C, d)]
                        want[2].append(dlog(x, mu, dc))
                    rec.eval(3)
                    for name, a, b in zip(('point', 'mean', 'covariance'),
                            (gx, gm, gs), want):
                        if not same_arr(a, b):
                            rec.fail('dlogpdf', 'derivative of the density '
                                'of %s under N(%s, %s) in the %s: %s, '
                                'expected %s' % (arr(x), arr(mu), arr(C),
                                name, a, b))
                            return
        rec.state((n, case['i'], mu))


def dlog(x, mu, S):
    q, det = gauss.quad(x, mu, [[gauss.Dual.of(v) for v in r] for r in S])
    q, det = gauss.Dual.of(q), gauss.Dual.of(det)
    return float(-(q.b + det.b / det.a) / 2)


# ------------------------------------------------------------- factor model
def params(D, L, i):
    W = [[F((3 * a + 2 * b + i) % 4 - 1) / (1 + b) for b in range(L)]
        for a in range(D)]
    if i == 2:
        W[0] = [F(0)] * L
    Psi = [F(1 + (a + i) % 3, 2) for a in range(D)]
    mux = [F(a * (-1) ** a, 2) + i for a in range(D)]
    return W, Psi, mux


OUTS = [6, 3, 9, 1]
LATENT = [4, 12]


def law(D, L, i):
    """Mean and covariance over the outputs, in their order."""
    W, Psi, mux = params(D, L, i)
    WW = gauss.mul(W, gauss.tr(W))
    n = D + L
    S = [[F(0)] * n for _ in range(n)]
    for a in range(D):
        for b in range(D):
            S[a][b] = WW[a][b] + (Psi[a] if a == b else 0)
        for z in range(L):
            S[a][D + z] = S[D + z][a] = W[a][z]
    for z in range(L):
        S[D + z][D + z] = F(1)
    return list(mux) + [F(0)] * L, S


def model(D, L, i, rng):
    from cgpm.factor.factor import FactorAnalysis
    W, Psi, mux = params(D, L, i)
    return FactorAnalysis(OUTS[:D] + LATENT[:L], None, L=L, params={
        'W': arr(W), 'Psi': np.diag([float(p) for p in Psi]), 'mux': arr(
        mux)}, rng=rng)


def var_g():
    """Variance of a discretised standard normal."""
    from scipy.special import ndtri
    q = [ndtri((j + .5) / GRIDN) for j in range(GRIDN)]
    return math.fsum(x * x for x in q) / GRIDN


def moments(rng, fn, names, rec):
    """Exact mean and covariance of simulated values."""
    m, c, n = {}, {}, 0
    for p, r, _c in explore(rng, fn, 100000):
        n += 1
        for a in names:
            m[a] = m.get(a, 0.) + p * r[a]
            for b in names:
                c[a, b] = c.get((a, b), 0.) + p * r[a] * r[b]
    rec.trace(n)
    return [m[a] for a in names], [[c[a, b] - m[a] * m[b] for b in names]
        for a in names]


def factor(case, rec):
    (D, L), i = case['factor'], case['i']
    rng = CRng(1, grid=GRIDN)
    fa = model(D, L, i, rng)
    mu, S = law(D, L, i)
    outs = OUTS[:D] + LATENT[:L]
    ix = {o: k for k, o in enumerate(outs)}
    # Observed rows with every missing pattern.
    vals = [F(1), F(-1, 2), F(2), F(0)]
    rows = {-1: {}}
    with rec.guard('incorporate'):
        for k, miss in enumerate(itertools.product((0, 1), repeat=D)):
            x = {o: vals[(j + k) % 4] for j, (o, b) in enumerate(zip(outs,
                miss)) if not b}
            if x:
                rows[20 - k] = x
                # A missing cell is left out or not a number.
                given = {o: float(v) for o, v in x.items()}
                if k % 2:
                    given.update({o: NAN for o in outs[:D] if o not in x})
                fa.incorporate(20 - k, given)
    score = math.fsum(gauss.logpdf([x[o] for o in x], [mu[ix[o]] for o in x],
        gauss.sub(S, [ix[o] for o in x], [ix[o] for o in x]))
        for x in rows.values())
    with rec.guard('score'):
        rec.eval()
        got = fa.logpdf_score()
        if not close(got, score):
            rec.fail('score', 'score of %d rows is %r, expected %r' % (len(
                rows) - 1, got, score))
    vg = var_g()
    count = 0
    for r, row in rows.items():
        for role in itertools.product((0, 1, 2), repeat=D + L):
            T = [o for o, x in zip(outs, role) if x == 1]
            E = [o for o, x in zip(outs, role) if x == 2]
            if not T:
                continue
            count += 1
            if r != -1 and (count * 7 + r) % (5 if case['quick'] else 2):
                continue
            if count % 2:
                # The order of the variables does not matter.
                T, E = T[::-1], E[::-1]
            tv = {o: vals[(ix[o] + count) % 4] for o in T}
            ev = {o: vals[(ix[o] + count // 2) % 4] for o in E}
            full = dict(ev)
            for o, v in row.items():
                if o not in tv and o not in ev:
                    full[o] = v
            G = list(full)
            m, C = gauss.condition(mu, S, [ix[o] for o in T], [ix[o]
                for o in G], [full[o] for o in G])
            want = gauss.logpdf([tv[o] for o in T], m, C)
            what = 'row %d %s: %s given %s' % (r, {o: float(v) for o, v in
                row.items()}, {o: float(v) for o, v in tv.items()}, {
                o: float(v) for o, v in ev.items()})
            cons = {o: float(v) for o, v in ev.items()}
            rec.eval()
            rec.trans()
            rec.state((D, L, i, r, role))
            with rec.guard('factor logpdf'):
                got = fa.logpdf(r, {o: float(v) for o, v in tv.items()}, cons
                    if cons or count % 3 else None)
                if not close(got, want):
                    rec.fail('factor logpdf', '%s: %r, expected %r' % (what,
                        got, want))
                    return
            if len(T) > 3 or count % 2 and case['quick'] and len(T) > 1:
                continue
            with rec.guard('factor simulate'):
                sm, sc = moments(rng, lambda: fa.simulate(r, list(T), cons),
                    T, rec)
                want_c = [[float(v) * vg for v in q] for q in C]
                if not same_arr(sm, arr(m)) or not same_arr(sc, want_c):
                    rec.fail('factor simulate', '%s: mean %s, covariance/%g '
                        '%s, expected %s, %s' % (what, sm, vg, sc, arr(m),
                        want_c))
                    return
            if count % 11 == 0:
                with rec.guard('factor samples'):
                    rng.base.seed(4)
                    for N in (0, 1, 2, 5):
                        s = fa.simulate(r, list(T), cons, None, N)
                        rec.eval()
                        if len(s) != N or any(set(x) != set(T) for x in s):
                            rec.fail('factor samples', '%s: %d samples are '
                                '%s' % (what, N, s))
                            return
                        if N > 1 and all(x == s[0] for x in s):
                            rec.fail('factor samples', 'samples repeat')
                            return
    refusals(rec, fa, D, L)


def refusals(rec, fa, D, L):
    o, z = OUTS[0], LATENT[0]
    before = dict(fa.data)
    for what, f in [
            ('latent cell', lambda: fa.incorporate(50, {o: 1., z: 1.})),
            ('unknown cell', lambda: fa.incorporate(50, {77: 1.})),
            ('no cell', lambda: fa.incorporate(50, {})),
            ('inputs', lambda: fa.incorporate(50, {o: 1.}, {2: 1.})),
            ('same row', lambda: fa.incorporate(20, {o: 1.})),
            ('no row', lambda: fa.unincorporate(51)),
            ('no target', lambda: fa.logpdf(-1, {})),
            ('unknown target', lambda: fa.logpdf(-1, {77: 1.})),
            ('overlap', lambda: fa.logpdf(-1, {o: 1.}, {o: 1.})),
            ('input', lambda: fa.logpdf(-1, {o: 1.}, None, {2: 1.})),
            ('no target', lambda: fa.simulate(-1, [])),
            ('unknown target', lambda: fa.simulate(-1, [77])),
            ('overlap', lambda: fa.simulate(-1, [z], {z: 1.})),
            ('input', lambda: fa.simulate(-1, [o], None, {2: 1.}))]:
        rec.eval()
        x = mc.raises(f)
        if not isinstance(x, ValueError) or dict(fa.data) != before:
            rec.fail('factor refusal %s' % what, '%s gave %r' % (what, x))


def fhist(case, rec):
    """Histories of adding and removing rows."""
    D, L = 2, 1
    mu, S = law(D, L, 1)
    ix = {o: k for k, o in enumerate(OUTS[:D] + LATENT[:L])}
    cells = [{6: F(1), 3: F(2)}, {3: F(-1, 2)}, {6: F(0)}]
    ops = [('add', r, k) for r in (0, 1, 5) for k in range(3)] + [('del', r)
        for r in (0, 1, 5)]
    depth = 4 if case['quick'] else 5
    rng = CRng(1)

    def go(fa, rows, hist, d):
        rec.state(tuple(sorted((r, tuple(sorted(x.items())))
            for r, x in rows.items())))
        rec.eval()
        want = math.fsum(gauss.logpdf([x[o] for o in x], [mu[ix[o]]
            for o in x], gauss.sub(S, [ix[o] for o in x], [ix[o]
            for o in x])) for x in rows.values())
        with rec.guard('factor history'):
            n = fa.to_metadata()['N']
            if n != len(rows):
                rec.fail('factor history', 'after %s the model counts %r '
                    'rows, expected %d' % (hist, n, len(rows)))
                return False
            got = fa.logpdf_score()
            if not close(got, want):
                rec.fail('factor history', 'after %s the score is %r, '
                    'expected %r' % (hist, got, want))
                return False
            for r in (0, 1, 5):
                x = rows.get(r, {})
                m, C = gauss.condition(mu, S, [2], [ix[o] for o in x],
                    list(x.values()))
                w = gauss.logpdf([F(1)], m, C)
                g = fa.logpdf(r, {LATENT[0]: 1.})
                rec.eval()
                if not close(g, w):
                    rec.fail('factor history', 'after %s the latent of row '
                        '%d has density %r, expected %r' % (hist, r, g, w))
                    return False
        if not d:
            return True
        for j, op in enumerate(ops):
            if not hist and j % 4 != case['fhist']:
                continue
            ok = (op[1] in rows) == (op[0] == 'del')
            f = copy.deepcopy(fa)
            new = dict(rows)
            rec.trans()
            if op[0] == 'add':
                x = mc.raises(f.incorporate, op[1], {o: float(v)
                    for o, v in cells[op[2]].items()})
                new[op[1]] = cells[op[2]]
            else:
                x = mc.raises(f.unincorporate, op[1])
                new.pop(op[1], None)
            if (x is None) != ok:
                rec.fail('factor history', '%s after %s: %r' % (op, hist, x))
                return False
            if ok and not go(f, new, hist + [op], d - 1):
                return False
        return True
    # Serial part: start empty, or with a row.
    fa = model(D, L, 1, rng)
    go(fa, {}, [], depth)


def fit(case, rec):
    """After inference: the mean and the variances of the complete rows."""
    data = [
        [[0., 1., 2.], [1., 2.5, 0.], [3., 4., -1.], [2., 2., .5], [-1., 0.,
            1.]],
        [[0., 1., 2.], [1., NAN, 0.], [3., 4., -1.], [2., 2., .5], [-1., 0.,
            1.], [.5, 1.5, NAN], [1., 1., 1.]],
        [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [1., 1., 1.], [2., 0.,
            -1.]]]
    X = data[case['fit']]
    n = len(X)
    for perm in itertools.islice(itertools.permutations(range(n)), 0, None,
            17 if case['quick'] else 3):
        fa = model(3, 1, 0, CRng(1))
        rows = [X[i] for i in perm]
        with rec.guard('fit'):
            for r, x in enumerate(rows):
                fa.incorporate(r * 3, {o: v for o, v in zip(OUTS, x)
                    if v == v})
            fa.transition()
            rec.trans()
            rec.eval()
            rec.state((case['fit'], perm))
            done = np.array([x for x in rows if all(v == v for v in x)])
            m, v = done.mean(axis=0), done.var(axis=0)
            # Read the parameters off the densities.
            for j, o in enumerate(OUTS[:3]):
                # The iterations stop before the variance is exact.
                g0, g1, g2 = [fa.logpdf(-1, {o: m[j] + t})
                    for t in (0., 1., -1.)]
                u = math.exp(-2 * g0) / (2 * math.pi)
                rec.eval(3)
                if not close(g1, g2) or not close(g1, g0 - .5 / u) or abs(u
                        - v[j]) > .05 * v[j]:
                    rec.fail('fit', 'rows %s: densities of %s around the '
                        'mean %s are %s, expected variance %s' % (rows, o,
                        m[j], (g2, g0, g1), v[j]))
                    return
            g = fa.logpdf(-1, {LATENT[0]: .4})
            if not close(g, -.5 * (.16 + math.log(2 * math.pi))):
                rec.fail('fit', 'the latent variable is not standard normal')
                return


# --------------------------------------------------------------- regression
KINDS = [['numerical'], ['numerical', 'numerical'], [2], ['numerical', 3],
    [2, 'numerical'], ['numerical', 2, 'numerical']]
HYPERS = [None, {'a': 2.5, 'b': .5}, 'full', 'skew']


def reg_hypers(h, p):
    h = HYPERS[h]
    if h in ('full', 'skew'):
        V = [[F(int(i == j)) * (1 + F(i, 2)) for j in range(p)]
            for i in range(p)]
        if h == 'skew':
            for i in range(1, p):
                V[0][i] = V[i][0] = F(1, 4)
        return F(3, 2), F(2), [F(i + 1, 2) * (-1) ** i for i in range(p)], V
    h = h or {}
    return F(h.get('a', 1)), F(h.get('b', 1)), [F(0)] * p, [[F(int(i == j))
        for j in range(p)] for i in range(p)]


def code(kinds, x):
    """Bias, then each input, with categories as indicators."""
    nums = []
    for k, v in zip(kinds, x):
        if k == 'numerical':
            nums.append([F(v)])
        else:
            nums.append([F(int(int(v) == c)) for c in range(k)])
    return nums


def design(kinds, x):
    return [F(1)] + [v for part in code(kinds, x) for v in part]


def student(a, b, mu, V, rows, xs, y):
    """Predictive density and the posterior, in exact arithmetic."""
    an, bn, m, P = posterior(a, b, mu, V, rows)
    loc = gauss.dot(xs, m)
    sol, _d = gauss.solve(P, [[v] for v in xs])
    s = 1 + gauss.dot(xs, [r[0] for r in sol])
    # Student t with 2an degrees, scale^2 = bn s/an.
    nu, z = 2 * float(an), float((y - loc) ** 2 / (bn * s))
    lp = math.lgamma(nu / 2 + .5) - math.lgamma(nu / 2) - .5 * math.log(
        2 * math.pi * float(bn * s)) - (nu / 2 + .5) * math.log1p(z / 2)
    return lp, loc, s, an, bn, m, P


def posterior(a, b, mu, V, rows):
    p = len(mu)
    I = [[F(int(i == j)) for j in range(p)] for i in range(p)]
    Vi, _d = gauss.solve(V, I)
    P = [list(r) for r in Vi]
    h = [gauss.dot(r, mu) for r in Vi]
    q = gauss.dot(mu, h)
    for x, y in rows:
        for i in range(p):
            h[i] += x[i] * y
            for j in range(p):
                P[i][j] += x[i] * x[j]
        q += y * y
    sol, _d = gauss.solve(P, [[v] for v in h])
    m = [r[0] for r in sol]
    bn = b + (q - gauss.dot(m, h)) / 2
    return a + F(len(rows), 2), bn, m, P


def reg_model(kinds, h, p, rng):
    from cgpm.regressions.linreg import LinearRegression
    hyp = None
    if HYPERS[h] is not None:
        a, b, mu, V = reg_hypers(h, p)
        hyp = {'a': float(a), 'b': float(b)}
        if isinstance(HYPERS[h], str):
            hyp.update(mu=arr(mu), V=arr(V))
    inputs = [7, 2, 5][:len(kinds)]
    return LinearRegression([1], inputs, hypers=hyp, distargs={'inputs': {
        'stattypes': [k if isinstance(k, str) else 'categorical'
            for k in kinds], 'statargs': [None if isinstance(k, str) else {
            'k': k} for k in kinds]}}, rng=rng), inputs


def linreg(case, rec):
    kinds, h = KINDS[case['linreg']], case['h']
    rng = CRng(1, grid=3)
    # Every category has an indicator.
    p = 1 + sum(1 if k == 'numerical' else k for k in kinds)
    a, b, mu, V = reg_hypers(h, p)
    with rec.guard('linreg build'):
        m0, inputs = reg_model(kinds, h, p, rng)
    alphabet = list(itertools.product(*[[F(1, 2), F(-1)] if k == 'numerical'
        else list(range(k)) for k in kinds]))
    ys = [F(1), F(-3, 2), F(0)]
    cells = [(x, ys[(i + j) % 3]) for i, x in enumerate(alphabet)
        for j in range(2)][:6 if case['quick'] else 12]
    vg = var_g()
    for r in range(0, 4):
        for rows in itertools.permutations(range(len(cells)), r):
            order = sorted(rows)
            if r == 3 and (sum(rows) % (4 if case['quick'] else 2)):
                continue
            if r == 2 and case['quick'] and list(rows) != order and sum(
                    rows) % 2:
                continue
            m = copy.deepcopy(m0)
            what = 'inputs %s, hypers %s, rows %s' % (kinds, HYPERS[h], [
                ([float(v) for v in cells[k][0]], float(cells[k][1]))
                for k in rows])
            D = [(design(kinds, cells[k][0]), cells[k][1]) for k in rows]
            total = 0.
            with rec.guard('linreg'):
                for n, k in enumerate(rows):
                    x, y = cells[k]
                    inp = {i: float(v) for i, v in zip(inputs, x)}
                    w = student(a, b, mu, V, D[:n], D[n][0], y)[0]
                    g = m.logpdf(-1, {1: float(y)}, None, inp)
                    total += w
                    rec.eval()
                    if not close(g, w):
                        rec.fail('linreg predictive', '%s: predictive of row '
                            '%d is %r, expected %r' % (what, n, g, w))
                        return
                    m.incorporate(10 - n, {1: float(y)}, dict(inp))
                    rec.trans()
                g = m.logpdf_score()
                rec.eval()
                if not close(g, total):
                    rec.fail('linreg score', '%s: score %r, expected %r' % (
                        what, g, total))
                    return
                rec.state((case['linreg'], h, tuple(order)))
                # One row taken out again.
                if rows:
                    n = sum(rows) % r
                    q = copy.deepcopy(m)
                    q.unincorporate(10 - n)
                    w = posterior_score(a, b, mu, V, D[:n] + D[n + 1:])
                    g = q.logpdf_score()
                    rec.trans()
                    rec.eval()
                    if not close(g, w):
                        rec.fail('linreg unincorporate', '%s: without row %d '
                            'the score is %r, expected %r' % (what, n, g, w))
                        return
                    got = m.simulate(10 - n, [1], None, {i: 0. for i in
                        inputs})
                    if float(got[1]) != float(D[n][1]):
                        rec.fail('linreg observed', '%s: an observed row is '
                            'simulated as %s' % (what, got))
                        return
                if rows and list(rows) != order:
                    continue
                if p > 4 and (case['quick'] or r > 1) or r > 2:
                    continue
                # Moments of simulated values.
                x = alphabet[(r + len(rows)) % len(alphabet)]
                inp = {i: float(v) for i, v in zip(inputs, x)}
                xs = design(kinds, x)
                _l, loc, s, an, bn, mm, P = student(a, b, mu, V, D, xs, F(0))
                sm, sc = moments(rng, lambda: m.simulate(-1, [1], None, dict(
                    inp)), [1], rec)
                rec.eval()
                from scipy.special import gammaincinv
                es = math.fsum(float(bn) / gammaincinv(float(an), (j + .5)
                    / GRIDN) for j in range(GRIDN)) / GRIDN
                if not same_arr(sm, [float(loc)]) or not same_arr(sc, [[
                        es * vg * float(s)]]):
                    rec.fail('linreg simulate', '%s: simulated at %s with '
                        'mean %s and variance %s, expected %s and %s' % (what,
                        inp, sm, sc, float(loc), es * vg * float(s)))
                    return
                if r != 1 and (r != 2 or case['quick'] and sum(rows) % 3):
                    continue
                # The same model later: a row name used again for another
                # row, then other hyperparameters.
                n = sum(rows) % r
                k2 = next(k for k in range(len(cells)) if k not in rows)
                D2 = D[:n] + D[n + 1:] + [(design(kinds, cells[k2][0]),
                    cells[k2][1])]
                m.unincorporate(10 - n)
                m.incorporate(10 - n, {1: float(cells[k2][1])}, {i: float(v)
                    for i, v in zip(inputs, cells[k2][0])})
                rec.trans(2)
                for a2, b2 in ((a, b), (a * 2, b + 1)):
                    m.set_hypers({'a': float(a2), 'b': float(b2)})
                    got = [m.logpdf_score(), m.logpdf(-1, {1: .5}, None, dict(
                        inp))]
                    lp, loc, s, an, bn, _m, _P = student(a2, b2, mu, V, D2,
                        xs, F(1, 2))
                    want = [posterior_score(a2, b2, mu, V, D2), lp]
                    sm, sc = moments(rng, lambda: m.simulate(-1, [1], None,
                        dict(inp)), [1], rec)
                    es = math.fsum(float(bn) / gammaincinv(float(an), (j + .5)
                        / GRIDN) for j in range(GRIDN)) / GRIDN
                    got += [sm[0], sc[0][0]]
                    want += [float(loc), es * vg * float(s)]
                    rec.eval(4)
                    if not all(close(g, w) or abs(g - w) < 1e-8
                            for g, w in zip(got, want)):
                        rec.fail('linreg later', '%s, then row %d replaced '
                            'by %s and hyperparameters %s, %s: score, density'
                            ', mean and variance %s, expected %s' % (what, n,
                            k2, float(a2), float(b2), got, want))
                        return
    # Refusals.
    m = copy.deepcopy(m0)
    inp = {i: 0. for i in inputs}
    for what, f in [
            ('missing input', lambda: m.logpdf(-1, {1: 1.}, None, dict(list(
                inp.items())[1:]))),
            ('extra input', lambda: m.logpdf(-1, {1: 1.}, None, dict(inp)
                | {77: 1.})),
            ('missing input', lambda: m.incorporate(0, {1: 1.}, dict(list(
                inp.items())[1:]))),
            ('no output', lambda: m.incorporate(0, {}, inp)),
            ('nan', lambda: m.incorporate(0, {1: NAN}, inp)),
            ('output as input', lambda: m.incorporate(0, {1: 1.}, dict(inp)
                | {1: 1.})),
            ('no row', lambda: m.unincorporate(4))]:
        rec.eval()
        x = mc.raises(f)
        if not isinstance(x, ValueError) or m.logpdf_score() != 0:
            rec.fail('linreg refusal %s' % what, '%s gave %r' % (what, x))


def posterior_score(a, b, mu, V, D):
    return math.fsum(student(a, b, mu, V, D[:n], D[n][0], D[n][1])[0]
        for n in range(len(D)))


def run_case(case, rec):
    for k, f in (('mvn', mvn), ('factor', factor), ('fhist', fhist), ('fit',
            fit), ('linreg', linreg)):
        if k in case:
            return f(case, rec)
