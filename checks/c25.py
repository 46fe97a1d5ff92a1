"""Nearest neighbour and kernel models follow their definitions."""
import itertools
import math

import numpy as np
import scipy.special as sp

import mc
import ref
from crng import CRng, TooManyPaths, distribution as _distribution

PID = 'C25'
RULE = ('all small data sets over an alphabet with ties, missing cells and '
    'numerical and categorical columns x neighbour counts x bandwidths: every '
    'target/constraint split, fresh and recorded rows, exact densities and '
    'exact sampling laws over all random paths; all record/forget/fit '
    'histories up to the depth, with and without queries in between; all '
    'refusals')
ASSUMPTIONS = ['normal draws are discretised to 5 equiprobable quantiles',
    'if rows are equally far from a neighbour, any of them may be in its '
    'locality']
NAN = float('nan')
OUTS = [[0, 1], [7, 3]]
GRID = [(j + .5) / 5 for j in range(5)]
PPF = [float(sp.ndtri(q)) for q in GRID]

# Alphabets of the columns: n numerical, c categorical(3), C categorical(2),
# w nominal(4)
CELLS = {'n': [0., 1., 3.], 'm': [-1., 0., 2.], 'c': [0., 1., 2.],
    'C': [0., 1.], 'w': [0., 2., 3.]}
LEVELS = {'c': 3, 'C': 2, 'w': 4}
TYPES = {'n': 'numerical', 'm': 'numerical', 'c': 'categorical',
    'C': 'categorical', 'w': 'nominal'}


def args(kinds):
    return {'outputs': {'stattypes': [TYPES[k] for k in kinds],
        'statargs': [{'k': LEVELS[k]} if k in LEVELS else {}
            for k in kinds]}}


def knn(kinds, outs, K, M, rng):
    from cgpm.knn.mvknn import MultivariateKnn
    return MultivariateKnn(list(outs), None, K=K, M=M, distargs=args(kinds),
        rng=rng)


def kde(kinds, outs, bw, rng):
    from cgpm.kde.mvkde import MultivariateKde
    return MultivariateKde(list(outs), None, distargs=args(kinds),
        params={'bw': list(bw)} if bw else None, rng=rng)


def load(g, outs, rows, ids=None):
    for i, r in enumerate(rows):
        g.incorporate(ids[i] if ids else i,
            {o: x for o, x in zip(outs, r) if x == x})
    return g


MAX_PATHS = 1200


def distribution(rng, f, key=lambda r: r, rec=None):
    return _distribution(rng, f, key=key, rec=rec, max_paths=MAX_PATHS)


# ----------------------------------------------------------------- oracles
def embed(row, kinds):
    out = []
    for x, k in zip(row, kinds):
        if k in LEVELS:
            out += [1. if x == j else 0. for j in range(LEVELS[k] - 1)]
        else:
            out.append(x)
    return out


def dist2(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def nearest_sets(points, q, K):
    """All sets of K nearest points (indices), equally likely."""
    d = [dist2(p, q) for p in points]
    r = sorted(d)[K - 1]
    near = [i for i in range(len(d)) if d[i] < r]
    ties = [i for i in range(len(d)) if d[i] == r]
    return [near + list(t)
        for t in itertools.combinations(ties, K - len(near))]


class Knn(object):
    """Documented algorithm on the rows recorded."""

    def __init__(self, kinds, rows, K, M):
        self.kinds, self.rows, self.K = kinds, rows, K
        self.M = M or K

    def models(self, targets, cons):
        """[(probability, [possible localities of every neighbour])];
        None if there are too few rows."""
        cols = targets + sorted(cons)
        D = [r for r in self.rows if all(r[c] == r[c] for c in cols)]
        if len(D) < self.K:
            return None
        ck = [self.kinds[c] for c in sorted(cons)]
        ev = [embed([r[c] for c in sorted(cons)], ck) for r in D]
        full = [embed([r[c] for c in cols], [self.kinds[c] for c in cols])
            for r in D]
        q = embed([cons[c] for c in sorted(cons)], ck)
        sets = nearest_sets(ev, q, self.K)
        M = min(self.M, len(D))
        out = []
        for s in sets:
            locs = []
            for i in s:
                opts = nearest_sets(full, full[i], M)
                data = {tuple(sorted(tuple(D[j][c] for c in targets)
                    for j in o)) for o in opts}
                locs.append(sorted(data))
            out.append((1. / len(sets), locs))
        return out

    def density(self, loc, targets, x):
        out = 0.
        for i, c in enumerate(targets):
            vals = [r[i] for r in loc]
            out += local_logpdf(self.kinds[c], vals, x[c])
        return out

    def logpdf(self, targets, x, cons):
        """[(probability, set of possible values)], or None."""
        ms = self.models(targets, cons)
        if ms is None:
            return None
        out = []
        for p, locs in ms:
            sums = {0.}
            for opts in locs:
                ds = {math.exp(self.density(o, targets, x)) for o in opts}
                sums = {s + d for s in sums for d in ds}
            out.append((p, {s / len(locs) for s in sums}))
        return out

    def sample_law(self, targets, cons):
        """Exact law of one sample; None: too few; False: ambiguous."""
        if not cons:
            return self.fallback_law(targets)
        ms = self.models(targets, cons)
        if ms is None:
            return None
        out = {}
        for p, locs in ms:
            for opts in locs:
                if len(opts) > 1:
                    return False
                for q, s in local_law(self.kinds, targets, opts[0]):
                    out[s] = out.get(s, 0.) + p * q / len(locs)
        return out

    def fallback_law(self, targets):
        others = [c for c in range(len(self.kinds)) if c not in targets]
        given = others or targets[:1]
        rest = targets if others else targets[1:]
        D = [r for r in self.rows if all(r[c] == r[c] for c in given)]
        if not D or len(self.rows) < self.K:
            return None
        out = {}
        for r in D:
            law = self.sample_law(rest, {c: r[c] for c in given})
            if not law:
                return law
            for s, p in law.items():
                s = dict(s)
                if not others:
                    s[targets[0]] = key(r[targets[0]])
                s = tuple(sorted(s.items()))
                out[s] = out.get(s, 0.) + p / len(D)
        return out


def key(x):
    return round(float(x), 6) + 0.


def std(vals):
    m = math.fsum(vals) / len(vals)
    return m, max(math.sqrt(math.fsum((v - m) ** 2 for v in vals)
        / len(vals)), .01)


def local_logpdf(kind, vals, x):
    if kind in LEVELS:
        n = sum(1 for v in vals if v == x)
        return math.log(n / len(vals)) if n else -math.inf
    m, s = std(vals)
    return -.5 * ((x - m) / s) ** 2 - math.log(s) - .5 * math.log(2*math.pi)


def local_law(kinds, targets, loc):
    parts = []
    for i, c in enumerate(targets):
        vals = [r[i] for r in loc]
        if kinds[c] in LEVELS:
            parts.append([((c, key(v)), vals.count(v) / len(vals))
                for v in sorted(set(vals))])
        else:
            m, s = std(vals)
            parts.append([((c, key(m + s * z)), .2) for z in PPF])
    for combo in itertools.product(*parts):
        yield (math.prod(p for _, p in combo),
            tuple(sorted(v for v, _ in combo)))


class Kde(object):
    def __init__(self, kinds, rows, bw):
        self.kinds, self.rows, self.bw = kinds, rows, bw

    def kern(self, c, x, xi):
        k, h = self.kinds[c], self.bw[c]
        if k in LEVELS:
            if not (x in range(LEVELS[k])):
                return 0.
            return 1 - h if x == xi else h / (LEVELS[k] - 1)
        return math.exp(-.5 * ((x - xi) / h) ** 2) / h / math.sqrt(2*math.pi)

    def members(self, cols):
        return [r for r in self.rows if all(r[c] == r[c] for c in cols)]

    def logpdf(self, targets, x, cons):
        D = self.members(list(targets) + list(cons))
        w = [math.prod(self.kern(c, cons[c], r[c]) for c in cons) for r in D]
        if not D or not math.fsum(w):
            return None
        d = math.fsum(a * math.prod(self.kern(c, x[c], r[c])
            for c in targets) for a, r in zip(w, D))
        return math.log(d / math.fsum(w)) if d > 0 else -math.inf

    def sample_law(self, targets, cons):
        D = self.members(list(targets) + list(cons))
        w = [math.prod(self.kern(c, cons[c], r[c]) for c in cons) for r in D]
        if not D or not math.fsum(w):
            return None
        out = {}
        for a, r in zip(w, D):
            parts = []
            for c in targets:
                if self.kinds[c] in LEVELS:
                    parts.append([((c, key(v)), self.kern(c, v, r[c]))
                        for v in range(LEVELS[self.kinds[c]])])
                else:
                    parts.append([((c, key(r[c] + self.bw[c] * z)), .2)
                        for z in PPF])
            for combo in itertools.product(*parts):
                s = tuple(sorted(v for v, _ in combo))
                p = math.prod(q for _, q in combo)
                if p:
                    out[s] = out.get(s, 0.) + p * a / math.fsum(w)
        return out


# ------------------------------------------------------------------- cases
def rows_of(kinds, missing=True):
    cells = [CELLS[k] + ([NAN] if missing else []) for k in kinds]
    return [r for r in itertools.product(*cells)
        if any(x == x for x in r)]


def datasets(kinds, n, missing=True):
    return itertools.combinations_with_replacement(
        rows_of(kinds, missing), n)


KM = [(1, None), (1, 2), (1, 3), (2, None), (2, 1), (2, 3), (3, None),
    (3, 2)]


def cases(tier):
    quick = tier == 'quick'
    # model, kinds, rows, missing, one data set in so many
    plan = [('nc', 3, 1, 24, 1), ('nC', 4, 0, 12, 1), ('nm', 3, 1, 30, 2),
        ('cC', 3, 1, 10, 1), ('ncC', 3, 0, 60, 3), ('wn', 3, 0, 4, 1),
        ('nmC', 4, 0, 1500, 60), ('cn', 5, 0, 150, 6)]
    for kinds, n, miss, sq, st in plan:
        parts = 6 if quick else 24
        for j in range(parts):
            yield {'id': 'knn-%s%d.%d' % (kinds, n, j), 'knn': kinds,
                'n': n, 'missing': miss, 'step': sq if quick else st,
                'part': (j, parts), 'quick': quick}
    plan = [('n', 2, 0, 1, 1), ('c', 2, 0, 1, 1), ('nc', 2, 1, 3, 1),
        ('nC', 3, 0, 4, 1), ('cC', 3, 1, 8, 1), ('nm', 2, 1, 3, 1),
        ('wC', 2, 0, 1, 1), ('ncC', 2, 1, 20, 1), ('nmc', 3, 0, 150, 8)]
    for kinds, n, miss, sq, st in plan:
        parts = 3 if quick else 12
        for j in range(parts):
            yield {'id': 'kde-%s%d.%d' % (kinds, n, j), 'kde': kinds,
                'n': n, 'missing': miss, 'step': sq if quick else st,
                'part': (j, parts), 'quick': quick}
    for what in ('knn', 'kde'):
        for kinds in ('nc', 'Cn', 'ncC'):
            for j in range(4):
                yield {'id': 'history-%s-%s.%d' % (what, kinds, j),
                    'history': what, 'kinds': kinds, 'part': (j, 4),
                    'depth': 4 if quick else 5, 'quick': quick}
        yield {'id': 'refuse-%s' % what, 'refuse': what}
    yield {'id': 'fit', 'fit': 1, 'quick': quick}
    yield {'id': 'far', 'far': 1}


def splits(n, cons=True):
    """(targets, constraint columns), targets nonempty."""
    for r in range(1, n + 1):
        for t in itertools.combinations(range(n), r):
            rest = [c for c in range(n) if c not in t]
            for q in range(0, len(rest) + 1):
                for c in itertools.combinations(rest, q):
                    yield list(t), list(c)


def points(kinds, cols, i=0, extra=True):
    """Query values of the columns."""
    alph = [CELLS[kinds[c]] + ([.5] if kinds[c] in 'nm' else []) for c in
        cols]
    allp = list(itertools.product(*alph))
    step = max(1, len(allp) // 6)
    return [dict(zip(cols, p)) for p in allp[i % step::step]]


def named(d, outs):
    return {outs[c]: x for c, x in d.items()}


def law_of(rec, g, f):
    return distribution(g.rng, f, rec=rec)


def sample_key(outs):
    inv = {o: c for c, o in enumerate(outs)}
    return lambda s: tuple(sorted((inv[o], key(x)) for o, x in s.items()))


def compare_laws(rec, k, got, want, data):
    keys = set(got) | set(want)
    bad = [s for s in keys if abs(got.get(s, 0.) - want.get(s, 0.)) > 1e-6]
    if bad:
        s = sorted(bad, key=repr)[0]
        rec.fail(k, 'sample %s has probability %.6f, definition says %.6f'
            % (s, got.get(s, 0.), want.get(s, 0.)), data=data)


def query(rec, k, g, outs, model, kinds, i, rowid=-1, recorded=None,
        laws=True, data=None):
    """All splits.  recorded: the cells of rowid, if it is in the data."""
    for t, c in splits(len(kinds)):
        base = {}
        if recorded is not None:
            base = {d: x for d, x in enumerate(recorded)
                if x == x and d not in t}
        for given in (points(kinds, c, i) if c else [{}]):
            cons = dict(base, **{}) if False else {**base, **given}
            order = list(given)
            if i % 2:
                order.reverse()
            ask = {outs[d]: given[d] for d in order}
            info = [data, t, given, rowid]
            for x in points(kinds, t, i + len(cons)):
                check_logpdf(rec, k, g, outs, model, t, x, cons, ask, rowid,
                    info)
            if laws:
                check_law(rec, k, g, outs, model, t, cons, ask, rowid, info)


def check_logpdf(rec, k, g, outs, model, t, x, cons, ask, rowid, info):
    xs = named(x, outs)
    want = model.logpdf(t, x, cons)
    if isinstance(model, Knn) and not cons:
        e = mc.raises(g.logpdf, rowid, xs, dict(ask))
        rec.eval()
        if not isinstance(e, ValueError):
            rec.fail(k + ': no constraints', 'not refused: %r' % (e,),
                info=info)
        return
    if want is None:
        e = mc.raises(g.logpdf, rowid, xs, dict(ask))
        rec.eval()
        if e is None:
            rec.fail(k + ': too few rows', 'answered', info=info)
        return
    try:
        if isinstance(model, Kde):
            got = float(g.logpdf(rowid, xs, dict(ask)))
            rec.eval()
            if not ref.close(got, want, 1e-8):
                rec.fail(k + ': density', 'logpdf %r, definition says %r'
                    % (got, want), info=info)
            return
        dist = law_of(rec, g, lambda: round(math.exp(
            g.logpdf(rowid, xs, dict(ask))), 9))
    except TooManyPaths:
        rec.note('too many paths')
        return
    except Exception as e:
        rec.fail(k + ': unexpected %s' % type(e).__name__, repr(e),
            info=info)
        return
    sets = [{round(v, 9) for v in s} for p, s in want]
    if all(len(s) == 1 for s in sets):
        law = {}
        for (p, _), s in zip(want, sets):
            v = next(iter(s))
            law[v] = law.get(v, 0.) + p
        if not same_law(dist, law):
            rec.fail(k + ': density', 'logpdf %s, definition says %s (value: '
                'probability)' % (dist, law), info=info)
    else:
        ok = set().union(*sets)
        bad = [v for v in dist if min(abs(v - w) for w in ok)
            > 1e-7 * max(1, abs(v))]
        if bad:
            rec.fail(k + ': density', 'density %s is none of %s'
                % (bad, sorted(ok)[:8]), info=info)


def same_law(a, b, tol=1e-7):
    """Equal laws on the reals, up to rounding."""
    if abs(math.fsum(a.values()) - math.fsum(b.values())) > 1e-6:
        return False
    xs = sorted(set(a) | set(b))
    groups = []
    for x in xs:
        if groups and x - groups[-1][-1] <= tol * max(1., abs(x)):
            groups[-1].append(x)
        else:
            groups.append([x])
    return all(abs(sum(a.get(x, 0.) for x in g) - sum(b.get(x, 0.)
        for x in g)) < 1e-6 for g in groups)


def check_law(rec, k, g, outs, model, t, cons, ask, rowid, info):
    want = model.sample_law(t, cons)
    targets = [outs[c] for c in t]
    if want is False:
        rec.note('ambiguous')
        return
    if want is None:
        e = mc.raises(g.simulate, rowid, targets, dict(ask))
        rec.eval()
        if e is None:
            rec.fail(k + ': too few rows', 'sampled', info=info)
        return
    if len(want) > 700:
        return
    try:
        got = distribution(g.rng, lambda: g.simulate(rowid, targets,
            dict(ask)), key=sample_key(outs), rec=rec)
    except TooManyPaths:
        rec.note('too many paths')
        return
    except Exception as e:
        rec.fail(k + ': unexpected %s' % type(e).__name__, repr(e),
            info=info)
        return
    compare_laws(rec, k + ': sampling', got, want, info)


def run_knn(case, rec):
    kinds = case['knn']
    j, parts = case['part']
    sets = itertools.islice(datasets(kinds, case['n'], case['missing']), 0,
        None, case['step'])
    for i, rows in enumerate(sets):
        if i % parts != j:
            continue
        K, M = KM[(i // parts) % len(KM)]
        K = min(K, case['n'])
        outs = (OUTS[i % 2] + [2 + i % 2 * 7])[:len(kinds)]
        rows = [list(r) for r in (rows if i % 3 else rows[::-1])]
        rng = CRng(i)
        g = load(knn(kinds, outs, K, M, rng), outs, rows)
        model = Knn(kinds, rows, K, M)
        rec.state((kinds, tuple(map(repr, rows)), K, M))
        label = 'knn %s' % kinds
        data = {'rows': rows, 'K': K, 'M': M}
        query(rec, label, g, outs, model, kinds, i, data=data,
            laws=i % 3 == 0)
        r = i % len(rows)
        query(rec, label + ' recorded row', g, outs, model, kinds, i,
            rowid=r, recorded=rows[r], laws=False, data=data)
        if i % 5 == 0:
            counts(rec, label, g, outs, model, kinds, i, data)
        if rec.fails:
            return


def counts(rec, k, g, outs, model, kinds, i, data):
    """Number and independence of the samples."""
    for t, c in splits(len(kinds)):
        for given in points(kinds, c, i)[:1] if c else [{}]:
            want = model.sample_law(t, given)
            if not want or len(want) > 40:
                continue
            targets = [outs[d] for d in t]
            ask = named(given, outs)
            one = g.simulate(-1, targets, dict(ask))
            rec.eval()
            if not isinstance(one, dict) or set(one) != set(targets):
                rec.fail(k + ': sample', '%r' % (one,))
            for N in (1, 3):
                s = g.simulate(-1, targets, dict(ask), None, N)
                if not isinstance(s, list) or len(s) != N or any(
                        set(x) != set(targets) for x in s):
                    rec.fail(k + ': number of samples', 'N=%d: %r'
                        % (N, s), data=data)
            if len(want) > 12:
                continue
            f = sample_key(outs)
            try:
                got = distribution(g.rng, lambda: g.simulate(-1, targets,
                    dict(ask), None, 2), key=lambda s: tuple(map(f, s)),
                    rec=rec)
            except TooManyPaths:
                rec.note('too many paths')
                continue
            for side in (0, 1):
                m = {}
                for s, p in got.items():
                    m[s[side]] = m.get(s[side], 0.) + p
                compare_laws(rec, k + ': sample %d of 2' % side, m, want,
                    data)
            if isinstance(model, Kde) or (given and len(
                    model.models(t, given)) == 1):
                pair = {(a, b): p * q for a, p in want.items()
                    for b, q in want.items()}
                compare_laws(rec, k + ': two samples', got, pair, data)


BWS = {'n': [1, .4, 2.5], 'm': [1, .7, 1.2], 'c': [.1, .3, .6],
    'C': [.1, .45, .2], 'w': [.1, .7, .4]}


def run_kde(case, rec):
    kinds = case['kde']
    j, parts = case['part']
    sets = itertools.islice(datasets(kinds, case['n'], case['missing']), 0,
        None, case['step'])
    for i, rows in enumerate(sets):
        if i % parts != j:
            continue
        outs = (OUTS[i % 2] + [2 + i % 2 * 7])[:len(kinds)]
        rows = [list(r) for r in (rows if i % 3 else rows[::-1])]
        b = (i // parts) % 4
        bw = [BWS[k][max(b - 1, 0)] for k in kinds]
        g = load(kde(kinds, outs, bw if b else None, CRng(i)), outs, rows)
        model = Kde(kinds, rows, bw)
        rec.state((kinds, tuple(map(repr, rows)), b))
        label = 'kde %s' % kinds
        data = {'rows': rows, 'bw': bw}
        query(rec, label, g, outs, model, kinds, i, data=data,
            laws=i % 2 == 0)
        r = i % len(rows)
        query(rec, label + ' recorded row', g, outs, model, kinds, i,
            rowid=r, recorded=rows[r], laws=False, data=data)
        kde_score(rec, label, g, model, rows, data)
        if all(k in LEVELS for k in kinds):
            proper(rec, label, g, outs, kinds, rows, data)
        if i % 3 == 0:
            counts(rec, label, g, outs, model, kinds, i, data)
        if rec.fails:
            return


def kde_score(rec, k, g, model, rows, data):
    want = math.fsum(model.logpdf([c for c in range(len(r)) if r[c] == r[c]],
        dict(enumerate(r)), {}) for r in rows)
    got = g.logpdf_score()
    rec.eval()
    if not ref.close(got, want, 1e-8):
        rec.fail(k + ': score', 'logpdf_score %r, definition says %r'
            % (got, want), data=data)


def proper(rec, k, g, outs, kinds, rows, data):
    for t, c in splits(len(kinds)):
        for given in points(kinds, c, 0) if c else [{}]:
            vals = [range(-1, LEVELS[kinds[d]] + 2) for d in t]
            try:
                total = math.fsum(math.exp(g.logpdf(-1, {outs[d]: x for d, x
                    in zip(t, v)}, named(given, outs)))
                    for v in itertools.product(*vals))
            except ValueError:
                continue
            rec.eval()
            if abs(total - 1) > 1e-9:
                rec.fail(k + ': total probability', '%r' % total, data=data)


# --------------------------------------------------------------- histories
def run_history(case, rec):
    """Every sequence of recording and forgetting: the answers are those of
    the rows which remain."""
    kinds, what = case['kinds'], case['history']
    rows = {'nc': [[0., 1.], [1., 1.], [3., NAN], [NAN, 0.], [1., 2.]],
        'Cn': [[0., 1.], [1., 1.], [1., NAN], [NAN, 0.], [0., 3.]],
        'ncC': [[0., 1., 0.], [1., 1., 1.], [3., NAN, 0.], [NAN, 0., 1.],
            [1., 2., 0.]]}[kinds]
    # The last one takes the place of the first: same name, other values.
    ids = [0, 1, 5, 2, 0]
    outs = [7, 3, 9][:len(kinds)]
    ops = [('inc', i) for i in range(len(rows))] \
        + [('del', i) for i in range(len(rows))]
    j, parts = case['part']

    def make():
        if what == 'knn':
            return knn(kinds, outs, 2, None, CRng(3))
        return kde(kinds, outs, None, CRng(3))

    for n, seq in enumerate(itertools.product(ops, repeat=case['depth'])):
        # Only enabled sequences, and those which forget something.
        have, ok = [], True
        for o, i in seq:
            if o == 'inc' and ids[i] in [ids[j] for j in have] or \
                    o == 'del' and i not in have:
                ok = False
                break
            if o == 'inc':
                have.append(i)
            else:
                have.remove(i)
        if not ok or all(o == 'inc' for o, _ in seq):
            continue
        if n % parts != j:
            continue
        g = make()

        def model_of(left):
            if what == 'knn':
                return Knn(kinds, left, 2, None)
            return Kde(kinds, left, [BWS[k][0] for k in kinds])
        have = []
        with rec.guard('history', history=seq):
            for o, i in seq:
                if o == 'inc':
                    g.incorporate(ids[i], {c: x for c, x in zip(outs,
                        rows[i]) if x == x})
                else:
                    g.unincorporate(ids[i])
                rec.trans()
                have.append(i) if o == 'inc' else have.remove(i)
                # Requests in between do not matter.
                x, given = {0: CELLS[kinds[0]][1]}, {1: CELLS[kinds[1]][0]}
                if n % 3 and have:
                    check_logpdf(rec, 'history', g, outs, model_of([rows[i]
                        for i in have]), [0], x, given, named(given, outs),
                        -1, list(seq))
                if n % 3 == 1:
                    mc.raises(g.simulate, -1, outs[:1], named(given, outs))
                    mc.raises(g.simulate, -1, outs[1:2])
            left = [rows[i] for i in have]
            rec.state((kinds, what, tuple(have)))
            model = model_of(left)
            for t, c in splits(len(kinds)):
                given = {d: CELLS[kinds[d]][1] for d in c}
                x = {d: CELLS[kinds[d]][(n + d) % 2] for d in t}
                check_logpdf(rec, 'history', g, outs, model, t, x, given,
                    named(given, outs), -1, list(seq))
            if n % 7 == 0:
                check_law(rec, 'history', g, outs, model, [0], {1: 1.},
                    {outs[1]: 1.}, -1, list(seq))
        rec.trace()
        if rec.fails:
            return


# ---------------------------------------------------------------- refusals
def run_refuse(case, rec):
    what = case['refuse']
    outs, kinds = [7, 3, 9], 'ncC'
    rows = [[0., 1., 0.], [1., 1., 1.], [3., NAN, 0.], [1., 2., 0.]]

    def make():
        g = knn(kinds, outs, 2, None, CRng(1)) if what == 'knn' \
            else kde(kinds, outs, None, CRng(1))
        return load(g, outs, rows)
    g = make()
    model = Knn(kinds, rows, 2, None) if what == 'knn' \
        else Kde(kinds, rows, [1, .1, .1])
    reqs = []
    for q in (dict, list):
        lp = q is dict
        f = 'logpdf' if lp else 'simulate'
        T = lambda *ks: {k: 1. for k in ks} if lp else list(ks)
        for cons in ({3: 1.}, {3: 1., 9: 0.}):
            reqs += [(f, (-1, T(99), cons)), (f, (-1, T(7, 99), cons)),
                (f, (-1, T(7), {99: 1., 3: 1.})), (f, (-1, T(7), {99: 1.})),
                (f, (-1, T(3), cons)), (f, (-1, T(7, 3), cons)),
                (f, (-1, T(), cons)), (f, (-1, T(7), cons, {5: 1.})),
                (f, (0, T(99), cons)), (f, (0, T(7), {99: 1.}))]
        if lp:
            reqs += [(f, (-1, {7: NAN}, {3: 1.})),
                (f, (-1, {7: 1., 9: NAN}, {3: 1.}))]
    reqs += [('incorporate', (0, {7: 1.})), ('incorporate', (1, {3: 1.})),
        ('incorporate', (9, {99: 1.})), ('incorporate', (9, {7: 1., 99: 1.})),
        ('incorporate', (9, {})), ('incorporate', (9, {7: 1.}, {4: 1.})),
        ('unincorporate', (77,)), ('unincorporate', (-1,))]
    for name, a in reqs:
        e = mc.raises(getattr(g, name), *a)
        rec.trans()
        rec.state((name, repr(a)))
        k = 'refuse %s%s' % (name, a)
        if not isinstance(e, ValueError):
            rec.fail(k, 'not refused: %r' % (e,))
            g = make()
            continue
        for i, (t, c) in enumerate(splits(3)):
            given = {d: CELLS[kinds[d]][1] for d in c}
            check_logpdf(rec, k + ' afterwards', g, outs, model, t,
                {d: 1. for d in t}, given, named(given, outs), -1, [name, a])
        rec.trace()
    # Constructors.
    good = dict(outputs=[0, 1], inputs=None, distargs=args('nc'))
    bad = [dict(good, inputs=[5]), dict(good, outputs=[0, 0]),
        dict(good, outputs=[]), dict(good, distargs=None),
        dict(good, distargs={}), dict(good, distargs=args('n')),
        dict(good, distargs=args('ncC')),
        dict(good, distargs={'outputs': {'stattypes': ['numerical'] * 2}}),
        dict(good, distargs={'outputs': {'stattypes': ['numerical',
            'categorical'], 'statargs': [{}, {}]}})]
    if what == 'knn':
        bad = [dict(b, K=2) for b in bad] + [dict(good), dict(good, K=0),
            dict(good, K=-1), dict(good, K=2, outputs=[0],
            distargs=args('n'))]
    from cgpm.knn.mvknn import MultivariateKnn
    from cgpm.kde.mvkde import MultivariateKde
    cls = MultivariateKnn if what == 'knn' else MultivariateKde
    for b in bad:
        e = mc.raises(cls, **b)
        rec.trans()
        if not isinstance(e, ValueError):
            rec.fail('construct %s %s' % (what, b), 'not refused: %r' % (e,))
    # No data at all.
    g = knn(kinds, outs, 2, None, CRng(1)) if what == 'knn' \
        else kde(kinds, outs, None, CRng(1))
    for f in (lambda: g.logpdf(-1, {7: 1.}, {3: 1.}),
            lambda: g.simulate(-1, [7], {3: 1.}),
            lambda: g.simulate(-1, [7])):
        e = mc.raises(f)
        rec.trans()
        if not isinstance(e, ValueError):
            rec.fail('no data', 'not refused: %r' % (e,))


# --------------------------------------------------------------------- fit
def run_fit(case, rec):
    """Learning bandwidths keeps the rows, and the answers follow them."""
    data = [('n', [[0.], [1.], [3.], [1.5], [2.2]]),
        ('nC', [[0., 1.], [1., 0.], [3., 1.], [1.5, 0.], [2.5, 1.]]),
        ('nm', [[0., 2.], [2.5, -.5], [.7, 1.2], [1., 0.], [3., -1.], [1.5, .5], [NAN, 2.]]),
        ('cC', [[0., 1.], [1., 0.], [2., 1.], [1., 0.], [0., 1.],
            [2., NAN]])]
    for kinds, rows in data:
        for extra in ([], [0], [0, 1]):
            outs = [5, 2][:len(kinds)]
            k = 'fit %s' % kinds
            with rec.guard(k):
                g = load(kde(kinds, outs, None, CRng(2)), outs, rows)
                for i in extra:
                    g.unincorporate(i)
                g.transition()
                rec.trans()
                bw = [float(b) for b in g.get_params()['bw']]
                left = [r for i, r in enumerate(rows) if i not in extra]
                if len(bw) != len(kinds) or any(not b >= 0 for b in bw):
                    rec.fail(k, 'bandwidths %s' % bw)
                    continue
                # The widths are those which fit the current rows.
                h = load(kde(kinds, outs, None, CRng(2)), outs, left)
                h.transition()
                hb = [float(b) for b in h.get_params()['bw']]
                if not np.allclose(bw, hb, rtol=1e-6):
                    rec.fail(k, 'bandwidths %s, of a fresh model %s'
                        % (bw, hb))
                model = Kde(kinds, left, bw)
                query(rec, k, g, outs, model, kinds, 0, laws=True,
                    data=left)
                kde_score(rec, k, g, model, left, left)
                g.incorporate(50, {outs[0]: 1.})
                model = Kde(kinds, left + [[1.] + [NAN] * (len(kinds) - 1)],
                    bw)
                query(rec, k + ' then record', g, outs, model, kinds, 1,
                    laws=False, data=left)
                rec.state((kinds, tuple(extra)))
            rec.trace()
        if kinds == 'n':
            continue
        for K, M in KM:
            g = load(knn(kinds, [5, 2], K, M, CRng(1)), [5, 2], rows)
            g.transition(N=2)
            query(rec, 'knn transition', g, [5, 2], Knn(kinds, rows, K, M),
                kinds, 1, laws=False, data=rows)


def run_far(case, rec):
    """Queries far from all rows."""
    rows = [[0., 1.], [1., 0.], [3., 1.]]
    for far in (60., -200., 1e4):
        k = 'far %s' % far
        with rec.guard(k):
            g = load(kde('nC', [5, 2], None, CRng(2)), [5, 2], rows)
            # Weights in log space; the nearest row dominates.
            lw = [-.5 * (far - r[0]) ** 2 for r in rows]
            m = max(lw)
            w = [math.exp(a - m) for a in lw]
            p1 = math.fsum(a * (.9 if r[1] == 1 else .1)
                for a, r in zip(w, rows)) / math.fsum(w)
            got = float(g.logpdf(-1, {2: 1.}, {5: far}))
            if not ref.close(got, math.log(p1), 1e-8):
                rec.fail(k, 'logpdf %r, definition says %r'
                    % (got, math.log(p1)))
            law = distribution(g.rng, lambda: g.simulate(-1, [2],
                {5: far})[2], key=float, rec=rec)
            if abs(law.get(1., 0.) - p1) > 1e-9:
                rec.fail(k, 'sampled with probability %s, definition says '
                    '%r' % (law, p1))
            got = float(g.logpdf(-1, {5: far}))
            want = m - .5 * math.log(2 * math.pi) + math.log(
                math.fsum(w)) - math.log(3)
            if not ref.close(got, want, 1e-8):
                rec.fail(k, 'logpdf %r, definition says %r' % (got, want))
            rec.state(far)
            rec.trace()
    # A row without any observed cell.
    g = load(kde('nC', [5, 2], None, CRng(2)), [5, 2], rows)
    want = g.logpdf_score()
    g.incorporate(9, {5: NAN})
    with rec.guard('empty row'):
        got = g.logpdf_score()
        if not ref.close(got, want):
            rec.fail('empty row', 'score %r, was %r' % (got, want))
        rec.eval()
    for what in ('knn', 'kde'):
        for bad in (-1., 3., 7.):
            g = load(kde('nc', [5, 2], None, CRng(2)) if what == 'kde' else
                knn('nc', [5, 2], 2, None, CRng(2)), [5, 2], rows)
            with rec.guard('%s category %s' % (what, bad)):
                lp = g.logpdf(-1, {2: bad}, {5: 1.})
                rec.eval()
                if lp != -math.inf:
                    rec.fail('%s category %s' % (what, bad),
                        'log density %r outside the categories' % lp)


RUN = [('knn', run_knn), ('kde', run_kde), ('history', run_history),
    ('refuse', run_refuse), ('fit', run_fit), ('far', run_far)]


def run_case(case, rec):
    global MAX_PATHS
    MAX_PATHS = 1200 if case.get('quick', True) else 6000
    for name, f in RUN:
        if name in case:
            f(case, rec)
