"""Mutual information estimates the right quantity."""
import itertools
import math

import numpy as np

import cc
import mc
import nets
import ref
from crng import CRng, distribution

PID = 'C18'
RULE = ('all column partitions of 3 finite-valued columns x row partitions of '
    '3 rows, missing cells, all disjoint and all identical target sets x '
    'every form of constraint (absent, fixed to each value, marginalised) on '
    'the rest: exact expectation over all sample paths with N, T in {1, 2}; '
    'laws of argument orders; states with attached models; all overlapping '
    'requests')
ASSUMPTIONS = ['finite-valued columns; up to two samples per estimate']


def cases(tier):
    quick = tier == 'quick'
    k = 0
    for zv in ref.partitions(3):
        nv = max(zv) + 1
        names = [[0, 1, 2], [7, 2, 30]][sum(zv) % 2]
        for i, zrs in enumerate(itertools.product(ref.partitions(3),
                repeat=nv)):
            if nv == 3 and i % (40 if quick else 8):
                continue
            if nv == 2 and i % (6 if quick else 2):
                continue
            zr = {names[v]: zrs[v] for v in range(nv)}
            for kinds in ['bCb', 'Cbc'][:1 if nv > 1 else 2]:
                k += 1
                for part in range(3 if nv == 1 else 1):
                    yield {'id': 'state%d.%d' % (k, part), 'part': (part,
                    3 if nv == 1 else 1), 'state': cc.spec(kinds, 3,
                    [names[z] for z in zv], zr, missing=[[], [(0, 1)],
                    [(1, 0), (2, 2)]][i % 3],
                    outputs=[[0, 1, 2], [6, 1, 4]][i % 2]), 'k': k,
                    'quick': quick}
    for i, zv in enumerate([[4] * 5, [4, 4, 2, 4, 4]]):
        yield {'id': 'wide%d' % i, 'part': (0, 1), 'k': 0, 'quick': quick,
            'wide': True, 'state': cc.spec('bbbbb', 2, zv,
            {4: [1, 0], 2: [0, 0]} if i else {4: [1, 0]},
            outputs=[8, 3, 5, 0, 2])}
    for zv in ([0, 0], [0, 1]):
        for h in range(len(HOOKS)):
            yield {'id': 'net%s.%d' % (zv[1], h), 'net': zv, 'hooks': h,
                'quick': quick}


HOOKS = [
    [([20], [1])],
    [([20], [6, 1])],
    [([20], [])],
    [([20, 21], [6])],
    [([20], [1]), ([30], [20])],
    [([20], [1]), ([30], [6])],
]


def subsets(xs, least=1):
    for r in range(least, len(xs) + 1):
        for c in itertools.combinations(xs, r):
            yield list(c)


def queries(outs):
    """(X, Y, rest) with X, Y disjoint or identical."""
    for X in subsets(outs):
        yield X, list(X), [c for c in outs if c not in X]
        for Y in subsets([c for c in outs if c not in X]):
            yield X, Y, [c for c in outs if c not in X and c not in Y]


class Joint(object):
    def __init__(self, dist, names):
        self.names = names
        self.dist = dist        # {tuple of values: probability}

    def p(self, want):
        idx = [(self.names.index(c), x) for c, x in want.items()]
        return math.fsum(q for v, q in self.dist.items()
            if all(v[i] == x for i, x in idx))

    def values(self, cols):
        i = [self.names.index(c) for c in cols]
        return sorted(set(tuple(v[j] for j in i) for v in self.dist))

    def info(self, X, Y, given):
        t = self.p(given)
        out = 0.
        cols = X if set(X) == set(Y) else X + Y
        for v in self.values(cols):
            a = dict(zip(cols, v))
            pj = self.p(dict(given, **{}) if False else merged(given, a)) / t
            if pj <= 0:
                continue
            if set(X) == set(Y):
                out -= pj * math.log(pj)
            else:
                px = self.p(merged(given, {c: a[c] for c in X})) / t
                py = self.p(merged(given, {c: a[c] for c in Y})) / t
                out += pj * math.log(pj / px / py)
        return out

    def cmi(self, X, Y, fixed, marg):
        t = self.p(fixed)
        out = 0.
        for w in self.values(marg):
            g = merged(fixed, dict(zip(marg, w)))
            q = self.p(g) / t
            if q > 0:
                out += q * self.info(X, Y, g)
        return out


def merged(a, b):
    out = dict(a)
    out.update(b)
    return out


def joint_of(snap):
    mixes = cc.mixtures(snap)
    outs = snap['outputs']
    vals = []
    for c in outs:
        d = snap['cols'][c][2]
        vals.append(range(int(d['k'])) if d and 'k' in d else range(2))
    dist = {}
    for v in itertools.product(*vals):
        row = dict(zip(outs, map(float, v)))
        dist[v] = math.exp(cc.ref_logpdf(mixes, snap['Zv'], row, {}))
    assert abs(math.fsum(dist.values()) - 1) < 1e-8
    return Joint(dist, outs)


def mean(d):
    return math.fsum(float(k) * p for k, p in d.items())


def law(s, rng, rec, *a):
    return distribution(rng, lambda: s.mutual_information(*a),
        key=lambda r: float('%.9g' % (float(r) + 0.)), rec=rec)


def same(a, b):
    x, y = tidy(a), tidy(b)
    return len(x) == len(y) and all(abs(s - t) < 1e-6 and abs(p - q) < 1e-8
        for (s, p), (t, q) in zip(x, y))


def tidy(d):
    out = []
    for v, p in sorted(d.items()):
        if out and abs(out[-1][0] - v) < 1e-7:
            out[-1][1] += p
        else:
            out.append([v, p])
    return out


def average(d):
    """Law of the mean of two independent draws."""
    out = {}
    for a, p in d.items():
        for b, q in d.items():
            k = (a + b) / 2.
            out[k] = out.get(k, 0.) + p * q
    return out


def state(case, rec):
    rng = CRng(1)
    s = cc.build(case['state'], rng)
    snap = cc.snapshot(s)
    J = joint_of(snap)
    outs = snap['outputs']
    rec.state(repr(case['state']))
    where = 'columns %s (%s) in views %s, rows %s' % (outs,
        case['state']['kinds'], case['state']['Zv'], case['state']['Zrv'])
    key = case['id']
    count = case['k']
    pool = queries(outs)
    if case.get('wide'):
        a, b, c, d, e = outs
        pool = [([a], [b], [e, d, c]), ([e], [a], [b, c, d]),
            ([c], [c], [a, e, b, d]), ([a, d], [c], [e, b]),
            ([b, e], [a, c], [d]), ([a, b, c], [d, e], [])]
    for qi, (X, Y, rest) in enumerate(pool):
        if qi % case['part'][1] != case['part'][0]:
            continue
        for forms in itertools.product((None, 0, 1, 'm'), repeat=len(rest)):
            count += 1
            if case.get('wide') and len(rest) > 2 and forms.count('m') < (
                    3 if case['quick'] else 2):
                continue
            if case['quick'] and len(rest) > 1 and count % 5 and not (
                    case.get('wide') and len(rest) > 2):
                continue
            con = {c: (None if f == 'm' else f) for c, f in zip(rest, forms)
                if f is not None}
            fixed = {c: x for c, x in con.items() if x is not None}
            marg = [c for c in con if con[c] is None]
            want = J.cmi(X, Y, fixed, marg)
            view = lambda c: snap['Zv'][c]
            apart = set(X) != set(Y) and not set(map(view, X)) & set(
                map(view, Y))
            with rec.guard(key):
                paths = rec.transitions
                got = law(s, rng, rec, list(X), list(Y), dict(con) or None,
                    1, 1)
                paths = rec.transitions - paths
                what = 'mutual_information(%s, %s, %s)' % (X, Y, con)
                if apart and (set(got) - {0.} or abs(want) > 1e-9):
                    rec.fail('%s independent' % key, '%s: %s with no shared '
                        'view: %s' % (where, what, got))
                    return
                if abs(mean(got) - want) > 1e-6:
                    rec.fail('%s %s' % (key, 'entropy' if set(X) == set(Y)
                        else 'information'), '%s: %s has expectation %r, '
                        'expected %r' % (where, what, mean(got), want))
                    return
                # Argument orders.
                rev = dict(reversed(list(con.items())))
                for a, b in [(X[::-1], Y), (Y, X), (Y[::-1], X[::-1])]:
                    if [a, b] == [X, Y] or (case['quick'] and count % 7):
                        continue
                    other = law(s, rng, rec, list(a), list(b), rev, 1, 1)
                    if abs(mean(other) - want) > 1e-6:
                        rec.fail('%s order' % key, '%s: %s has expectation '
                            '%r but with arguments %s, %s it has %r'
                            % (where, what, want, a, b, mean(other)))
                        return
                # Averages of independent samples.
                blocks = len(set(map(view, X)) & set(map(view, Y)))
                if blocks != 1 or len(X + Y) > 2 or count % (
                        9 if case['quick'] else 4):
                    continue
                if len(marg) > 1 or (marg and view(marg[0]) != view(X[0])):
                    continue
                if paths ** 2 > (2000 if case['quick'] else 20000):
                    continue
                nt = (1, 2) if marg else (2, 1)
                two = law(s, rng, rec, list(X), list(Y), dict(con), nt[1],
                    nt[0])
                if not same(two, average(got)):
                    rec.fail('%s average' % key, '%s: %s with N=%d T=%d is '
                        'not the average of two: %s, expected %s' % (where,
                        what, nt[0], nt[1], tidy(two), tidy(average(got))))
                    return
    # Requests that overlap.
    for X in subsets(outs):
        for Y in subsets(outs):
            part = set(X) & set(Y) and set(X) != set(Y)
            for con in [None] + [{c: v} for c in outs for v in (0., None)]:
                hit = con and set(con) & set(X + Y)
                if not part and not hit:
                    continue
                e = mc.raises(s.mutual_information, list(X), list(Y), con,
                    1, 1)
                rec.eval()
                if not isinstance(e, ValueError):
                    rec.fail('%s overlap' % key, 'mutual_information(%s, %s,'
                        ' %s) gave %r' % (X, Y, con, e))
                    return


def net(case, rec):
    outs = [6, 1]
    zv = case['net']
    sp = cc.spec('bC', 3, zv, {v: [0, 1, 0] for v in set(zv)}, outputs=outs)
    rng = CRng(1)
    s = cc.build(sp, rng)
    snap = cc.snapshot(s)
    mixes = cc.mixtures(snap)
    views = []
    for v, m in mixes.items():
        cols = [c for c in outs if snap['Zv'][c] == v]
        views.append(nets.Fixed(cols, {x: math.exp(m.logpdf(dict(zip(cols,
            map(float, x))), {})) for x in itertools.product((0, 1),
            repeat=len(cols))}))
    hooks = [nets.Table(o, i, rng, seed=3 + j + case['hooks'])
        for j, (o, i) in enumerate(HOOKS[case['hooks']])]
    for m in hooks:
        s.compose_cgpm(m)
    parts = views + hooks
    names = outs + [o for m in hooks for o in m.outputs]
    rec.state(repr(case))
    jd = nets.joint(parts, {})
    J = Joint({tuple(dict(a)[n] for n in names): p for a, p in jd.items()},
        names)
    of = {o: i for i, m in enumerate(parts) for o in m.outputs}
    # Connected components.
    comp = list(range(len(parts)))
    for i, m in enumerate(parts):
        for x in m.inputs:
            a, b = comp[of[x]], comp[i]
            comp = [a if z == b else z for z in comp]

    def elog(t, g):
        d = nets.density(parts, {}, t, g, 1)
        return math.fsum(p * math.log(float(k)) for k, p in d.items())
    for idx, (X, Y, rest) in enumerate(queries(names)):
        if len(X + Y) > 3 or (case['quick'] and len(names) > 3 and idx % 3):
            continue
        for forms in itertools.product((None, 0, 'm'), repeat=len(rest)):
            con = {c: (None if f == 'm' else f) for c, f in zip(rest, forms)
                if f is not None}
            if len(con) > 1 and (idx % 3 or case['quick']):
                continue
            want = 0.
            for b in set(comp):
                inb = [c for c in names if comp[of[c]] == b]
                x = [c for c in X if c in inb]
                y = [c for c in Y if c in inb]
                if not x or not y:
                    continue
                fixed = {c: v for c, v in con.items() if v is not None
                    and c in inb}
                marg = [c for c in con if con[c] is None and c in inb]
                cols = x if set(x) == set(y) else x + y
                # The law of one sample given one draw of the constraints.
                wl = nets.samples(parts, {}, marg, fixed, 1) if marg \
                    else {(): 1.}
                for w, p in wl.items():
                    g = merged(fixed, dict(zip(marg, w)))
                    for v, q in nets.samples(parts, {}, cols, g, 1).items():
                        a = dict(zip(cols, v))
                        if set(x) == set(y):
                            want -= p * q * elog(a, g)
                        else:
                            want += p * q * (elog(a, g) - elog({c: a[c]
                                for c in x}, g) - elog({c: a[c] for c in y},
                                g))
            with rec.guard(case['id']):
                n = nets.cost(parts, {}, con, X + Y, 1) * nets.cost(parts, {},
                    {c: 0 for c in con if con[c] is not None}, [c for c in
                    con if con[c] is None], 1)
                for t in (X + Y, X, Y):
                    n *= nets.cost(parts, {}, dict.fromkeys(list(con) + t,
                        0), (), 1) * nets.cost(parts, {}, con, (), 1)
                if n > (200 if case['quick'] else 3000):
                    rec.note('too many paths')
                    continue
                got = law(s, rng, rec, list(X), list(Y), dict(con), 1, 1)
                if abs(mean(got) - want) > 1e-6:
                    rec.fail('%s information' % case['id'], 'views %s models '
                        '%s: mutual_information(%s, %s, %s) has expectation '
                        '%r, expected %r' % (zv, HOOKS[case['hooks']], X, Y,
                        con, mean(got), want))
                    return


def run_case(case, rec):
    (state if 'state' in case else net)(case, rec)
