"""Column dependence and independence constraints always hold."""
import copy
import itertools
import math

import numpy as np

import cc
import mc
import ref
from crng import CRng, distribution

PID = 'C10'
RULE = ('all sets of dependence blocks and independence pairs over 2-4 '
    'columns (5 in the thorough tier): every random outcome of the initial '
    'column partition; every random outcome of redrawing each column from '
    'every valid partition; scores of every partition; and all contradictory '
    'or malformed constraints')
ASSUMPTIONS = ['1 row at initialisation and 2 rows for moves, so that the '
    'column partition is the only large random choice',
    'constraints given as tuples']


def blocks(n):
    """All sets of disjoint blocks of at least two columns."""
    for p in ref.partitions(n):
        out = [[i for i in range(n) if p[i] == b] for b in range(max(p) + 1)]
        yield [b for b in out if len(b) > 1]


def pair_sets(n):
    pairs = list(itertools.combinations(range(n), 2))
    for k in range(len(pairs) + 1):
        for s in itertools.combinations(pairs, k):
            # Either orientation of a pair is the same constraint.
            yield [list(p if (p[0] + p[1]) % 2 else p[::-1]) for p in s]


def contradictory(Cd, Ci):
    return any(a in b and c in b for b in Cd for a, c in Ci)


def cases(tier):
    quick = tier == 'quick'
    for n in (2, 3, 4) if quick else (2, 3, 4, 5):
        chunk = []
        for Cd in blocks(n):
            for Ci in pair_sets(n):
                if n == 5 and len(Ci) > 4:
                    continue
                chunk.append([Cd, Ci])
        size = 12
        for i in range(0, len(chunk), size):
            yield {'id': 'init/%d/%d' % (n, i), 'what': 'init', 'n': n,
                'sets': chunk[i:i + size]}
    for n in (3, 4):
        for i, Ci in enumerate(pair_sets(n)):
            if quick and n == 4 and i % 4:
                continue
            yield {'id': 'move/%d/%s' % (n, Ci), 'what': 'move', 'n': n,
                'Ci': Ci}
    for n in (2, 3, 4, 5):
        yield {'id': 'score/%d' % n, 'what': 'score', 'n': n}
    yield {'id': 'bad', 'what': 'bad'}


def make(n, Cd, Ci, rng, rows=1, Zv=None, Zrv=None, alpha=.7):
    from cgpm.crosscat.state import State
    kinds = 'cbCbc'[:n]
    X = np.array([cc.values(k, rows) for k in kinds]).T.reshape(rows, n)
    return State(X, cctypes=[cc.KINDS[k][0] for k in kinds],
        distargs=[cc.KINDS[k][1] for k in kinds],
        hypers=[dict(cc.KINDS[k][2]) for k in kinds],
        view_alphas={v: 1. for v in range(9)}, alpha=alpha,
        Cd=[list(b) for b in Cd] or None, Ci=[tuple(p) for p in Ci] or None,
        Zv=dict(enumerate(Zv)) if Zv is not None else None, Zrv=Zrv, rng=rng)


def respects(zv, Cd, Ci):
    return all(len(set(zv[c] for c in b)) == 1 for b in Cd) and \
        all(zv[a] != zv[b] for a, b in Ci)


def process(n, Cd, Ci, alpha):
    """The documented constrained processes, partition by partition."""
    out = {}
    if not Ci:
        # Each block is a single customer of a Chinese restaurant.
        for zv in ref.partitions(n):
            if respects(zv, Cd, []):
                out[tuple(zv)] = math.exp(block_joint(zv, Cd, alpha))
        return out
    friends = {c: b for b in Cd for c in b}

    def go(Z, p):
        free = [c for c in range(n) if c not in Z]
        if not free:
            k = ref.canon_partition([Z[c] for c in range(n)])
            out[k] = out.get(k, 0.) + p
            return
        group = friends.get(free[0], [free[0]])
        w = {}
        for t in set(Z.values()):
            at = [c for c in Z if Z[c] == t]
            if not any(set((f, c)) == set(pr) for f in group for c in at
                    for pr in Ci):
                w[t] = float(len(at))
        w[len(set(Z.values()))] = alpha
        tot = math.fsum(w.values())
        for t, x in w.items():
            go(dict(Z, **{}) | {f: t for f in group}, p * x / tot)
    go({}, 1.)
    return out


def block_joint(zv, Cd, a):
    eff, seen = [], set()
    for b in Cd:
        eff.append(zv[b[0]])
        seen.update(b)
    eff.extend(z for i, z in enumerate(zv) if i not in seen)
    return ref.crp_joint(eff, a)


def labels(s):
    return [int(s.Zv(c)) for c in s.outputs]


def run_case(case, rec):
    {'init': init, 'move': move, 'score': score, 'bad': bad}[case['what']](
        case, rec)


def init(case, rec):
    n = case['n']
    for Cd, Ci in case['sets']:
        rng = CRng(1)
        where = 'init Cd=%s Ci=%s' % (Cd, Ci)
        rec.state(where)
        if contradictory(Cd, Ci):
            e = mc.raises(make, n, Cd, Ci, rng)
            rec.eval()
            if not isinstance(e, ValueError):
                rec.fail(where, 'contradictory constraints accepted or '
                    'refused with %r' % (e,))
            continue
        if not Cd and not Ci:
            continue
        alpha = .7
        with rec.guard(where):
            got = distribution(rng, lambda: make(n, Cd, Ci, rng, alpha=alpha),
                lambda s: ref.canon_partition(labels(s)), rec=rec)
            want = process(n, Cd, Ci, alpha)
            for k in set(got) | set(want):
                rec.eval()
                if got.get(k, 0.) > 0 and not respects(k, Cd, Ci):
                    rec.fail(where, 'initial partition %s breaks a '
                        'constraint' % (k,))
                    break
                if abs(got.get(k, 0.) - want.get(k, 0.)) > 1e-7:
                    rec.fail(where, 'initial partition %s has probability '
                        '%r, the constrained process says %r' % (k,
                        got.get(k, 0.), want.get(k, 0.)))
                    break
    rec.sample({'case': case['id'], 'constraints': case['sets'][-1]})


def move(case, rec):
    n, Ci = case['n'], case['Ci']
    rows = 2
    splits = [[0, 0], [0, 1]]
    for i, zv in enumerate(ref.partitions(n)):
        if not respects(zv, [], Ci):
            continue
        rng = CRng(1)
        # Names that are not contiguous.
        names = [[0, 1, 2, 3], [5, 2, 9, 1]][i % 2]
        lab = [names[z] for z in zv]
        Zrv = {v: splits[k % 2] for k, v in enumerate(sorted(set(lab)))}
        state = make(n, [], Ci, rng, rows=rows, Zv=lab, Zrv=Zrv)
        snap = cc.snapshot(state)
        rec.state((case['id'], tuple(lab)))
        for col in range(n):
            t, h, d, vals = snap['cols'][col]
            rest = {c: lab[c] for c in range(n) if c != col}
            enemies = set(rest[b if a == col else a] for a, b in Ci
                if col in (a, b))

            def lik(Zr):
                return math.exp(math.fsum(ref.marginal(t, [x for x, z in
                    zip(vals, Zr) if z == k], h, d) for k in set(Zr)))

            def go():
                s = copy.deepcopy(state)
                s.transition_dims(cols=[col])
                return s

            def key(s):
                z = labels(s)
                if any(z[c] != lab[c] for c in rest):
                    return ('moved', 'another column')
                if z[col] in rest.values():
                    return ('old', z[col])
                return ('new', tuple(ref.canon_partition([int(
                    s.views[z[col]].Zr(r)) for r in range(rows)])))
            where = 'move Ci=%s columns %s redraw %d' % (Ci, lab, col)
            with rec.guard(where):
                got = distribution(rng, go, key, rec=rec)
                rec.eval()
                hit = [k for k in got if k[0] == 'moved'
                    or (k[0] == 'old' and k[1] in enemies and got[k] > 0)]
                if hit:
                    rec.fail(where, 'reached %s' % (hit[0],))
                    continue
                W = {v: sum(1 for z in rest.values() if z == v)
                    * lik(snap['views'][v][0]) for v in
                    set(rest.values()) - enemies}
                S = math.fsum(W.values())
                po = math.fsum(p for k, p in got.items() if k[0] == 'old')
                for v in W:
                    if abs(got.get(('old', v), 0.) - po * W[v] / S) > 1e-7:
                        rec.fail(where, 'view %s has probability %r, the '
                            'joint score says %r' % (v, got.get(('old', v)),
                            po * W[v] / S))
                if lab[col] not in rest.values():
                    L = .7 * lik(snap['views'][lab[col]][0])
                    if abs(1 - po - L / (S + L)) > 1e-7:
                        rec.fail(where, 'its own view has probability %r, '
                            'the joint score says %r' % (1 - po,
                            L / (S + L)))
                else:
                    mass = math.fsum(p * (S + .7 * lik(k[1]))
                        / (.7 * lik(k[1])) for k, p in got.items()
                        if k[0] == 'new')
                    if abs(mass - 1) > 1e-6:
                        rec.fail(where, 'fresh views are accepted with the '
                            'wrong probability (prior mass %r)' % mass)
        # A sweep over all columns, along every choice but those of fresh
        # views, stays valid and reaches more than one partition.
        for sd in range(4):
            rng.base.seed(sd)
            s = copy.deepcopy(state)
            s.transition(N=2, kernels=['columns', 'alpha', 'rows'],
                progress=False)
            rec.trans(2)
            rec.trace()
            if not respects(labels(s), [], Ci):
                rec.fail('sweep Ci=%s' % (Ci,), 'a sweep from %s reached %s'
                    % (lab, labels(s)))
            cc.verify(rec, 'sweep Ci=%s' % (Ci,), s)
    rec.sample({'case': case['id']})


def score(case, rec):
    n = case['n']
    for Cd in blocks(n):
        tot = []
        for zv in ref.partitions(n):
            for alpha in (.4, 2.):
                rec.state((n, Cd, tuple(zv), alpha))
                s = make(n, Cd, [], CRng(1), Zv=[z * 3 + 1 for z in zv],
                    alpha=alpha)
                with rec.guard('score Cd=%s' % Cd):
                    got = s.logpdf_score_crp()
                    want = block_joint(zv, Cd, alpha) if respects(zv, Cd, [])\
                        else -math.inf
                    rec.eval()
                    if not ref.close(got, want):
                        rec.fail('score Cd=%s' % Cd, 'partition %s alpha %s: '
                            'log probability %r, the process says %r'
                            % (zv, alpha, got, want))
                        return
                    whole = want + math.fsum(m.score() for m in cc.mixtures(
                        cc.snapshot(s)).values())
                    if not ref.close(s.logpdf_score(), whole):
                        rec.fail('score Cd=%s' % Cd, 'partition %s: joint '
                            'score %r, model says %r' % (zv,
                            s.logpdf_score(), whole))
            if alpha == 2. and got > -math.inf:
                tot.append(got)
        if abs(ref.lse(tot)) > 1e-7:
            rec.fail('score Cd=%s' % Cd, 'probabilities of all partitions '
                'sum to %r' % math.exp(ref.lse(tot)))
    # No inference move may split a block: column moves are refused.
    for Cd in blocks(n):
        if not Cd:
            continue
        for zv in ref.partitions(n):
            if not respects(zv, Cd, []):
                continue
            s = make(n, Cd, [], CRng(1), rows=2, Zv=list(zv))
            before = labels(s)
            e = mc.raises(s.transition_dims)
            rec.trans()
            rec.eval()
            ok = e is None or isinstance(e, ValueError)
            if not ok or not respects(labels(s), Cd, []):
                rec.fail('move Cd=%s' % Cd, 'column moves from %s: %r, '
                    'partition %s' % (before, e, labels(s)))
            mc.raises(s.transition, N=2, kernels=['alpha', 'view_alphas',
                'rows', 'column_hypers', 'column_params'], progress=False)
            if not respects(labels(s), Cd, []):
                rec.fail('kernels Cd=%s' % Cd, 'partition %s' % labels(s))
            cc_ok = s.logpdf_score()
            if not cc_ok > -math.inf:
                rec.fail('kernels Cd=%s' % Cd, 'score %r' % cc_ok)


def bad(case, rec):
    lists = [
        ('alone', [[1]], []), ('alone', [[0, 1], [2]], []),
        ('range', [[0, 4]], []), ('range', [[0, 1, 9]], []),
        ('twice', [[0, 1], [1, 2]], []), ('twice', [[0, 1, 0]], []),
        ('twice', [[2, 3], [0, 1, 3]], []),
        ('contradict', [[0, 1]], [(0, 1)]), ('contradict', [[0, 1]], [(1, 0)]),
        ('contradict', [[2, 3], [0, 1]], [(0, 3), (1, 0)]),
        ('contradict', [[0, 1, 2, 3]], [(3, 1)]),
        ('pair', [], [(0, 1, 2)]), ('pair', [], [(0,)]),
        ('pair range', [], [(0, 4)]), ('pair range', [], [(7, 1)]),
        ('same', [], [(2, 2)]), ('same', [[0, 1]], [(0, 2), (3, 3)]),
    ]
    for what, Cd, Ci in lists:
        rec.state((what, repr(Cd), repr(Ci)))
        e = mc.raises(make, 4, Cd, Ci, CRng(1))
        rec.eval()
        rec.trace()
        rec.trans()
        if not isinstance(e, ValueError):
            rec.fail('bad Cd=%s Ci=%s' % (Cd, Ci), '%s: %r instead of '
                'ValueError' % (what, e))
    from cgpm.crosscat.state import State
    for kw in ({'Rd': {0: []}}, {'Ri': {0: []}}):
        e = mc.raises(State, np.zeros((1, 2)), cctypes=['normal'] * 2,
            rng=CRng(1), **kw)
        if not isinstance(e, ValueError):
            rec.fail('bad %s' % kw, '%r instead of ValueError' % (e,))
