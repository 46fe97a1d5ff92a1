"""Reassigning a column is a Gibbs step for the joint score of the model."""
import copy
import itertools
import math

import cc
import mc
import ref
from crng import CRng, distribution

PID = 'C08'
RULE = ('column partitions (with ascending and non-ascending view names, '
    'and with views created by earlier edits) x row partitions; every random '
    'outcome of redrawing one column, including every fresh view (or two) '
    'proposed, '
    'compared with the conditional of the joint score')
ASSUMPTIONS = ['3 rows, at most 4 columns, collapsed components']


GRID = [.5, 2.]


def cases(tier):
    quick = tier == 'quick'
    parts = list(ref.partitions(3))
    i = 0
    for kinds in ['ncb', 'pec', 'bbC'] + ([] if quick else
            ['glv', 'nnN', 'ncbp', 'cnCb']):
        for zv in ref.partitions(len(kinds)):
            nv = max(zv) + 1
            if quick and nv == 1 and kinds != 'ncb':
                continue
            for names in ([0, 1, 2, 3], [8, 1, 3, 40], [30, 16, 1, 8]):
                i += 1
                # Distinct row partitions per view, rotated.
                zr = {names[v]: parts[(2 * v + i) % 5] for v in range(nv)}
                yield {'id': '%s/%s/%d' % (kinds, [names[z] for z in zv], i),
                    'state': cc.spec(kinds, 3, [names[z] for z in zv], zr,
                    missing=[(0, 1)] if i % 2 else [], alpha=.8),
                    'edit': None}
    # Three views beside the column's own.
    for i, (kinds, zv) in enumerate([('bbCb', [0, 1, 2, 0]), ('cnpb', [5, 5,
            1, 3])] + ([] if quick else [('bbCb', [1, 0, 2, 2]), ('nnpbC',
            [0, 1, 2, 3, 0])])):
        zr = {v: parts[(2 * j + i + 1) % 5] for j, v in enumerate(sorted(
            set(zv)))}
        yield {'id': 'many%d' % i, 'edit': None, 'state': cc.spec(kinds, 3,
            zv, zr, missing=[(0, 1)], alpha=1.1)}
    # Several fresh views proposed at once.
    for i, (kinds, zv) in enumerate([('ncb', [0, 1, 0]), ('bC', [4, 2]),
            ('bb', [1, 1])] + ([] if quick else [('ncb', [3, 3, 3]),
            ('gle', [0, 1, 2])])):
        for m in (2,) if quick or len(kinds) > 2 else (2, 3):
            yield {'id': 'several%d.%d' % (i, m), 'edit': None, 'm': m,
                'state': cc.spec(kinds, 3, zv, {v: parts[(2 * j + i + 1) % 5]
                for j, v in enumerate(sorted(set(zv)))}, alpha=1.1)}
    # Views created by a history of edits.
    for i, zv in enumerate([[0, 1, 1], [0, 2, 5], [3, 3, 1]]):
        names = sorted(set(zv))
        zr = {v: parts[(2 * k + 1) % 5] for k, v in enumerate(names)}
        yield {'id': 'edited/%s' % (zv,), 'edit': 'reinsert',
            'state': cc.spec('cbn', 3, zv, zr, alpha=1.3)}
    yield {'id': 'all', 'sweep': True, 'state': cc.spec('bC', 2, [0, 1],
        {0: [0, 1], 1: [0, 0]})}


def edited(state, sp):
    """Delete the first column (and with it its view), bring one back."""
    c0 = sp['outputs'][0]
    vals = list(state.X[c0])
    v0 = int(state.Zv(c0))
    state.rng.base.seed(9)
    state.unincorporate_dim(c0)
    state.incorporate_dim(vals, [c0], cctype='categorical',
        distargs={'k': 3}, v=v0)
    return state


def run_case(case, rec):
    if 'm' not in case:
        return one(case, rec)
    from cgpm.primitives.crp import Crp
    whole = Crp.__dict__['construct_hyper_grids']
    Crp.construct_hyper_grids = staticmethod(
        lambda X, n_grid=30: {'alpha': list(GRID)})
    try:
        return one(case, rec)
    finally:
        Crp.construct_hyper_grids = whole


def one(case, rec):
    rng = CRng(1)
    sp = case['state']
    state = cc.build(sp, rng)
    if case.get('edit'):
        state = edited(state, sp)
    if case.get('sweep'):
        return sweep(state, rec)
    snap = cc.snapshot(state)
    n = snap['n']
    X = {c: snap['cols'][c][3] for c in snap['outputs']}
    rec.state((case['id'], cc.canon(snap)))
    zv = snap['Zv']
    outs = snap['outputs']
    a = snap['alpha']
    cache = {}
    m_aux = case.get('m', 1)
    for col in outs:
        t, h, d, vals = snap['cols'][col]
        rest = {c: z for c, z in zv.items() if c != col}

        def loglik(Zr):
            return math.fsum(ref.marginal(t, [x for x, z in zip(vals, Zr)
                if z == k and x == x], h, d) for k in set(Zr))
        existing = {}
        for v in set(rest.values()):
            cnt = sum(1 for z in rest.values() if z == v)
            existing[v] = cnt * math.exp(loglik(snap['views'][v][0]))
        singleton = zv[col] not in rest.values()

        def go():
            s = copy.deepcopy(state)
            s.transition_dims(cols=[col], **({'m': m_aux} if m_aux > 1 else
                {}))
            return s

        def key(s):
            sn = cc.snapshot(s)
            if any(sn['Zv'][c] != zv[c] for c in rest):
                return ('moved', 'another column')
            for v in set(rest.values()):
                if sn['views'][v] != snap['views'][v]:
                    return ('moved', 'another view')
            if sn['cols'][col][1] != h:
                return ('moved', 'hyperparameters')
            v = sn['Zv'][col]
            if v in rest.values():
                return ('old', v)
            Zr, al = sn['views'][v]
            return ('new', ref.canon_partition(Zr), round(al, 9))
        dist = distribution(rng, go, key, rec=rec, max_paths=400000)
        where = '%s column %s' % (case['id'], col)
        rec.eval()
        bad = [k for k in dist if k[0] == 'moved']
        if bad:
            rec.fail(where, 'redrawing the column changed %s' % bad[0][1])
            continue
        S = math.fsum(existing.values())
        if m_aux > 1:
            # Several fresh views compete, each with its share of alpha.
            prior = [(ref.canon_partition(Zr), al, math.exp(ref.crp_joint(Zr,
                al)) / len(GRID), loglik(Zr)) for al in GRID
                for Zr in map(list, ref.partitions(n))]
            want = {}
            own = []
            if singleton:
                Zr, al = snap['views'][zv[col]]
                own = [(ref.canon_partition(Zr), al, 1., loglik(Zr))]
            for new in itertools.product(prior, repeat=m_aux - len(own)):
                q = math.exp(math.fsum(math.log(x[2]) for x in new))
                ws = {('old', v): w for v, w in existing.items()}
                for Zr, al, _q, L in list(new) + own:
                    k = ('new', Zr, round(al, 9))
                    ws[k] = ws.get(k, 0.) + a / m_aux * math.exp(L)
                tot = math.fsum(ws.values())
                for k, w in ws.items():
                    want[k] = want.get(k, 0.) + q * w / tot
            for k in set(dist) | set(want):
                if abs(dist.get(k, 0.) - want.get(k, 0.)) > 1e-7:
                    rec.fail(where, '%d fresh views: move to %s has '
                        'probability %r, the joint score says %r' % (m_aux,
                        k, dist.get(k, 0.), want.get(k, 0.)))
                    break
            continue
        if singleton:
            # Its own view is the fresh one.
            Zr, al = snap['views'][zv[col]]
            want = {('old', v): w for v, w in existing.items()}
            want[('new', ref.canon_partition(Zr), round(al, 9))] = \
                a * math.exp(loglik(Zr))
            tot = math.fsum(want.values())
            for k in set(dist) | set(want):
                if abs(dist.get(k, 0.) - want.get(k, 0.) / tot) > 1e-7:
                    rec.fail(where, 'move to %s has probability %r, the '
                        'joint score says %r' % (k, dist.get(k, 0.),
                        want.get(k, 0.) / tot))
                    break
            continue
        # Views of other columns: in proportion.
        po = math.fsum(p for k, p in dist.items() if k[0] == 'old')
        for v, w in existing.items():
            if abs(dist.get(('old', v), 0.) - po * w / S) > 1e-7:
                rec.fail(where, 'move to view %s has probability %r, the '
                    'joint score says %r' % (v, dist.get(('old', v), 0.),
                    po * w / S))
                break
        # A fresh view: drawn from the prior on views, then accepted by the
        # conditional.  Undoing the acceptance must leave the prior.
        prior, by_alpha = 0., {}
        for k, p in dist.items():
            if k[0] == 'new':
                _, Zr, al = k
                L = a * math.exp(loglik(list(Zr)))
                w = p * (S + L) / L
                by_alpha.setdefault(al, {})[Zr] = w
                prior += w
        if abs(prior - 1) > 1e-6:
            rec.fail(where, 'the prior mass of proposed fresh views is %r'
                % prior)
        # Its concentration has the law of a newly made view's.
        if 'fresh' not in cache:
            from cgpm.mixtures.view import View
            cache['fresh'] = distribution(rng, lambda: round(View(
                dict(state.X), outputs=[10**7], rng=rng).alpha(), 9))
        for al in set(cache['fresh']) | set(by_alpha):
            got = math.fsum(by_alpha.get(al, {}).values())
            if abs(got - cache['fresh'].get(al, 0.)) > 1e-6:
                rec.fail(where, 'fresh views have alpha %s with probability '
                    '%r, a new view has it with %r' % (al, got,
                    cache['fresh'].get(al, 0.)))
                break
        for al, m in by_alpha.items():
            tot = math.fsum(m.values())
            for Zr in ref.partitions(n):
                want = math.exp(ref.crp_joint(Zr, al))
                got = m.get(tuple(Zr), 0.) / tot
                if abs(got - want) > 1e-6:
                    rec.fail(where, 'fresh view rows %s with alpha %s: %r, '
                        'prior says %r' % (Zr, al, got, want))
                    break
    rec.sample({'state': case['id'], 'column': outs[-1], 'outcomes':
        len(dist)})


def sweep(state, rec):
    """transition_dims visits each listed column."""
    rng = state.rng
    s = copy.deepcopy(state)
    rec.state('sweep')
    seen = set()
    for sd in range(60):
        rng.base.seed(sd)
        s = copy.deepcopy(state)
        s.transition_dims()
        rec.trans()
        rec.trace()
        cc.verify(rec, 'sweep', s)
        seen.add(ref.canon_partition([int(s.Zv(c)) for c in s.outputs]))
    if len(seen) < 2:
        rec.fail('sweep', 'column sweeps never change the partition')
