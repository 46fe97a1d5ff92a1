"""Hyperparameter inference is grid Gibbs on the joint score."""
import copy
import itertools
import math

import numpy as np

import cc
import ref
from crng import CRng, distribution

PID = 'C09'
RULE = ('row partitions x component types; grids cut to 1-3 points. One '
    'hyperparameter free: every outcome compared with the conditional of the '
    'joint score. All free: the whole kernel (all orders, all draws, from '
    'every grid point) must leave the conditional of the joint score '
    'invariant. Same for the concentrations')
ASSUMPTIONS = ['the grid is that returned by the component; cut to the '
    'stated points by editing Dim.hyper_grids']

GRIDS = {'m': [-.5, 1.2, 3.], 'r': [.3, 1., 2.5], 's': [.4, 2., 6.],
    'nu': [1., 2.5, 7.], 'alpha': [.3, 1., 4.], 'beta': [.5, 2., 6.],
    'a': [.6, 1.5, 4.], 'b': [.4, 1.1, 3.], 'k': [.7, 1.5, 4.]}


def cases(tier):
    quick = tier == 'quick'
    parts = list(ref.partitions(4))
    for i, kind in enumerate(list('nNcCbpeglv') + ['L']):
        for j, zr in enumerate(parts):
            if quick and (i + j) % 4:
                continue
            yield {'id': 'hypers/%s/%s' % (kind, zr), 'what': 'hypers',
                'kind': kind, 'Zr': zr, 'joint': not quick or j % 8 == i % 4}
    for zr in parts:
        if quick and zr[:3] == [0, 0, 0]:
            continue
        yield {'id': 'alpha/%s' % zr, 'what': 'alpha', 'Zr': zr}
    for zv in ref.partitions(3):
        yield {'id': 'column alpha/%s' % zv, 'what': 'calpha', 'Zv': zv}
    for Cd, zv in [([[0, 1]], [0, 0, 1, 2]), ([[0, 1]], [0, 0, 0, 1]),
            ([[0, 2], [1, 3]], [0, 1, 0, 1]), ([[0, 1, 3]], [0, 0, 0, 0]),
            ([[0, 1], [2, 3]], [0, 0, 0, 0])]:
        yield {'id': 'column alpha/%s/%s' % (zv, Cd), 'what': 'calpha',
            'Zv': zv, 'Cd': Cd}
    for kind in 'nNcCbpeglvBT':
        yield {'id': 'grids/%s' % kind, 'what': 'grids', 'kind': kind}


def build(case, rng):
    kind, Zr = case['kind'], case['Zr']
    base = 'n' if kind == 'L' else kind
    sp = cc.spec(base + 'bn', 4, [4, 2, 4], {4: Zr, 2: [0, 1, 1, 0]},
        missing=[[], [(0, 1)], [(0, 1), (0, 3)], [(0, 0), (0, 1),
        (0, 3)]][(sum(Zr) + len(kind) + ord(kind)) % 4])
    state = cc.build(sp, rng)
    if kind == 'L':
        rng.base.seed(4)
        state.update_cctype(0, 'linear_regression', distargs={'inputs': [2]})
    return state


def other(state, skip):
    """Everything but the hyperparameters of column `skip`."""
    s = cc.snapshot(state)
    return (repr(s['Zv']), repr(s['views']), repr(s['alpha']),
        repr([(c, v) if c != skip else (c, v[0], v[2], v[3])
            for c, v in s['cols'].items()]))


def score(state, col, hypers, snap):
    """Joint score with the given hyperparameters of the column."""
    t, _h, d, vals = snap['cols'][col]
    if t in ref.PRED:
        Zr = snap['views'][snap['Zv'][col]][0]
        return math.fsum(ref.marginal(t, [x for x, z in zip(vals, Zr)
            if z == k and x == x], hypers, d) for k in set(Zr))
    s = copy.deepcopy(state)
    s.dim_for(col).set_hypers(dict(hypers))
    return s.logpdf_score()


def softmax(d):
    tot = ref.lse(d.values())
    return {k: math.exp(v - tot) for k, v in d.items()}


def differ(got, want, tol=1e-7):
    for k in sorted(set(got) | set(want), key=repr):
        if abs(got.get(k, 0.) - want.get(k, 0.)) > tol:
            return k
    return None


def cut(dim, grids):
    for h in list(dim.hyper_grids):
        dim.hyper_grids[h] = list(grids[h])


def run_case(case, rec):
    rec.state(case['id'])
    return {'hypers': hypers, 'alpha': alpha, 'calpha': calpha,
        'grids': grids}[case['what']](case, rec)


def hypers(case, rec):
    rng = CRng(1)
    state = build(case, rng)
    snap = cc.snapshot(state)
    rest = other(state, 0)
    names = sorted(snap['cols'][0][1])
    kind = case['kind']

    def go(grids, start=None):
        def f():
            s = copy.deepcopy(state)
            d = s.dim_for(0)
            if start:
                d.set_hypers(dict(start))
            cut(d, grids)
            s.transition_dim_hypers(cols=[0])
            return s
        return f

    def key(s):
        if other(s, 0) != rest:
            return 'something else changed'
        h = cc.snapshot(s)['cols'][0][1]
        return tuple(round(h[n], 9) for n in names)
    seen = {}
    for n in names:
        # Only n is free; the others have a single grid point.
        fixed = {m: [GRIDS[m][(len(m) + len(n)) % 3]] for m in names}
        if kind == 'v':
            fixed = {m: [snap['cols'][0][1][m]] for m in names}
        fixed[n] = GRIDS[n]
        got = distribution(rng, go(fixed), key, rec=rec)
        lps = {}
        for x in GRIDS[n]:
            h = {m: fixed[m][0] for m in names}
            h[n] = x
            lps[tuple(round(h[m], 9) for m in names)] = \
                score(state, 0, h, snap)
        # Settings visited in any order: the fixed ones may still be at their
        # old values when n is drawn, unless they already have the new ones.
        start = {m: fixed[m][0] for m in names}
        got = distribution(rng, go(fixed, start), key, rec=rec)
        want = softmax(lps)
        rec.eval()
        k = differ(got, want)
        if k is not None:
            rec.fail('%s %s' % (kind, n), 'rows %s: %s becomes %s with '
                'probability %r, the joint score says %r' % (case['Zr'], n,
                k, got.get(k, 0.), want.get(k, 0.)))
            return
        seen[n] = want
        # Every cluster, and new ones, answer with the new setting.
        s = go({m: [GRIDS[m][1]] for m in names})()
        if kind != 'L':
            cc.verify(rec, '%s after' % kind, s)
            r = s.n_rows()
            view = s.view_for(0)
            s.incorporate(r, {c: s.X[c][0] for c in s.outputs if s.X[c][0]
                == s.X[c][0]})
            obs = {c: s.X[c][r] for c in view.dims}
            view.unincorporate(r)
            obs[view.outputs[0]] = 77
            view.incorporate(r, obs)
            cc.verify(rec, '%s new cluster' % kind, s)
    rec.sample({'case': case['id'], 'conditionals':
        {n: {str(k): v for k, v in w.items()} for n, w in seen.items()}})
    if not case['joint']:
        return
    grids = {n: GRIDS[n][1:] for n in names}
    if kind == 'v':
        grids['k'] = [snap['cols'][0][1]['k']]
    pi, K = {}, {}
    for combo in itertools.product(*[grids[n] for n in names]):
        h = dict(zip(names, combo))
        pi[tuple(round(x, 9) for x in combo)] = score(state, 0, h, snap)
        K[tuple(round(x, 9) for x in combo)] = distribution(rng,
            go(grids, h), key, rec=rec)
    pi = softmax(pi)
    for q in pi:
        got = math.fsum(pi[p] * K[p].get(q, 0.) for p in pi)
        rec.eval()
        if abs(got - pi[q]) > 1e-7:
            rec.fail('%s invariance' % kind, 'rows %s: the kernel takes the '
                'probability of %s from %r to %r' % (case['Zr'],
                dict(zip(names, q)), pi[q], got))
            return


def alpha(case, rec):
    rng = CRng(1)
    Zr = case['Zr']
    state = cc.build(cc.spec('cbn', 4, [4, 2, 4], {4: Zr, 2: [0, 1, 1, 0]}),
        rng)
    g = [.2, 1., 3.]
    want = softmax({x: ref.crp_joint(Zr, x) for x in g})
    want2 = softmax({x: ref.crp_joint([0, 1, 1, 0], x) for x in g})

    def strip(s):
        s = cc.snapshot(s)
        return repr((s['Zv'], s['alpha'], s['cols'],
            {v: z for v, (z, _a) in s['views'].items()}))
    rest = strip(state)
    for kw, moved in [({'views': [4]}, (4,)), ({'cols': [0, 2]}, (4,)),
            ({'cols': [1]}, (2,)), ({}, (4, 2))]:
        def go():
            s = copy.deepcopy(state)
            for v in s.views:
                cut(s.views[v].crp, {'alpha': g})
            s.transition_view_alphas(**kw)
            return s

        def key(s):
            if strip(s) != rest:
                return 'something else changed'
            return tuple(round(float(s.views[v].alpha()), 9)
                for v in (4, 2))
        got = distribution(rng, go, key, rec=rec)
        a0 = {v: round(float(state.views[v].alpha()), 9) for v in (4, 2)}
        w4 = want if 4 in moved else {a0[4]: 1.}
        w2 = want2 if 2 in moved else {a0[2]: 1.}
        full = {(a, b): p * q for a, p in w4.items() for b, q in w2.items()}
        rec.eval()
        k = differ(got, full)
        if k is not None:
            rec.fail('view alpha', 'rows %s, %s: concentrations become %s '
                'with probability %r, the joint score says %r' % (Zr, kw, k,
                got.get(k, 0.), full.get(k, 0.)))
            return
        cc.verify(rec, 'view alpha after', go())
    rec.sample({'case': case['id'], 'conditional': {str(k): v for k, v in
        want.items()}})


def block_joint(zv, Cd, a):
    """Blocks of dependent columns count as one customer."""
    eff, seen = [], set()
    for b in Cd:
        eff.append(zv[b[0]])
        seen.update(b)
    eff.extend(z for i, z in enumerate(zv) if i not in seen)
    return ref.crp_joint(eff, a)


def calpha(case, rec):
    from cgpm.crosscat.state import State
    rng = CRng(1)
    Zv = case['Zv']
    Cd = case.get('Cd', [])
    sp = cc.spec('cbnb'[:len(Zv)], 3, Zv, {z: [0, 1, 0] for z in set(Zv)})
    if Cd:
        cols = cc.data(sp)
        state = State(np.array(cols).T, cctypes=[cc.KINDS[k][0] for k in
            sp['kinds']], distargs=[cc.KINDS[k][1] for k in sp['kinds']],
            Zv=dict(enumerate(Zv)), alpha=.9, Cd=Cd, rng=rng)
    else:
        state = cc.build(sp, rng)
    g = [.2, 1., 3.]
    rest = other_alpha(state)

    def go():
        s = copy.deepcopy(state)
        cut(s.crp, {'alpha': g})
        s.transition_crp_alpha()
        return s

    def key(s):
        if other_alpha(s) != rest:
            return 'something else changed'
        return round(float(s.alpha()), 9)
    got = distribution(rng, go, key, rec=rec)
    want = softmax({x: block_joint(Zv, Cd, x) for x in g})
    rec.eval()
    k = differ(got, want)
    if k is not None:
        rec.fail('column alpha%s' % (' constrained' if Cd else ''),
            'columns %s, dependent %s: concentration %s has probability %r, '
            'the joint score says %r' % (Zv, Cd, k, got.get(k, 0.),
            want.get(k, 0.)))
    s = go()
    want = block_joint(Zv, Cd, s.alpha()) + math.fsum(m.score() for m in
        cc.mixtures(cc.snapshot(s)).values())
    rec.eval()
    if not ref.close(s.logpdf_score(), want):
        rec.fail('column alpha score', 'columns %s, dependent %s: joint '
            'score %r, model says %r' % (Zv, Cd, s.logpdf_score(), want))


def other_alpha(state):
    s = cc.snapshot(state)
    return repr((s['Zv'], s['views'], s['cols']))


EXTRA = {'B': ('beta', None, [.2, .7, .5, .9]),
    'T': ('normal_trunc', {'l': -1., 'h': 3.}, [-.5, 1., 2., 0.])}


def grids(case, rec):
    """Building grids keeps settings that exist; grids are usable."""
    from cgpm.crosscat.state import State
    kind = case['kind']
    for n in (1, 2, 4):
        rng = CRng(2)
        if kind in EXTRA:
            t, d, vals = EXTRA[kind]
            vals = vals[:n]
        else:
            t, d, _h, _v = cc.KINDS[kind][0], cc.KINDS[kind][1], 0, 0
            vals = cc.values(kind, n)
        state = State(np.array([vals, cc.values('b', n)]).T, cctypes=[t,
            'bernoulli'], distargs=[d, None], rng=rng)
        dim = state.dim_for(0)
        h = {k: float(v) for k, v in dim.hypers.items()}
        rec.state((case['id'], n))
        for name, grid in dim.hyper_grids.items():
            rec.eval()
            if not all(np.isfinite(grid)) or (name not in ('m',) and
                    min(grid) < 0):
                rec.fail('%s grid' % kind, 'grid of %s on %s: %s'
                    % (name, vals, grid))
            if not any(abs(g - h[name]) < 1e-12 for g in grid):
                rec.fail('%s initial' % kind, 'initial %s=%r is not on its '
                    'grid %s' % (name, h[name], list(grid)))
        state.transition_dim_grids()
        rec.trans()
        rec.trace()
        h2 = {k: float(v) for k, v in state.dim_for(0).hypers.items()}
        rec.eval()
        if h2 != h:
            rec.fail('%s regrid' % kind, 'rebuilding grids changes the '
                'hyperparameters %s to %s' % (h, h2))
        for _ in range(3):
            state.transition_dim_hypers()
            dim = state.dim_for(0)
            rec.trans()
            for name, x in dim.hypers.items():
                if not any(abs(g - x) < 1e-12 for g in
                        dim.hyper_grids[name]):
                    rec.fail('%s on grid' % kind, 'inferred %s=%r is not on '
                        'the grid' % (name, x))
        if kind not in EXTRA:
            cc.verify(rec, '%s inferred' % kind, state)
