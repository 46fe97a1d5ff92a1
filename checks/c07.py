"""Reassigning rows is a Gibbs step for the joint score of the view."""
import copy
import itertools
import math

import numpy as np
import scipy.optimize

import cc
import mc
import ref
from crng import CRng, distribution

PID = 'C07'
RULE = ('every row partition (and cluster naming) of small views over all '
    'component types with missing cells; every random outcome of one row '
    'move, compared with the conditional of the joint score; and of a whole '
    'sweep, checked to leave the joint distribution invariant (and, with four '
    'rows, to be the composition of the moves of its rows in some order)')
ASSUMPTIONS = ['at most 4 rows', 'parameters of uncollapsed components on a grid of '
    'values']


def cases(tier):
    quick = tier == 'quick'
    for kinds, miss in [('n', []), ('c', [(0, 1)]), ('bp', [(0, 0), (1, 2)]),
            ('ng', []), ('el', [(1, 0)]), ('v', []), ('Ccb', [(2, 1)]),
            ('nL', []), ('nL', [(0, 1), (1, 2)]), ('CnL', [(1, 0)])]:
        for rows in (3, 4):
            if quick and rows == 4 and kinds not in ('n', 'bp', 'nL'):
                continue
            for zr in ref.partitions(rows):
                for names, alpha in (([0, 1, 2, 3], .7),
                        ([6, 2, 11, 3], 3)):
                    yield {'id': '%s%s/%s' % (kinds, '?' * len(miss),
                        [names[z] for z in zr]),
                        'kinds': kinds, 'alpha': alpha, 'missing': miss, 'rows': rows,
                        'Zr': [names[z] for z in zr]}
    for kinds, miss in [('c', []), ('nb', [(1, 0)]), ('p', []), ('nL', [])]:
        yield {'id': 'sweep/' + kinds, 'kinds': kinds, 'missing': miss,
            'rows': 3, 'sweep': True}
    # Four rows: one sweep from each partition against the composition of the
    # moves of its rows.
    for zr in ([0, 0, 0, 0], [0, 0, 1, 1]) if quick else ref.partitions(4):
        yield {'id': 'long/%s' % zr, 'kinds': 'c', 'missing': [(0, 2)],
            'rows': 4, 'long': zr}
    for cols, values in UNCOLLAPSED[:3 if quick else None]:
        for moves in (([0, 1], [1, 1]) if quick else
                ([0, 1], [1, 1], [0, 1, 0])[:3 if len(values[0]) *
                len(cols) == 2 else 2]):
            yield {'id': 'uncollapsed/%s/%s/%s' % (cols, values, moves),
                'uncollapsed': cols, 'values': values, 'moves': moves}


NAN = float('nan')
UNCOLLAPSED = [
    (['normal_trunc'], [[.5, 2.]]), (['beta'], [[.2, .8]]),
    (['normal_trunc'], [[NAN, 2.]]), (['beta', 'normal'], [[.3, .4],
    [-1., 2.]]), (['beta', 'normal_trunc'], [[.3, .4], [-1., 2.]]), (['normal_trunc'], [[.5, 2., -.5]])]


def build(kinds, rows, missing, Zr, rng, alpha=.7):
    base = kinds.replace('L', 'n')
    sp = cc.spec(base, rows, [0] * len(base) + [], {0: Zr},
        missing=missing, valphas={0: alpha})
    sp['kinds'] = base + 'b'
    sp['Zv'] = [0] * len(base) + [1]
    sp['outputs'] = list(range(len(base) + 1))
    sp['Zrv']['1'] = [0, 1, 1, 0][:rows]
    sp['valphas']['1'] = 1.1
    state = cc.build(sp, rng)
    for i, k in enumerate(kinds):
        if k == 'L':
            rng.base.seed(4)
            state.update_cctype(i, 'linear_regression')
    return state, sp


def labels(state, v, n):
    return [int(state.views[v].Zr(r)) for r in range(n)]


def joint(state, v, n):
    """exp of the joint score of view v."""
    return state.views[v].logpdf_score()


def placed(state, v, r, z):
    """The state with row r moved to cluster z, by the public edits."""
    s = copy.deepcopy(state)
    view = s.views[v]
    view.unincorporate(r)
    obs = {c: s.X[c][r] for c in view.dims}
    obs[view.outputs[0]] = z
    view.incorporate(r, obs)
    return s


def at(state, v, Zr):
    for r, z in enumerate(Zr):
        state = placed(state, v, r, 50 + z)
    return state


def conditional(state, v, r, n):
    """Distribution over partitions when row r is redrawn."""
    Zr = labels(state, v, n)
    others = sorted(set(z for i, z in enumerate(Zr) if i != r))
    opts = {}
    for z in others + [max(others) + 1]:
        new = list(Zr)
        new[r] = z
        opts[ref.canon_partition(new)] = joint(placed(state, v, r, z), v, n)
    tot = ref.lse(opts.values())
    return {k: math.exp(x - tot) for k, x in opts.items()}


def run_case(case, rec):
    rng = CRng(1)
    if case.get('uncollapsed'):
        return uncollapsed(case, rec)
    n = case['rows']
    kinds = case['kinds']
    if case.get('long'):
        return long_sweep(case, rec)
    if case.get('sweep'):
        return sweep(case, rec)
    state, sp = build(kinds, n, case['missing'], case['Zr'], rng,
        alpha=case['alpha'])
    rec.state(case['id'])
    if 'L' not in kinds:
        # The joint score is the model's.
        m = cc.mixtures(cc.snapshot(state))[0]
        if not ref.close(m.score(), joint(state, 0, n)):
            rec.fail('%s score' % case['id'], 'joint score %r, model says %r'
                % (joint(state, 0, n), m.score()))
    other = labels(state, 1, n)
    for r in range(n):
        def go():
            s = copy.deepcopy(state)
            s.transition_view_rows(rows=[r], views=[0])
            return s

        def key(s):
            if labels(s, 1, n) != other:
                return 'moved a row of another view'
            Z = labels(s, 0, n)
            Z0 = case['Zr']
            # Rows that were not asked to move stay together.
            return ref.canon_partition(Z)
        dist = distribution(rng, go, key, rec=rec)
        want = conditional(state, 0, r, n)
        rec.eval()
        for k in set(dist) | set(want):
            if abs(dist.get(k, 0.) - want.get(k, 0.)) > 1e-7:
                rec.fail('%s row %d' % (kinds, r), 'partition %s -> %s has '
                    'probability %r, the joint score says %r' % (case['Zr'],
                    k, dist.get(k, 0.), want.get(k, 0.)))
                break
    # Same, choosing the view through one of its columns, two rows.
    def go2():
        s = copy.deepcopy(state)
        s.transition_view_rows(rows=[0, 1], cols=[0])
        return s
    dist = distribution(rng, go2, lambda s: (ref.canon_partition(
        labels(s, 0, n)), tuple(labels(s, 1, n))), rec=rec)
    want = {}
    for order in ((0, 1), (1, 0)):
        cur = {tuple(case['Zr']): .5}
        for r in order:
            nxt = {}
            for Z, p in cur.items():
                s = at(state, 0, Z)
                for k, q in conditional(s, 0, r, n).items():
                    nxt[k] = nxt.get(k, 0.) + p * q
            cur = nxt
        for k, p in cur.items():
            k = (ref.canon_partition(k), tuple(other))
            want[k] = want.get(k, 0.) + p
    for k in set(dist) | set(want):
        if abs(dist.get(k, 0.) - want.get(k, 0.)) > 1e-7:
            rec.fail('%s two rows' % kinds, 'partition %s -> %s has '
                'probability %r, the joint score says %r' % (case['Zr'], k,
                dist.get(k, 0.), want.get(k, 0.)))
            break
    if len(set(case['Zr'])) == 2:
        rec.sample({'view': case['id'], 'redraw of rows 0, 1':
            {str(k): v for k, v in want.items()}})


def sweep(case, rec):
    rng = CRng(1)
    n = case['rows']
    pi, K = {}, {}
    base, _sp = build(case['kinds'], n, case['missing'], [0] * n, rng)
    for zr in ref.partitions(n):
        state = at(base, 0, zr)
        pi[tuple(zr)] = joint(state, 0, n)
        rec.state((case['id'], tuple(zr)))

        def go():
            s = copy.deepcopy(state)
            s.transition(N=1, kernels=['rows'], views=[0], progress=False)
            return s
        K[tuple(zr)] = distribution(rng, go, lambda s: ref.canon_partition(
            labels(s, 0, n)), rec=rec)
    tot = ref.lse(pi.values())
    pi = {k: math.exp(v - tot) for k, v in pi.items()}
    for q in pi:
        got = math.fsum(pi[p] * K[p].get(q, 0.) for p in pi)
        rec.eval()
        if abs(got - pi[q]) > 1e-7:
            rec.fail('%s sweep' % case['kinds'], 'a sweep takes the joint '
                'probability of partition %s from %r to %r' % (q, pi[q], got))
    for p in pi:
        if any(K[p].get(q, 0.) <= 0 for q in pi):
            rec.fail('%s reach' % case['kinds'], 'some partition cannot be '
                'reached from %s in one sweep' % (p,))


def long_sweep(case, rec):
    rng = CRng(1)
    n = case['rows']
    base, _sp = build(case['kinds'], n, case['missing'], [0] * n, rng)
    parts = [tuple(p) for p in ref.partitions(n)]
    logp = {p: joint(at(base, 0, list(p)), 0, n) for p in parts}
    rec.state(case['id'])

    def move(p, r):
        """The conditional of the row given the others."""
        rest = lambda q: ref.canon_partition([z for i, z in enumerate(q)
            if i != r])
        opts = [q for q in parts if rest(q) == rest(p)]
        tot = ref.lse([logp[q] for q in opts])
        return {q: math.exp(logp[q] - tot) for q in opts}
    laws = []
    for order in itertools.permutations(range(n)):
        law = {tuple(case['long']): 1.}
        for r in order:
            nxt = {}
            for p, w in law.items():
                for q, v in move(p, r).items():
                    nxt[q] = nxt.get(q, 0.) + w * v
            law = nxt
        laws.append([law.get(p, 0.) for p in parts])
    state = at(base, 0, case['long'])

    def go():
        s = copy.deepcopy(state)
        s.transition_view_rows(views=[0])
        return s
    got = distribution(rng, go, lambda s: tuple(ref.canon_partition(
        labels(s, 0, n))), rec=rec)
    # Every row moves once, in an order drawn from any law.
    rec.eval()
    _w, gap = scipy.optimize.nnls(np.array(laws).T, np.array([got.get(p, 0.)
        for p in parts]))
    if gap > 1e-7 or abs(sum(got.values()) - 1.) > 1e-7:
        rec.fail('%s long sweep' % case['kinds'], 'a sweep from %s reaches '
            '%s, which no order of its rows does' % (case['long'],
            sorted(got.items())))


class PriorRng(CRng):
    """A few values of the one parameter, one of the other."""
    size = 3

    def gamma(self, *a, **k):
        self.grid = self.size
        return CRng.gamma(self, *a, **k)

    def exponential(self, *a, **k):
        self.grid = self.size
        return CRng.exponential(self, *a, **k)

    def uniform(self, *a, **k):
        self.grid = 1
        return CRng.uniform(self, *a, **k)

    def beta(self, *a, **k):
        self.grid = 1
        return CRng.beta(self, *a, **k)


def uncollapsed(case, rec):
    """Components that carry parameters: a few row moves keep the joint law
    of partition, parameters (prior on a grid) and data."""
    from cgpm.mixtures.view import View
    import comp
    cols, values, alpha = case['uncollapsed'], case['values'], .8
    n = len(values[0])
    rng = PriorRng(1)
    size = rng.size = 2 if len(set(cols) & set(comp.PARAMS)) > 1 else 3
    ids = [5 + i for i in range(len(cols))]
    X = {c: list(v) for c, v in zip(ids, values)}

    def make(Z):
        return View(X, outputs=[90] + ids, alpha=alpha, cctypes=list(cols),
            distargs=[comp.SPECS[c][2] for c in cols], hypers=[dict(
                comp.SPECS[c][3][0]) for c in cols], Zr=list(Z), rng=rng)

    def rich(c):
        return c in comp.PARAMS
    # The parameters a fresh component may have, equally likely.
    choices = {c: [dict(k) for k in distribution(rng, lambda: comp.make(c,
        rng=rng).get_params(), lambda p: tuple(sorted(p.items())))]
        for c in cols if rich(c)}
    assert all(len(v) == size for v in choices.values())

    def logp(c, x, p):
        return 0. if x != x else float(comp.make(c, params=p).logpdf(-1,
            {0: x}))
    memo = {(c, x, i): logp(c, x, p) for c, v in zip(cols, values)
        if rich(c) for x in v for i, p in enumerate(choices[c])}
    slots = [c for c in cols if rich(c)]
    pi, K = {}, {}
    for Z in ref.partitions(n):
        ks = sorted(set(Z))
        plain = make(Z)
        fixed = plain.logpdf_prior() + sum(plain.dims[i].logpdf_score()
            for i, c in zip(ids, cols) if not rich(c))
        for theta in itertools.product(range(size), repeat=len(ks) * len(slots)):
            th = {(c, k): theta[i * len(ks) + j] for i, c in enumerate(slots)
                for j, k in enumerate(ks)}
            lp = fixed + sum(-math.log(size) for _ in th) + sum(
                memo[c, x, th[c, z]] for c, v in zip(cols, values)
                if rich(c) for x, z in zip(v, Z))
            name = (tuple(Z), tuple(tuple(th[c, z] for c in slots)
                for z in Z))
            pi[name] = lp
            view = plain
            rec.state((case['id'], name))

            def go():
                v = copy.deepcopy(view)
                for i, c in zip(ids, cols):
                    if rich(c):
                        for k in ks:
                            for a, x in choices[c][th[c, k]].items():
                                setattr(v.dims[i].clusters[k], a, x)
                        v.dims[i].aux_model = v.dims[i].create_aux_model()
                for r in case['moves']:
                    v.transition_rows(rows=[r])
                return v

            def key(v):
                lab = [v.Zr(r) for r in range(n)]
                out = []
                for z in lab:
                    row = []
                    for i, c in zip(ids, cols):
                        if rich(c):
                            p = dict(v.dims[i].clusters[z].get_params())
                            row.append(next((j for j, q in enumerate(
                                choices[c]) if all(abs(p[a] - q[a]) < 1e-9
                                for a in q)), 'other'))
                    out.append(tuple(row))
                return ref.canon_partition(lab), tuple(out)
            K[name] = distribution(rng, go, key, rec=rec)
    tot = ref.lse(pi.values())
    pi = {k: math.exp(v - tot) for k, v in pi.items()}
    worst = (0., None)
    for q in set(pi) | {q for p in K for q in K[p]}:
        got = math.fsum(pi[p] * K[p].get(q, 0.) for p in pi)
        rec.eval()
        worst = max(worst, (abs(got - pi.get(q, 0.)), (repr(q), got,
            pi.get(q, 0.))), key=lambda w: w[0])
    if worst[0] > 1e-7:
        rec.fail('uncollapsed %s' % cols, 'redrawing rows %s takes the joint '
            'probability of %s from %s to %s' % (case['moves'],
            worst[1][0], worst[1][2], worst[1][1]))
    rec.sample({'view': case['id'], 'states': len(pi)})
