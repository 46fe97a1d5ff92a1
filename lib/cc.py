"""Small CrossCat states: construction, snapshots and the reference view."""
import math

import numpy as np

import comp
import ref
from crng import CRng

NAN = float('nan')

# Column alphabets: (cctype, distargs, hypers, cell values)
KINDS = {
    'n': ('normal', None, {'m': 0., 'r': 1., 's': 1., 'nu': 1.},
        [-1., .5, 2.]),
    'N': ('normal', None, {'m': 1., 'r': .5, 's': 2., 'nu': 3.},
        [3., -.5, 1.]),
    'c': ('categorical', {'k': 3}, {'alpha': .7}, [0, 2, 1]),
    'C': ('categorical', {'k': 2}, {'alpha': 1.3}, [1, 0, 1]),
    'b': ('bernoulli', None, {'alpha': .8, 'beta': 1.4}, [1, 0, 0]),
    'p': ('poisson', None, {'a': 1.5, 'b': .8}, [0, 3, 1]),
    'e': ('exponential', None, {'a': 2., 'b': 1.5}, [.4, 2.2, 1.]),
    'g': ('geometric', None, {'a': 1.2, 'b': 2.}, [2, 0, 1]),
    'l': ('lognormal', None, {'m': .2, 'r': 1.4, 's': 1., 'nu': 2.},
        [.6, 1.5, 3.]),
    'v': ('vonmises', None, {'a': .9, 'b': 2., 'k': 1.5}, [.5, 3., 5.5]),
}
DISCRETE = 'cCb'


def values(kind, n, missing=()):
    vals = KINDS[kind][3]
    return [NAN if r in missing else float(vals[r % len(vals)])
        for r in range(n)]


def spec(kinds, n_rows, Zv, Zrv, alpha=.9, valphas=None, missing=(),
        outputs=None):
    """JSON-able description of a state; missing: (column, row) pairs."""
    return {'kinds': kinds, 'n': n_rows, 'Zv': list(Zv),
        'Zrv': {str(v): list(z) for v, z in Zrv.items()}, 'alpha': alpha,
        'valphas': {str(v): (valphas or {}).get(v, .6 + .5 * i)
            for i, v in enumerate(sorted(Zrv))},
        'missing': [list(m) for m in missing],
        'outputs': list(outputs) if outputs else list(range(len(kinds)))}


def data(sp):
    cols = []
    for i, k in enumerate(sp['kinds']):
        miss = [r for c, r in map(tuple, sp['missing']) if c == i]
        vals = values(k, sp['n'], miss)
        # Repeated kinds get shifted values so that columns differ.
        if sp['kinds'][:i].count(k):
            m = [v for v in vals]
            vals = m[1:] + m[:1]
            if any(v != v for v in vals):
                vals = m
        cols.append(vals)
    return cols


def build(sp, rng=None):
    from cgpm.crosscat.state import State
    cols = data(sp)
    outs = sp['outputs']
    return State(
        np.array(cols).T.reshape(sp['n'], len(cols)),
        outputs=list(outs),
        cctypes=[KINDS[k][0] for k in sp['kinds']],
        distargs=[dict(KINDS[k][1]) if KINDS[k][1] else None
            for k in sp['kinds']],
        hypers=[dict(KINDS[k][2]) for k in sp['kinds']],
        Zv={o: z for o, z in zip(outs, sp['Zv'])},
        Zrv={int(v): list(z) for v, z in sp['Zrv'].items()},
        alpha=sp['alpha'],
        view_alphas={int(v): a for v, a in sp['valphas'].items()},
        rng=rng if rng is not None else CRng(1))


def snapshot(state):
    """Structure of a state, read through its accessors."""
    n = state.n_rows()
    Zv = {c: int(state.Zv(c)) for c in state.outputs}
    snap = {'n': n, 'outputs': list(state.outputs), 'Zv': Zv,
        'alpha': float(state.alpha()), 'views': {}, 'cols': {}}
    for v in set(Zv.values()):
        view = state.views[v]
        snap['views'][v] = ([int(view.Zr(r)) for r in range(n)],
            float(view.alpha()))
    for c in state.outputs:
        d = state.dim_for(c)
        snap['cols'][c] = (d.name(),
            {k: float(x) for k, x in d.hypers.items()},
            dict(d.get_distargs()), [float(x) for x in state.X[c]])
    return snap


def canon(snap):
    """Hashable canonical form (view and cluster names canonicalised)."""
    outs = snap['outputs']
    zv = ref.canon_partition([snap['Zv'][c] for c in outs])
    order = []
    for c in outs:
        if snap['Zv'][c] not in order:
            order.append(snap['Zv'][c])
    vs = tuple((ref.canon_partition(snap['views'][v][0]),
        round(snap['views'][v][1], 9)) for v in order)
    cols = tuple((c, snap['cols'][c][0],
        tuple(sorted((k, round(x, 9)) for k, x in snap['cols'][c][1].items())),
        tuple(repr(x) for x in snap['cols'][c][3])) for c in outs)
    return (tuple(outs), zv, vs, cols, round(snap['alpha'], 9))


def mixtures(snap, X=None):
    out = {}
    for v, (Zr, a) in snap['views'].items():
        cols = {}
        for c in snap['outputs']:
            if snap['Zv'][c] == v:
                t, h, d, vals = snap['cols'][c]
                cols[c] = (t, h, d, X[c] if X is not None else vals)
        out[v] = ref.Mixture(cols, Zr, a)
    return out


def ref_score(snap, X=None):
    zv = [snap['Zv'][c] for c in snap['outputs']]
    return ref.crp_joint(zv, snap['alpha']) + math.fsum(
        m.score() for m in mixtures(snap, X).values())


def ref_logpdf(mixes, Zv, targets, given):
    """Fresh row log density."""
    out = 0.
    for v in set(Zv[c] for c in targets):
        t = {c: x for c, x in targets.items() if Zv[c] == v}
        g = {c: x for c, x in given.items() if Zv[c] == v}
        out += mixes[v].logpdf(t, g)
    return out


def same_data(a, b):
    return len(a) == len(b) and all(
        (x != x and y != y) or x == y for x, y in zip(a, b))


def verify(rec, key, state, X=None, tol=1e-7, queries=True, hist=None):
    """The state's answers are those of a fresh model of its data.

    X: the data the history should have left behind ({column: list})."""
    bad = []

    def check(ok, what):
        rec.eval()
        if not ok:
            bad.append(what)
    snap = snapshot(state)
    outs = snap['outputs']
    n = snap['n']
    if X is not None:
        check(sorted(outs) == sorted(X), 'columns %s, expected %s'
            % (outs, sorted(X)))
        for c in outs:
            check(c in X and same_data(snap['cols'][c][3], X[c]),
                'data of column %s: %s, expected %s'
                % (c, snap['cols'][c][3], X.get(c)))
        arr = state.data_array()
        check(arr.shape == (n, len(outs)) and all(
            same_data(list(arr[:, i]), X[c])
            for i, c in enumerate(state.X) if c in X), 'data_array differs')
        check(state.n_cols() == len(X), 'n_cols %s' % state.n_cols())
    if bad:
        rec.fail(key, '; '.join(bad[:3]), history=hist)
        return snap
    X = X if X is not None else {c: snap['cols'][c][3] for c in outs}
    # Column partition, counts and the views agree.
    zv = snap['Zv']
    check(set(state.Zv()) == set(outs), 'column partition covers %s'
        % sorted(state.Zv()))
    check(set(state.views) == set(zv.values()), 'views %s, assignments %s'
        % (sorted(state.views), zv))
    counts = {v: sum(1 for z in zv.values() if z == v)
        for v in set(zv.values())}
    check(dict(state.Nv()) == counts, 'column counts %s, expected %s'
        % (dict(state.Nv()), counts))
    check([d.name() for d in state.dims()] == list(state.cctypes()),
        'cctypes')
    for v in set(zv.values()):
        view = state.views[v]
        cols = sorted(c for c in outs if zv[c] == v)
        check(sorted(view.dims) == cols, 'view %s holds %s, expected %s'
            % (v, sorted(view.dims), cols))
        check(sorted(view.outputs[1:]) == cols, 'outputs of view %s' % v)
        check(sorted(view.Zr()) == list(range(n)), 'rows of view %s: %s'
            % (v, sorted(view.Zr())))
        Zr = snap['views'][v][0]
        cnt = {k: Zr.count(k) for k in set(Zr)}
        check(dict(view.Nk()) == cnt, 'row counts of view %s: %s, expected %s'
            % (v, dict(view.Nk()), cnt))
        check(view.n_rows() == n, 'n_rows of view %s' % v)
    if bad:
        rec.fail(key, '; '.join(bad[:3]), history=hist)
        return snap
    # Scores.
    mixes = mixtures(snap, X)
    for v, m in mixes.items():
        check(ref.close(state.views[v].logpdf_score(), m.score(), tol),
            'score of view %s: %r, model says %r'
            % (v, state.views[v].logpdf_score(), m.score()))
    like = math.fsum(m.likelihood() for m in mixes.values())
    check(ref.close(state.logpdf_likelihood(), like, tol),
        'likelihood %r, model says %r' % (state.logpdf_likelihood(), like))
    if not state.Ci and not state.Cd:
        want = ref_score(snap, X)
        got = state.logpdf_score()
        check(ref.close(got, want, tol), 'score %r, model says %r'
            % (got, want))
    if queries:
        probe = {}
        for c in outs:
            t, h, d, vals = snap['cols'][c]
            probe[c] = PROBE[t]
        for c in outs:
            got = state.logpdf(-1, {c: probe[c]})
            want = ref_logpdf(mixes, zv, {c: probe[c]}, {})
            check(ref.close(got, want, tol), 'logpdf of column %s: %r, model '
                'says %r' % (c, got, want))
        # Joint given one column, and every cluster's predictive.
        if len(outs) > 1:
            t = {c: probe[c] for c in outs[1:]}
            g = {outs[0]: probe[outs[0]]}
            got, want = state.logpdf(-1, t, g), ref_logpdf(mixes, zv, t, g)
            check(ref.close(got, want, tol), 'logpdf %s given %s: %r, model '
                'says %r' % (t, g, got, want))
        for v, m in mixes.items():
            view = state.views[v]
            ks, new = m.clusters()
            for k in ks + [new]:
                row = {c: probe[c] for c in m.cols}
                got = view.logpdf(-1, row, {view.outputs[0]: k})
                want = m.row_given_cluster(row, k)
                check(ref.close(got, want, tol), 'view %s cluster %s: %r, '
                    'model says %r' % (v, k, got, want))
    if bad:
        rec.fail(key, '; '.join(bad[:3]), history=hist, snapshot=snap)
    return snap


PROBE = {'normal': .3, 'categorical': 1, 'bernoulli': 1, 'poisson': 2,
    'exponential': .9, 'geometric': 1, 'lognormal': 1.2, 'vonmises': 2.}


# ------------------------------------------------------- conditional columns
def student(y, xs, rows, a, b):
    """Predictive log density and location of Bayesian linear regression with
    weights N(0, s I), s ~ InvGamma(a, b), given rows [(xs, y)]."""
    xs = np.array(xs, float)
    A = np.array([r[0] for r in rows], float).reshape(len(rows), len(xs))
    t = np.array([r[1] for r in rows], float)
    P = np.eye(len(xs)) + A.T.dot(A)
    m = np.linalg.solve(P, A.T.dot(t))
    an = a + len(rows) / 2.
    # Residual form, from the predictive errors of the prior.
    K = np.eye(len(rows)) + A.dot(A.T)
    bn = b + .5 * (t.dot(np.linalg.solve(K, t)) if len(rows) else 0.)
    loc = xs.dot(m)
    s = bn / an * (1 + xs.dot(np.linalg.solve(P, xs)))
    nu = 2 * an
    lp = math.lgamma(nu / 2 + .5) - math.lgamma(nu / 2) - .5 * math.log(
        nu * math.pi * s) - (nu / 2 + .5) * math.log1p((y - loc) ** 2 / nu / s)
    return lp, loc


class Conditional(ref.Mixture):
    """A view some columns of which are regressions on others.

    regs: {column: (inputs, [None or number of categories], a, b)}"""

    def __init__(self, cols, Z, alpha, regs):
        ref.Mixture.__init__(self, cols, Z, alpha)
        self.regs = regs

    def code(self, c, row):
        out = [1.]
        for x, k in zip(*self.regs[c][:2]):
            out += [float(row[x])] if k is None else [
                float(int(row[x]) == i) for i in range(k)]
        return out

    def past(self, c, k):
        used = list(self.regs[c][0]) + [c]
        rows = [{x: self.cols[x][3][r] for x in used}
            for r, z in enumerate(self.Z) if z == k]
        return [(self.code(c, r), r[c]) for r in rows
            if all(v == v for v in r.values())]

    def row_given_cluster(self, row, k, given=()):
        """Each regression's inputs are in the row or in given."""
        full = dict(given)
        full.update(row)
        out = []
        for c, x in row.items():
            if c not in self.regs:
                out.append(self.cell(c, x, k))
            else:
                a, b = self.regs[c][2:]
                out.append(student(x, self.code(c, full), self.past(c, k), a,
                    b)[0])
        return math.fsum(out)

    def location(self, c, row, k):
        a, b = self.regs[c][2:]
        return student(0., self.code(c, row), self.past(c, k), a, b)[1]

    def logpdf(self, targets, given):
        lz = self.cluster_logps(given)
        return ref.lse([lz[k] + self.row_given_cluster(targets, k, given)
            for k in lz])


def closed(regs, targets, given):
    """Whether the density needs no unobserved input."""
    return all(set(regs[c][0]) <= set(given) for c in given if c in regs) \
        and all(set(regs[c][0]) <= set(given) | set(targets)
        for c in targets if c in regs)


def conditional(sp, changes, rng):
    """A state with columns turned into regressions: {column: inputs}."""
    s = build(sp, rng)
    kind = dict(zip(sp['outputs'], sp['kinds']))
    regs = {}
    for i, (c, ins) in enumerate(changes):
        s.update_cctype(c, 'linear_regression', {'inputs': list(ins)})
        a, b = 1.5 + i, .7
        s.dim_for(c).set_hypers({'a': a, 'b': b})
        regs[c] = (list(ins), [{'b': 2, 'c': 3, 'C': 2}.get(kind[x])
            for x in ins], a, b)
    X = dict(zip(sp['outputs'], data(sp)))
    snap = snapshot(s)
    mixes = {}
    for v, (Zr, a) in snap['views'].items():
        cols = {c: snap['cols'][c][:3] + (X[c],)
            for c in snap['outputs'] if snap['Zv'][c] == v}
        mixes[v] = Conditional(cols, Zr, a, {c: r for c, r in regs.items()
            if c in cols})
    return s, snap, regs, mixes
