"""Small fitted models of every type, with fixed query sets.

A subject gives a named model type: how to build it in each configuration,
the edits it admits and the (deterministic) answers it gives."""
import copy
import math

import numpy as np

import cc
from crng import CRng

NAN = float('nan')


def ask(out, label, f, *a, **k):
    """Record the answer, or the kind of error, of a query."""
    try:
        out.append((label, f(*a, **k)))
    except Exception as e:
        out.append((label, 'raises ' + type(e).__name__))


def flat(x):
    """Comparable form of an answer."""
    if isinstance(x, dict):
        return {str(k): flat(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [flat(v) for v in x]
    if isinstance(x, np.ndarray):
        return flat(x.tolist())
    if isinstance(x, np.generic):
        return flat(x.item())
    if isinstance(x, bytes):
        return x.decode('latin1')
    return x


def same(a, b, tol=1e-8):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(1, abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(
            same(x, y, tol) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def diff(a, b):
    """First differing answer of two answer lists, or None."""
    if len(a) != len(b):
        return 'number of answers %d, was %d' % (len(b), len(a))
    for (la, va), (lb, vb) in zip(a, b):
        if la != lb:
            return 'question %s became %s' % (la, lb)
        if not same(flat(va), flat(vb)):
            return '%s: %r, was %r' % (la, vb, va)
    return None


# ------------------------------------------------------------------ states
def state_answers(s, full=True):
    """Everything a user can ask a State, deterministically."""
    out = []
    outs = list(s.outputs)
    n = s.n_rows()
    out.append(('outputs', sorted(outs)))
    out.append(('n_rows', n))
    out.append(('n_cols', s.n_cols()))
    out.append(('data', {c: list(s.X[c]) for c in outs}))
    out.append(('data_array columns', sorted(
        repr([float(x) for x in col]) for col in s.data_array().T)))
    out.append(('Zv', {c: int(s.Zv(c)) for c in outs}))
    out.append(('Nv', dict(s.Nv())))
    out.append(('alpha', float(s.alpha())))
    out.append(('composite', bool(s.is_composite())))
    out.append(('tokens', sorted(s.hooked_cgpms)))
    out.append(('Cd', [list(map(int, b)) for b in (s.Cd or [])]))
    out.append(('Ci', [list(map(int, b)) for b in (s.Ci or [])]))
    out.append(('diagnostics', {k: v for k, v in s.diagnostics.items() if v}))
    for c in outs:
        d = s.dim_for(c)
        out.append(('column %d' % c, [d.name(), dict(d.hypers),
            sorted(d.inputs), flat(d.get_distargs())]))
    for v in sorted(set(s.Zv(c) for c in outs)):
        view = s.views[v]
        out.append(('view %d' % v, [{r: int(view.Zr(r)) for r in range(n)},
            dict(view.Nk()), float(view.alpha()), sorted(view.dims)]))
    ask(out, 'score', s.logpdf_score)
    ask(out, 'likelihood', s.logpdf_likelihood)
    if not full:
        return out
    probe = {c: PROBE.get(s.dim_for(c).name(), .4) for c in outs}
    # Marginalising an input of a conditional column is done by sampling.
    used = set(i for d in s.dims() for i in d.inputs[1:])
    for c in outs:
        if not s.dim_for(c).is_conditional() and not (
                used and s.hooked_cgpms):
            ask(out, 'logpdf %d' % c, s.logpdf, -1, {c: probe[c]})
    ask(out, 'logpdf all', s.logpdf, -1, dict(probe))
    if len(outs) > 1:
        for c in outs:
            given = {o: probe[o] for o in outs if o != c}
            if c not in used:
                ask(out, 'logpdf %d|rest' % c, s.logpdf, -1, {c: probe[c]},
                    given)
    for r in range(n):
        t = {c: probe[c] for c in outs if s.X[c][r] != s.X[c][r]}
        if t and not used:
            ask(out, 'logpdf row %d' % r, s.logpdf, r, t)
    for cgpm in s.hooked_cgpms.values():
        t = cgpm.outputs[0]
        given = dict(probe) if used else {
            i: probe[i] for i in cgpm.inputs if i in probe}
        inputs = {i: .5 for i in cgpm.inputs if i not in probe}
        ask(out, 'logpdf hooked %d' % t, s.logpdf, -1, {t: .7}, given, inputs)
    for c in outs:
        for d in outs:
            ask(out, 'dependence %d %d' % (c, d),
                s.dependence_probability, c, d)
    for a in range(n):
        for b in range(n):
            ask(out, 'similarity %d %d' % (a, b), s.row_similarity, a, b)
            ask(out, 'relevance %d %d' % (a, b), s.relevance_probability, a,
                [b], outs[0])
    for v in sorted(set(s.Zv(c) for c in outs)):
        view = s.views[v]
        if any(d.is_conditional() for d in view.dims.values()):
            continue
        row = {c: probe[c] for c in view.dims}
        for k in sorted(view.Nk()) + [max(view.Nk()) + 1]:
            ask(out, 'view %d cluster %d' % (v, k), view.logpdf, -1, row,
                {view.outputs[0]: k})
    return out


PROBE = dict(cc.PROBE, beta=.4, normal_trunc=.5, random_forest=1)


def state_op(s, op, seed=3):
    """Apply one edit; returns False if it does not apply."""
    outs = list(s.outputs)
    n = s.n_rows()
    if seed is not None:
        s.rng.seed(seed)
    first = outs[0]

    def val(c):
        return PROBE.get(s.dim_for(c).name(), .3)
    if op == 'row':
        if n > 3:
            return False
        s.incorporate(n, {c: val(c) for c in outs[1:]})
    elif op == 'row-new':
        if n > 3:
            return False
        view = s.views[s.Zv(first)]
        s.incorporate(n, dict({c: val(c) for c in outs},
            **{}) | {view.outputs[0]: max(view.Nk()) + 2})
    elif op == 'unrow':
        if n < 3:
            return False
        s.unincorporate(n - 1)
    elif op == 'force':
        for c in outs:
            for r in range(n):
                if s.X[c][r] != s.X[c][r]:
                    s.force_cell(r, {c: val(c)})
                    return True
        return False
    elif op == 'col':
        if len(outs) > 3:
            return False
        s.incorporate_dim([1., 0., NAN, 1.][:n], [max(outs) + 3],
            cctype='bernoulli', v=max(s.views) + 4)
    elif op == 'uncol':
        free = [c for c in outs if not any(
            c in s.dim_for(d).inputs[1:] for d in outs) and not any(
            c in g.inputs for g in s.hooked_cgpms.values())]
        if len(outs) < 2 or not free:
            return False
        s.unincorporate_dim(free[0])
    elif op == 'ctype':
        c = [c for c in outs if s.dim_for(c).name() in
            ('categorical', 'bernoulli')]
        if not c:
            return False
        s.update_cctype(c[-1], 'categorical', {'k': 5})
    elif op in ('cond', 'cond-last'):
        for c in (outs if op == 'cond' else reversed(outs)):
            view = s.view_for(c)
            if s.dim_for(c).name() == 'normal' and any(
                    d != c and not view.dims[d].is_conditional()
                    for d in view.dims):
                s.update_cctype(c, 'linear_regression')
                return True
        return False
    elif op == 'forest':
        for c in outs:
            d, view = s.dim_for(c), s.view_for(c)
            if d.name() == 'categorical' and any(
                    e != c and not view.dims[e].is_conditional()
                    for e in view.dims):
                s.update_cctype(c, 'random_forest', {'k': int(
                    d.get_distargs()['k'])})
                return True
        return False
    elif op == 'hook':
        if s.hooked_cgpms:
            for t in sorted(s.hooked_cgpms)[:1]:
                s.decompose_cgpm(t)
            used = [g.outputs[0] for g in s.hooked_cgpms.values()]
            s.compose_cgpm(linreg(s.rng, 91 if 91 not in used else 90,
                [first]))
        else:
            s.compose_cgpm(linreg(s.rng, 90, [first]))
            s.compose_cgpm(linreg(s.rng, 92, [first]))
    elif op == 'unhook':
        if not s.hooked_cgpms:
            return False
        for t in sorted(s.hooked_cgpms):
            s.decompose_cgpm(t)
    elif op == 'hypers':
        s.transition_dim_hypers()
        s.transition_crp_alpha()
        s.transition_view_alphas()
    elif op == 'rows':
        s.transition_view_rows()
    elif op == 'cols':
        if any(d.is_conditional() for d in s.dims()):
            return False
        s.transition_dims()
    elif op == 'work':
        if any(d.is_conditional() for d in s.dims()):
            return False
        s.transition(N=2, kernels=['alpha', 'view_alphas', 'column_hypers'],
            progress=False, checkpoint=1)
    elif op == 'sethypers':
        d = s.dim_for(first)
        d.set_hypers({k: v * .5 + .1 for k, v in d.hypers.items()})
    else:
        raise KeyError(op)
    return True


STATE_OPS = ['row', 'row-new', 'unrow', 'force', 'col', 'uncol', 'ctype',
    'cond', 'hook', 'hypers', 'rows', 'cols', 'work']


# ------------------------------------------------------------------ others
def linreg(rng, out, inputs, hypers=None, data=True, kinds=None):
    from cgpm.regressions.linreg import LinearRegression
    kinds = kinds or ['numerical'] * len(inputs)
    m = LinearRegression([out], list(inputs), hypers=hypers, distargs={
        'inputs': {'stattypes': [k if isinstance(k, str) else 'categorical'
            for k in kinds],
        'statargs': [None if isinstance(k, str) else {'k': k}
            for k in kinds]}}, rng=rng)
    if data:
        for r, (y, x) in enumerate([(1., .5), (2.5, 1.), (-.3, 0.)]):
            m.incorporate(r, {out: y}, {i: x for i in inputs})
    return m


class Regression(object):
    """LinearRegression, OLS and RandomForest, with numeric and categorical
    inputs."""

    def __init__(self, name, conf):
        self.name, self.conf = name, conf

    def build(self):
        rng = np.random.RandomState(4)
        inputs = [3, 1]
        st, sa = (['numerical', 'categorical'], [None, {'k': 3}]) \
            if self.conf != 'numeric' else (
            ['numerical', 'numerical'], [None, None])
        dist = {'inputs': {'stattypes': st, 'statargs': sa}}
        if self.name == 'linreg':
            from cgpm.regressions.linreg import LinearRegression
            hy = None
            if self.conf == 'prior':
                p = 5
                hy = {'a': 2., 'b': .7,
                    'mu': np.arange(p) * .3, 'V': np.diag(np.arange(p) + .5)}
            m = LinearRegression([7], inputs, hypers=hy, distargs=dist,
                rng=rng)
        elif self.name == 'ols':
            from cgpm.regressions.ols import OrdinaryLeastSquares
            m = OrdinaryLeastSquares([7], inputs, distargs=dist, rng=rng,
                params={'noise': 2.5} if self.conf == 'prior' else None)
        else:
            from sklearn.ensemble import RandomForestClassifier
            from cgpm.regressions.forest import RandomForest
            dist['k'] = 3
            m = RandomForest([7], inputs, distargs=dist, rng=rng, params={
                'alpha': .3, 'forest': RandomForestClassifier(
                    n_estimators=3, random_state=1)})
        return m

    def row(self, r):
        y = [1, 0, 2, 1, 1, 2][r] if self.name == 'forest' else \
            [.5, -1., 2.2, .1, 1.7, -.4][r]
        return {7: y}, {3: [.3, 1.4, -2., .9, .2, -1.1][r],
            1: [2, 0, 1, 2, 1, 0][r]}

    ops = ['+0', '+1', '+2', '-0', '-1', 'fit']

    def op(self, m, op):
        m.rng.seed(5)
        if op[0] == '+':
            r = int(op[1:])
            if r in m.data.x:
                return False
            obs, inp = self.row(r)
            m.incorporate(r, obs, inp)
        elif op[0] == '-':
            if int(op[1:]) not in m.data.x:
                return False
            m.unincorporate(int(op[1:]))
        else:
            if not m.data.x:
                return False
            m.transition()
        return True

    def answers(self, m):
        out = []
        out.append(('N', m.N))
        out.append(('rows', {r: list(m.simulate(r, [7], None, {3: .1,
            1: 1}).values()) for r in sorted(m.data.x)}))
        out.append(('inputs', {r: list(m.data.Y[r]) for r in m.data.Y}))
        out.append(('io', [list(m.outputs), list(m.inputs)]))
        for r in range(3):
            for inp in ({3: .5, 1: 0}, {3: -1., 1: 2}):
                ask(out, 'logpdf %d %s' % (r, inp), m.logpdf, 9,
                    self.row(r)[0], None, dict(inp))
        ask(out, 'score', m.logpdf_score)
        if self.name == 'ols':
            ask(out, 'predict', m.simulate, 9, [7], None, {3: .5, 1: 2})
        if self.name == 'linreg':
            out.append(('hypers', [m.get_hypers(), flat(m.mu), flat(m.V)]))
        if self.name == 'forest':
            out.append(('counts', list(m.counts)))
            out.append(('alpha', m.get_params()['alpha']))
        return out


class Neighbours(object):
    """MultivariateKnn and MultivariateKde."""

    def __init__(self, name, conf):
        self.name, self.conf = name, conf

    def build(self):
        rng = np.random.RandomState(4)
        st, sa = ['numerical', 'categorical', 'numerical'], [{}, {'k': 3}, {}]
        dist = {'outputs': {'stattypes': st, 'statargs': sa}}
        if self.name == 'knn':
            from cgpm.knn.mvknn import MultivariateKnn
            return MultivariateKnn([5, 2, 8], None, K=self.conf[0],
                M=self.conf[1], distargs=dist, rng=rng)
        from cgpm.kde.mvkde import MultivariateKde
        return MultivariateKde([5, 2, 8], None, distargs=dist, rng=rng,
            params={'bw': [.7, .2, 1.3]} if self.conf else None)

    def row(self, r):
        return [{5: .1, 2: 0, 8: 3.}, {5: 1.4, 2: 1, 8: 1.1},
            {5: 2.9, 2: 2, 8: -.7}, {5: 4.7, 2: 0}, {8: 1.9, 2: 1}][r]

    ops = ['+0', '+1', '+2', '+3', '+4', '-0', '-2']

    def op(self, m, op):
        m.rng.seed(5)
        r = int(op[1:])
        if op[0] == '+':
            if r in m.data:
                return False
            m.incorporate(r, self.row(r))
        else:
            if r not in m.data:
                return False
            m.unincorporate(r)
        return True

    def answers(self, m):
        out = []
        out.append(('N', m.N))
        out.append(('rows', {r: list(x) for r, x in m.data.items()}))
        out.append(('io', [list(m.outputs), list(m.inputs)]))
        out.append(('args', [flat(m.get_params()), flat(m.get_distargs())]))
        for t, g in [({5: .6}, {8: 1.6}), ({5: .6, 2: 1}, {8: .2}),
                ({2: 0}, {5: 1.}), ({8: 2.}, {5: .9, 2: 1}), ({8: .3}, {})]:
            ask(out, 'logpdf %s|%s' % (t, g), m.logpdf, -1, dict(t), dict(g))
        return out


class Factor(object):
    """FactorAnalysis."""

    def __init__(self, conf):
        self.name, self.conf = 'factor', conf

    def build(self):
        from cgpm.factor.factor import FactorAnalysis
        rng = np.random.RandomState(4)
        if self.conf:
            par = {'mux': np.array([.5, -1., 2.]),
                'Psi': np.diag([.4, 1., .2]),
                'W': np.array([[1.], [.5], [-.7]])}
        else:
            par = None
        return FactorAnalysis([6, 3, 9, 1], None, L=1, params=par, rng=rng)

    def row(self, r):
        return [{6: .1, 3: 0., 9: 3.}, {6: 1.4, 3: 1., 9: 1.1},
            {6: 2.9, 3: 2., 9: -.7}, {6: 4.7, 3: 0., 9: .4},
            {9: 1.9, 3: 1.}][r]

    ops = ['+0', '+1', '+2', '+4', '-0', '-4', 'fit']

    def op(self, m, op):
        if op == 'fit':
            if sum(not any(v != v for v in x) for x in m.data.values()) < 2:
                return False
            m.transition()
            return True
        r = int(op[1:])
        if op[0] == '+':
            if r in m.data:
                return False
            m.incorporate(r, self.row(r))
        else:
            if r not in m.data:
                return False
            m.unincorporate(r)
        return True

    def answers(self, m):
        out = []
        out.append(('N', m.N))
        out.append(('rows', {r: list(x) for r, x in m.data.items()}))
        out.append(('io', [list(m.outputs), list(m.inputs), m.L]))
        out.append(('params', [flat(m.mux), flat(m.Psi), flat(m.W),
            flat(m.mu), flat(m.cov)]))
        for t, g in [({6: .6}, {9: 1.6}), ({6: .6, 1: 1}, {9: .2}),
                ({1: 0}, {6: 1.}), ({9: 2.}, {6: .9, 3: 1}), ({9: .3}, {})]:
            ask(out, 'logpdf %s|%s' % (t, g), m.logpdf, -1, dict(t), dict(g))
        ask(out, 'row', m.logpdf, 4, {6: .2})
        ask(out, 'score', m.logpdf_score)
        return out


def subjects():
    out = {}
    for conf in ('mixed', 'numeric', 'prior'):
        for name in ('linreg', 'ols'):
            out['%s-%s' % (name, conf)] = Regression(name, conf)
    out['forest'] = Regression('forest', 'mixed')
    out['knn-2'] = Neighbours('knn', (2, None))
    out['knn-1-3'] = Neighbours('knn', (3, 2))
    out['kde'] = Neighbours('kde', False)
    out['kde-bw'] = Neighbours('kde', True)
    out['factor'] = Factor(False)
    out['factor-params'] = Factor(True)
    return out
