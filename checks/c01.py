"""After any history of edits and transitions the model is the one its data
and partitions define."""
import copy
import itertools
import math

import numpy as np

import cc
import mc
import ref
from crng import CRng, explore

PID = 'C01'
RULE = ('all sequences, to the stated depth, of row/column/cell edits, type '
    'changes and kernels (every random outcome of row and column moves) '
    'from each initial partition, merged on the canonical state; every edge '
    'executed on the real State; the same for conditional columns (every '
    'ordered choice of inputs, several in one view) and composed models')
ASSUMPTIONS = ['three columns, at most three rows, one alphabet value per cell',
    'hyperparameter grids cut to two points while branching on their draws']


def cases(tier):
    quick = tier == 'quick'
    for i, (kinds, zv, zrv, missing) in enumerate([
            ('nc', [0, 0], {0: [0, 1]}, [(0, 1)]),
            ('ncp', [0, 0, 1], {0: [0, 1], 1: [0, 0]}, [(1, 0)]),
            ('bn', [0, 1], {0: [0, 0], 1: [0, 1]}, [(0, 0)]),
            ('en', [5, 2], {5: [3, 1], 2: [1, 1]}, []),
            ('ncb', [1, 8, 1], {1: [0, 2], 8: [4, 4]}, [(0, 0), (2, 1)]),
            ('gl', [0, 0], {0: [0, 0]}, [(1, 1)]),
            ('ncnp', [4, 4, 6, 6], {4: [0, 1], 6: [2, 2]},
                [(0, 1), (1, 1), (2, 1), (3, 1)]),
            ('cv', [0, 1], {0: [0, 1], 1: [2, 0]}, [(1, 0)])]
            + ([] if quick else [
            ('pb', [3, 3], {3: [1, 0]}, [(0, 1)])])):
        sp = cc.spec(kinds, 2, zv, zrv, missing=missing)
        # Split on the first operation so that cases run in parallel.
        n = len(ops_for(kinds, 2, len(kinds), set(range(len(kinds)))))
        for first in range(n):
            yield {'id': '%d:%s/%d' % (i, kinds, first), 'state': sp,
                'depth': (2 if quick else 3) - (len(kinds) > 3),
                'first': first}
    yield {'id': 'view', 'state': cc.spec('ncb', 3, [0, 0, 0],
        {0: [0, 1, 0]}, missing=[(0, 1), (2, 2)]), 'view': True,
        'depth': 4 if quick else 6}
    for i, (kinds, zv, zrv, missing) in enumerate([
            ('nnp', [7, 7, 2], {7: [3, 1, 3], 2: [5, 5, 0]},
                [(1, 2), (2, 0)]),
            ('npb', [0, 0, 0], {0: [0, 1, 0]}, [(0, 1), (1, 0), (1, 2)])]):
        for first in ('cond', 'row', 'force', 'rows', 'hook'):
            yield {'id': 'conditional%d:%s' % (i, first), 'first': first,
                'conditional': cc.spec(kinds, 3, zv, zrv, missing=missing),
                'depth': 3 if quick else 4}
    for first in ('cond', 'cond-last'):
        yield {'id': 'conditional-wide:%s' % first, 'first': first,
            'ops': ['cond', 'cond-last', 'unrow', 'uncol', 'row-new'],
            'conditional': cc.spec('nnnp', 3, [7] * 4, {7: [3, 1, 3]}),
            'depth': 3 if quick else 5}
    for first in ('cond', 'cond-last', 'forest'):
        yield {'id': 'conditional-mixed:%s' % first, 'first': first,
            'ops': ['cond', 'cond-last', 'forest', 'row-new', 'unrow'],
            'conditional': cc.spec('ncnc', 3, [7] * 4, {7: [3, 1, 3]}),
            'depth': 3 if quick else 5}
    for i, (kinds, target, outputs) in enumerate([
            ('ncnb', 0, [9, 4, 7, 2]), ('ncpn', 3, [1, 6, 0, 3])]):
        sp = cc.spec(kinds, 3, [5] * 4, {5: [1, 0, 1]}, outputs=outputs,
            missing=[(target, 1)] if i else [])
        yield {'id': 'inputs%d' % i, 'inputs': sp, 'target': target}
    for kind in 'ncpev':
        yield {'id': 'dim-' + kind, 'dim': kind, 'rows': 3 if tier == 'quick'
            else 4}


def ops_for(kinds, n_rows, n_cols, cols):
    """Operations enabled by shape (a function of the model state only)."""
    ops = []
    if n_rows < 3:
        ops += [('row', 'full', None), ('row', 'part', None),
            ('row', 'empty', None), ('row', 'full', 'new'),
            ('row', 'part', 'old')]
    if n_rows > 1:
        ops.append(('unrow',))
    if n_cols < 4:
        ops += [('col', 'old'), ('col', 'new'), ('col', None)]
    if n_cols > 1:
        ops += [('uncol', 'first'), ('uncol', 'last')]
    ops += [('force',), ('cctype',), ('k', 'rows'), ('k', 'columns'),
        ('k', 'hypers'), ('k', 'alphas'), ('k', 'grids')]
    return ops


def empty(X):
    """Some column has no observed value (its grids are undefined)."""
    return any(all(x != x for x in xs) for xs in X.values())


def apply_op(state, X, op, rng):
    """Yield (label, state', X') for every outcome of op."""
    outs = list(state.outputs)
    n = state.n_rows()
    if empty(X):
        return

    def outcomes(edit, newX, base=None):
        """Every random outcome of edit(copy)."""
        base = state if base is None else base

        def go():
            s = copy.deepcopy(base)
            edit(s)
            return s
        for p, s, choice in explore(rng, go, max_paths=3000):
            yield '%s%s' % (op, choice), s, newX

    def value(c, j):
        kind = state.dim_for(c).name()
        return {'normal': [.7, -2.], 'categorical': [1, 0],
            'bernoulli': [1, 0], 'poisson': [2, 0], 'exponential': [.2, 1.],
            'geometric': [0, 3], 'lognormal': [2., .3],
            'vonmises': [1., 4.]}[kind][j]
    if op[0] == 'row':
        obs = {}
        if op[1] == 'full':
            obs = {c: value(c, 0) for c in outs}
        elif op[1] == 'part':
            obs = {outs[0]: value(outs[0], 1)}
        newX = {c: X[c] + [float(obs.get(c, cc.NAN))] for c in outs}
        want = {}
        if op[2]:
            for v, view in state.views.items():
                ks = [int(k) for k in view.Nk()]
                z = max(ks) + 2 if op[2] == 'new' else min(ks)
                obs[view.outputs[0]] = z
                want[v] = z
        for label, s, nX in outcomes(
                lambda s: s.incorporate(n, dict(obs)), newX):
            for v, z in want.items():
                if int(s.views[v].Zr(n)) != z:
                    raise AssertionError('row placed in cluster %s of view %s'
                        ', requested %s' % (s.views[v].Zr(n), v, z))
            yield label, s, nX
    elif op[0] == 'unrow':
        newX = {c: X[c][:-1] for c in outs}
        for r in outcomes(lambda s: s.unincorporate(n - 1), newX):
            yield r
    elif op[0] == 'col':
        new = max(outs) + 2
        T = [1., cc.NAN, 0., 1.][:n]
        newX = dict(X)
        newX[new] = list(T)
        v = {'old': state.Zv(outs[0]), 'new': max(state.views) + 3,
            None: None}[op[1]]

        def edit(s):
            given = list(T)
            s.incorporate_dim(given, [new], cctype='bernoulli', v=v)
            if v is not None and int(s.Zv(new)) != v:
                raise AssertionError('column placed in view %s, requested %s'
                    % (s.Zv(new), v))
        # Hyperparameters of the new column start from a 30 point grid:
        # fixed by two seeds instead of branching.
        for sd in (1, 2):
            s = copy.deepcopy(state)
            rng.base.seed(sd)
            edit(s)
            yield '%s#%d' % (op, sd), s, newX
    elif op[0] == 'uncol':
        c = outs[0] if op[1] == 'first' else outs[-1]
        newX = {k: x for k, x in X.items() if k != c}
        for r in outcomes(lambda s: s.unincorporate_dim(c), newX):
            yield r
    elif op[0] == 'force':
        for c in outs:
            for r in range(n):
                if X[c][r] != X[c][r]:
                    val = value(c, 1)
                    newX = {k: list(x) for k, x in X.items()}
                    newX[c][r] = float(val)
                    for o in outcomes(
                            lambda s: s.force_cell(r, {c: val}), newX):
                        yield o
        # Several cells of one row at once.
        for r in range(n):
            holes = [c for c in outs if X[c][r] != X[c][r]]
            for k in range(2, len(holes) + 1):
                for cs in itertools.combinations(holes, k):
                    vals = {c: value(c, 1) for c in cs}
                    newX = {c: list(x) for c, x in X.items()}
                    for c in cs:
                        newX[c][r] = float(vals[c])
                    for o in outcomes(
                            lambda s: s.force_cell(r, dict(vals)), newX):
                        yield o
    elif op[0] == 'cctype':
        c = outs[-1]
        vals = [x for x in X[c] if x == x]
        to = ('categorical', {'k': 6}) if state.dim_for(c).name() == \
            'normal' and all(x == int(x) and x >= 0 for x in vals) \
            else ('normal', None)
        for sd in (1, 2):
            s = copy.deepcopy(state)
            rng.base.seed(sd)
            s.update_cctype(c, to[0], to[1])
            if s.cctypes()[-1] != to[0]:
                raise AssertionError('type is %s' % s.cctypes()[-1])
            yield '%s#%d' % (op, sd), s, X
    elif op[1] == 'rows':
        for v in sorted(state.views):
            for r in range(n):
                def edit(s):
                    s.transition_view_rows(views=[v], rows=[r])
                for o in outcomes(edit, X):
                    yield o
    elif op[1] == 'columns':
        for c in outs:
            for o in outcomes(lambda s: s.transition_dims(cols=[c]), X):
                yield o
    elif op[1] in ('hypers', 'alphas', 'grids'):
        for sd in (1, 2):
            s = copy.deepcopy(state)
            rng.base.seed(sd)
            if op[1] == 'hypers':
                s.transition_dim_hypers()
            elif op[1] == 'grids':
                s.transition_dim_grids()
            else:
                s.transition_crp_alpha()
                s.transition_view_alphas()
            yield '%s#%d' % (op, sd), s, X


def run_conditional(case, rec):
    """Histories with conditional columns and attached models against a
    State built at once from what they leave behind."""
    from cgpm.crosscat.state import State
    import models

    def fresh(s):
        outs = list(s.outputs)
        n = s.n_rows()
        dargs = []
        for c in outs:
            d = s.dim_for(c)
            # The arguments given to a column are its own.
            da = copy.deepcopy(dict(d.distargs))
            dargs.append(da)
        Zv = {c: int(s.Zv(c)) for c in outs}
        f = State(np.array([list(s.X[c]) for c in outs]).T, outputs=outs,
            cctypes=[s.dim_for(c).name() for c in outs], distargs=dargs,
            hypers=[dict(s.dim_for(c).hypers) for c in outs], Zv=Zv,
            Zrv={v: [int(s.views[v].Zr(r)) for r in range(n)]
                for v in set(Zv.values())}, alpha=float(s.alpha()),
            view_alphas={v: float(s.views[v].alpha())
                for v in set(Zv.values())}, rng=type(s.rng)(5))
        for t in sorted(s.hooked_cgpms):
            f.compose_cgpm(copy.deepcopy(s.hooked_cgpms[t]))
        return f

    def answers(s):
        return [a for a in models.state_answers(s)
            if a[0] not in ('diagnostics', 'tokens')]
    ops = ['cond', 'row', 'row-new', 'unrow', 'force', 'col', 'uncol',
        'ctype', 'hook', 'hypers', 'rows', 'unhook']
    seen = set()
    # Forests only take numpy's own generators.
    start = np.random.RandomState(1) if 'forest' in case.get('ops', ()) \
        else CRng(1)
    frontier = [(cc.build(case['conditional'], start), [])]
    for level in range(case['depth']):
        nxt = []
        for s, hist in frontier:
            for op in (case.get('ops', ops) if level else [case['first']]):
                key = '%s: %s' % (case['id'], '>'.join(hist + [op]))
                s2 = copy.deepcopy(s)
                with rec.guard(key):
                    if not models.state_op(s2, op):
                        continue
                    rec.trans()
                    rec.trace()
                    if op in ('cond', 'cond-last', 'forest'):
                        rec.eval()
                        was = [c for c in s.outputs
                            if s.dim_for(c).is_conditional()]
                        for c in s2.outputs:
                            if c in was or not s2.dim_for(c).is_conditional():
                                continue
                            want = sorted(d for d in s.outputs if d != c and
                                d not in was and s.Zv(d) == s.Zv(c))
                            used = sorted(s2.dim_for(c).inputs[1:])
                            if used != want:
                                rec.fail(key, 'column %s depends on %s, the '
                                    'unconditional columns of its view are '
                                    '%s' % (c, used, want))
                    if 'forest' in hist + [op]:
                        # A forest is random; only its inputs are compared.
                        rec.state((case['id'], repr(sorted(
                            (c, s2.dim_for(c).name(), list(
                            s2.dim_for(c).inputs)) for c in s2.outputs))))
                        nxt.append((s2, hist + [op]))
                        continue
                    got = answers(s2)
                    k = repr(models.flat(got))
                    if k in seen:
                        continue
                    seen.add(k)
                    rec.state(k)
                    want = answers(fresh(s2))
                    rec.eval(len(want))
                    bad = models.diff(want, got)
                    if bad:
                        rec.fail(key, 'differs from a fresh model: ' + bad)
                        continue
                    nxt.append((s2, hist + [op]))
                if len(rec.fails) > 10:
                    return
        frontier = nxt


def run_inputs(case, rec):
    """A column made conditional on every ordered choice of inputs."""
    from cgpm.crosscat.state import State
    import models
    sp = case['inputs']
    outs = list(sp['outputs'])
    col = outs[case['target']]
    others = [c for c in outs if c != col]
    choices = [None] + [list(p) for r in range(1, len(others) + 1)
        for p in itertools.permutations(others, r)]
    for ins in choices:
        key = '%s: inputs %s' % (case['id'], ins)
        with rec.guard(key):
            rec.trans()
            rec.trace()
            s = cc.build(sp, CRng(1))
            s.update_cctype(col, 'linear_regression',
                {} if ins is None else {'inputs': list(ins)})
            used = [int(c) for c in s.dim_for(col).inputs[1:]]
            rec.eval()
            if set(used) != set(ins or others) or (
                    ins is not None and used != ins):
                rec.fail(key, 'the column depends on %s' % (used,), state=sp)
                continue
            base = cc.build(sp, CRng(1))
            dargs = [dict(base.dim_for(c).distargs) for c in outs]
            # An unordered request leaves the order to the model.
            dargs[outs.index(col)] = {'inputs': {'indexes': list(used),
                'stattypes': [base.dim_for(c).name() for c in used],
                'statargs': [base.dim_for(c).get_distargs() for c in used]}}
            kinds = [base.dim_for(c).name() for c in outs]
            kinds[outs.index(col)] = 'linear_regression'
            n = base.n_rows()
            v = base.Zv(col)
            fresh = State(np.array([list(base.X[c]) for c in outs]).T,
                outputs=outs, cctypes=kinds, distargs=dargs,
                hypers=[dict(s.dim_for(c).hypers) for c in outs],
                Zv={c: int(base.Zv(c)) for c in outs},
                Zrv={v: [int(base.views[v].Zr(r)) for r in range(n)]},
                alpha=float(base.alpha()),
                view_alphas={v: float(base.views[v].alpha())}, rng=CRng(5))
            got, want = [[a for a in models.state_answers(m)
                if a[0] != 'diagnostics'] for m in (s, fresh)]
            for m, out in ((s, got), (fresh, want)):
                # Each input in turn moves the prediction.
                for c in used:
                    given = {d: models.PROBE.get(m.dim_for(d).name(), .4)
                        for d in others}
                    given[c] = 0 if given[c] else 1
                    models.ask(out, 'logpdf given %s' % sorted(given.items()),
                        m.logpdf, -1, {col: .4}, given)
            rec.state(repr(models.flat(got)))
            rec.eval(len(want))
            bad = models.diff(want, got)
            if bad:
                rec.fail(key, 'differs from a model built so: ' + bad,
                    state=sp)


def run_case(case, rec):
    if 'dim' in case:
        return run_dim(case, rec)
    if 'conditional' in case:
        return run_conditional(case, rec)
    if 'inputs' in case:
        return run_inputs(case, rec)
    if case.get('view'):
        return run_view(case, rec)
    sp = case['state']
    rng = CRng(1)
    s0 = cc.build(sp, rng)
    X0 = dict(zip(sp['outputs'], cc.data(sp)))
    snap = cc.verify(rec, 'initial %s' % case['id'], s0, X0)
    rec.state(cc.canon(snap))
    frontier = [(s0, X0, [])]
    seen = {cc.canon(snap)}
    for level in range(case['depth']):
        nxt = []
        for state, X, hist in frontier:
            ops = ops_for(sp['kinds'], state.n_rows(), state.n_cols(), None)
            if level == 0:
                ops = ops[case['first']:case['first'] + 1]
            for op in ops:
                hold = (rec.fails, len(rec.fails))
                try:
                    for label, s, nX in apply_op(state, X, op, rng):
                        rec.trans()
                        rec.trace()
                        snap = cc.snapshot(s)
                        key = cc.canon(snap)
                        fresh = key not in seen
                        h2 = hist + [label]
                        # Bookkeeping is checked on every edge; the queries
                        # on every new state.
                        cc.verify(rec, 'history %s' % '>'.join(
                            x.split('[')[0].split('#')[0] for x in h2), s, nX,
                            queries=fresh, hist=h2)
                        rec.outcome(key[:3])
                        if fresh:
                            seen.add(key)
                            rec.state(key)
                            nxt.append((s, nX, h2))
                            if len(h2) == 3:
                                rec.sample({'start': sp, 'history': h2})
                except Exception as e:
                    import traceback
                    rec.fail('history %s>%s' % ('>'.join(x.split('[')[0]
                        .split('#')[0] for x in hist), op),
                        'unexpected %r' % (e,), history=hist,
                        trace=traceback.format_exc()[-1500:])
                if len(rec.fails) > 20:
                    return
        if level + 1 < case['depth']:
            # Keep the frontier bounded by structure: one representative of
            # each state without its hyperparameters.
            frontier, kept = [], set()
            for s, X, h in nxt:
                k = cc.canon(cc.snapshot(s))
                k = (k[0], k[1], tuple(z for z, a in k[2]),
                    tuple((c, t, x) for c, t, h_, x in k[3]))
                if k not in kept:
                    kept.add(k)
                    frontier.append((s, X, h))
        else:
            frontier = []


def run_view(case, rec):
    """A view alone: rows leave and come back, in any order and cluster."""
    sp = case['state']
    rng = CRng(1)
    view0 = cc.build(sp, rng).views[0]
    data = dict(zip(sp['outputs'], cc.data(sp)))
    n = sp['n']
    tok = view0.outputs[0]
    hypers = {c: dict(view0.dims[c].hypers) for c in view0.dims}

    def key(view):
        return tuple((r, int(view.Zr(r))) for r in sorted(view.Zr()))

    def verify(view, hist):
        zr = dict(key(view))
        rows = sorted(zr)
        cols = {c: (view.dims[c].name(), hypers[c],
            dict(view.dims[c].get_distargs()), [data[c][r] for r in rows])
            for c in view.dims}
        m = ref.Mixture(cols, [zr[r] for r in rows], view.alpha())
        rec.eval()
        want = m.score()
        if not ref.close(view.logpdf_score(), want):
            rec.fail('view score', 'view score %r, model says %r'
                % (view.logpdf_score(), want), history=hist)
        cnt = {}
        for z in zr.values():
            cnt[z] = cnt.get(z, 0) + 1
        if dict(view.Nk()) != cnt:
            rec.fail('view counts', 'row counts %s, expected %s'
                % (dict(view.Nk()), cnt), history=hist)
        if not rows:
            return
        row = {c: cc.PROBE[cols[c][0]] for c in cols}
        got, want = view.logpdf(-1, row), m.logpdf(row, {})
        rec.eval()
        if not ref.close(got, want):
            rec.fail('view logpdf', 'view logpdf %r, model says %r'
                % (got, want), history=hist)
    seen = {key(view0)}
    rec.state(('view', key(view0)))
    verify(view0, [])
    frontier = [(view0, [])]
    for _ in range(case['depth']):
        nxt = []
        for view, hist in frontier:
            here = dict(key(view))
            ops = []
            for r in range(n):
                if r in here:
                    if len(here) > 1:
                        ops.append(('out', r))
                else:
                    ks = sorted(set(here.values()))
                    ops += [('in', r, k) for k in ks + [max(ks + [0]) + 1, 7]]
                    ops.append(('in', r, None))
            for op in ops:
                def go():
                    v = copy.deepcopy(view)
                    if op[0] == 'out':
                        v.unincorporate(op[1])
                    else:
                        obs = {c: data[c][op[1]] for c in v.dims}
                        if op[2] is not None:
                            obs[tok] = op[2]
                        v.incorporate(op[1], obs)
                    return v
                for _p, v, ch in explore(rng, go):
                    rec.trans()
                    rec.trace()
                    h2 = hist + [op]
                    if op[0] == 'in' and op[2] is not None \
                            and int(v.Zr(op[1])) != op[2]:
                        rec.fail('view placement', 'row %s requested in '
                            'cluster %s is in %s' % (op[1], op[2],
                            v.Zr(op[1])), history=h2)
                    verify(v, h2)
                    k = key(v)
                    if k not in seen:
                        seen.add(k)
                        rec.state(('view', k))
                        nxt.append((v, h2))
        frontier = nxt


def run_dim(case, rec):
    """A dim alone: rows recorded with any cluster, then forgotten."""
    from cgpm.mixtures.dim import Dim
    cctype, distargs, hypers, vals = cc.KINDS[case['dim']]
    vals = [vals[0], vals[1], cc.NAN]
    R = case['rows']

    def make():
        d = Dim([3], [9], cctype=cctype, hypers=dict(hypers),
            distargs=dict(distargs) if distargs else None, rng=CRng(1))
        d.transition_hyper_grids([v for v in vals if v == v])
        return d
    probe = cc.PROBE[cctype]

    def verify(d, st, hist):
        groups = {}
        for s in st:
            if s is not None and vals[s[1]] == vals[s[1]]:
                groups.setdefault(s[0], []).append(vals[s[1]])
        want = math.fsum(ref.marginal(cctype, g, hypers, distargs)
            for g in groups.values())
        rec.eval()
        if not ref.close(d.logpdf_score(), want):
            rec.fail('dim %s score' % case['dim'], 'score %r, model says %r'
                % (d.logpdf_score(), want), history=hist)
        for k in (0, 1, 2):
            rec.eval()
            got = d.logpdf(-1, {3: probe}, None, {9: k})
            want = ref.pred(cctype, probe, groups.get(k, []), hypers,
                distargs)
            if not ref.close(got, want):
                rec.fail('dim %s logpdf' % case['dim'], 'cluster %s logpdf '
                    '%r, model says %r' % (k, got, want), history=hist)
    start = (None,) * R
    seen = {start}
    rec.state((case['id'], start))
    frontier = [(make(), start, [])]
    while frontier:
        nxt = []
        for d0, st, hist in frontier:
            for r in range(R):
                ops = [None] if st[r] is not None else \
                    [(k, j) for k in (0, 1) for j in range(3)]
                for op in ops:
                    new = list(st)
                    new[r] = op
                    new = tuple(new)
                    d = copy.deepcopy(d0)
                    if op is None:
                        d.unincorporate(r)
                    else:
                        d.incorporate(r, {3: vals[op[1]]}, {9: op[0]})
                    rec.trans()
                    rec.trace()
                    h2 = hist + [(r, op)]
                    verify(d, new, h2)
                    if new not in seen:
                        seen.add(new)
                        rec.state((case['id'], new))
                        nxt.append((d, new, h2))
        frontier = nxt
