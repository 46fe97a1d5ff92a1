"""Invalid requests raise ValueError and change nothing."""
import copy

import numpy as np

import cc
import mc
import models
from crng import CRng

PID = 'C14'
RULE = ('every invalid request of an alphabet (each documented kind, at each '
    'row, column and view it can name) in every state reached by every short '
    'edit history of a family of states, views and engines; the request must '
    'raise ValueError, all answers must stay the same, and every later edit '
    'must have the same result as on a copy that never saw the request')
ASSUMPTIONS = ['up to 4 rows and 4 columns, edit histories of length 1 (2)',
    'queries of unknown columns may raise any error']
NAN = float('nan')
FIXED_OPS = ['row-new', 'unrow', 'force', 'uncol', 'hook', 'sethypers']
# Values no component of the type accepts.
BAD = {'normal': [], 'categorical': [-1, 7, .5], 'bernoulli': [2, -1, .5],
    'poisson': [-1, .5], 'exponential': [-1.], 'geometric': [-1, .5],
    'lognormal': [-1., 0.], 'vonmises': [-1., 7.],
    'linear_regression': [], 'beta': [-1, 2]}
# Types that do not accept the values of a column of another type.
MISFIT = {'normal': ['bernoulli', 'poisson', 'lognormal', 'beta'],
    'categorical': ['beta', 'lognormal'], 'poisson': ['bernoulli'],
    'exponential': ['bernoulli', 'poisson'],
    'bernoulli': [], 'geometric': ['bernoulli'], 'lognormal': ['geometric'],
    'vonmises': ['bernoulli'], 'linear_regression': ['bernoulli']}


def states():
    yield 'ncb', cc.spec('ncb', 3, [0, 0, 1], {0: [0, 1, 0], 1: [0, 0, 1]},
        missing=[(1, 0), (2, 1)], outputs=[4, 0, 9])
    yield 'nnp', cc.spec('nnp', 3, [7, 7, 2], {7: [3, 1, 3], 2: [5, 5, 0]},
        missing=[(1, 2), (2, 0)])
    yield 'bC', cc.spec('bC', 2, [1, 1], {1: [2, 0]}, missing=[(0, 1),
        (1, 1)], outputs=[3, 1])
    yield 'gle', cc.spec('gle', 3, [1, 4, 2], {1: [0, 0, 1], 4: [1, 0, 2],
        2: [0, 0, 0]}, missing=[(0, 0), (1, 0), (2, 0)])
    yield 'b', cc.spec('b', 1, [0], {0: [0]})


PRE = [[], ['row-new'], ['force'], ['unrow'], ['hook'], ['cond'], ['col'],
    ['uncol'], ['ctype'], ['rows']]


def cases(tier):
    quick = tier == 'quick'
    for name, sp in states():
        for a in PRE:
            for b in PRE if not quick and a else [[]]:
                yield {'id': '%s:%s' % (name, '>'.join(a + b)), 'state': sp,
                    'pre': a + b}
    sp = cc.spec('nCb', 3, [0, 0, 1], {0: [0, 1, 0], 1: [0, 0, 0]})
    for Cd, Ci in [([[0, 1]], []), ([], [(0, 2)])]:
        yield {'id': 'constrained:%s%s' % (Cd, Ci), 'state': sp, 'pre': [],
            'Cd': Cd, 'Ci': [list(c) for c in Ci]}
    for n in (1, 2):
        yield {'id': 'engine%d' % n, 'engine': n}
    yield {'id': 'build', 'build': 1}


# ---------------------------------------------------------------- requests
def value(s, c):
    return models.PROBE.get(s.dim_for(c).name(), .4)


def requests(s):
    """(label, True if any error will do, request)"""
    out = []
    outs = list(s.outputs)
    n = s.n_rows()
    probe = {c: value(s, c) for c in outs}
    unknown = max(outs) + 40
    views = {v: s.views[v] for v in sorted(set(s.Zv(c) for c in outs))}
    obs = {c: [r for r in range(n) if s.X[c][r] == s.X[c][r]] for c in outs}
    miss = {c: [r for r in range(n) if s.X[c][r] != s.X[c][r]] for c in outs}

    def q(label, f, any_error=False):
        out.append((label, any_error, f))

    def call(label, name, *args, **kw):
        any_error = kw.pop('any_error', False)
        q(label, lambda m: getattr(m, name)(*copy.deepcopy(args),
            **copy.deepcopy(kw)), any_error)

    def bad(c):
        d = s.dim_for(c)
        return [x for x in BAD.get(d.name(), [])]

    # Queries.
    for c in outs:
        call('simulate %d twice' % c, 'simulate', -1, [c, c])
        call('simulate %d given it' % c, 'simulate', -1, list(outs),
            {c: probe[c]})
        call('logpdf %d given it' % c, 'logpdf', -1, dict(probe),
            {c: probe[c]})
        for r in obs[c]:
            call('logpdf of observed %d %d' % (r, c), 'logpdf', r,
                {c: probe[c]})
            for d in outs:
                if d != c and miss[d]:
                    r2 = miss[d][0]
                    if r2 in obs[c]:
                        call('logpdf against observed %d %d' % (r2, c),
                            'logpdf', r2, {d: probe[d]},
                            {c: s.X[c][r2] + .5})
                        call('simulate against observed %d %d' % (r2, c),
                            'simulate', r2, [d], {c: s.X[c][r2] + .5})
                    break
        for x in bad(c):
            same = [d for d in outs if d != c and s.Zv(d) == s.Zv(c)]
            if same and not s.dim_for(c).is_conditional() and not any(
                    s.dim_for(d).is_conditional() for d in same):
                call('simulate given impossible %d=%r' % (c, x), 'simulate',
                    -1, same[:1], {c: x})
                call('logpdf given impossible %d=%r' % (c, x), 'logpdf', -1,
                    {same[0]: probe[same[0]]}, {c: x})
        call('mi %d overlap' % c, 'mutual_information', [c], outs,
            any_error=len(outs) == 1) if len(outs) > 1 else None
        call('mi %d given it' % c, 'mutual_information', [c], [outs[0]],
            {c: probe[c]})
    call('simulate unknown', 'simulate', -1, outs[:1] + [unknown],
        any_error=True)
    call('logpdf unknown', 'logpdf', -1, {unknown: 1}, any_error=True)
    call('simulate given unknown', 'simulate', -1, outs[:1], {unknown: 1},
        any_error=True) if not s.is_composite() else None
    call('relevance of unknown column', 'relevance_probability', 0, [0],
        unknown, any_error=True)
    call('relevance of unknown row', 'relevance_probability', 0, [n + 3],
        outs[0], any_error=True)
    call('relevance of unknown target', 'relevance_probability', n + 3, [0],
        outs[0], any_error=True)
    for c in outs:
        for x in bad(c):
            call('relevance of impossible %d=%r' % (c, x),
                'relevance_probability', 0, [], c, [{c: probe[c]}, {c: x}])
            call('relevance of impossible %d=%r and rows' % (c, x),
                'relevance_probability', 0, [0], c, [{c: x}, dict(probe)])
    # Rows.
    for r in list(range(n)) + [n + 1, -1]:
        call('add row %d' % r, 'incorporate', r, dict(probe))
        if r != n - 1:
            call('drop row %d' % r, 'unincorporate', r)
    call('drop row %d' % n, 'unincorporate', n)
    if n == 1:
        call('drop the only row', 'unincorporate', 0)
    call('add row with unknown', 'incorporate', n, dict(probe,
        **{}) | {unknown: 1})
    call('add row of unknown', 'incorporate', n, {unknown: 1})
    call('add row with inputs', 'incorporate', n, dict(probe), {unknown: 1})
    for c in outs:
        call('add row with missing %d' % c, 'incorporate', n,
            dict(probe) | {c: NAN})
        for x in bad(c):
            call('add row with %d=%r' % (c, x), 'incorporate', n,
                dict(probe) | {c: x})
            call('add row of %d=%r' % (c, x), 'incorporate', n, {c: x})
            for v, view in views.items():
                for k in sorted(view.Nk())[:1] + [max(view.Nk()) + 2]:
                    call('add row with %d=%r in cluster %d of %d' % (c, x, k,
                        v), 'incorporate', n, dict(probe) | {c: x,
                        view.outputs[0]: k})
            call('add rows, last with %d=%r' % (c, x), 'incorporate_bulk',
                [n], [dict(probe) | {c: x}])
    # Cells.
    for r in (-1, n, n + 1):
        call('force row %d' % r, 'force_cell', r, {outs[0]: probe[outs[0]]})
    for c in outs:
        for r in obs[c]:
            call('force observed %d %d' % (r, c), 'force_cell', r,
                {c: probe[c]})
            for d in outs:
                if r in miss[d]:
                    call('force %d with observed %d %d' % (d, r, c),
                        'force_cell', r, {d: probe[d], c: probe[c]})
        for r in miss[c]:
            for x in bad(c):
                call('force %d %d=%r' % (r, c, x), 'force_cell', r, {c: x})
                others = {d: probe[d] for d in outs if r in miss[d]}
                call('force all of %d with %d=%r' % (r, c, x), 'force_cell',
                    r, others | {c: x})
            call('force unknown with %d' % c, 'force_cell', r,
                {c: probe[c], unknown: 1}, any_error=True)
    # Columns.
    good = [1., NAN, 0., 1., 1., 0.][:n]
    for v in sorted(views)[:1] + [max(views) + 3, None]:
        w = 'v=%s' % v
        call('add short column ' + w, 'incorporate_dim', good[:-1],
            [unknown], cctype='bernoulli', v=v)
        call('add long column ' + w, 'incorporate_dim', good + [1],
            [unknown], cctype='bernoulli', v=v)
        call('add two columns ' + w, 'incorporate_dim', good,
            [unknown, unknown + 1], cctype='bernoulli', v=v)
        call('add no column ' + w, 'incorporate_dim', good, [],
            cctype='bernoulli', v=v)
        for c in outs:
            call('add column %d %s' % (c, w), 'incorporate_dim', good, [c],
                cctype='bernoulli', v=v)
        call('add column with inputs ' + w, 'incorporate_dim', good,
            [unknown], inputs=outs[:1], cctype='bernoulli', v=v)
        for r in range(n):
            T = list(good)
            T[r] = 2.5
            call('add impossible column %d %s' % (r, w), 'incorporate_dim',
                T, [unknown], cctype='bernoulli', v=v)
        T = [1., NAN, 0., 1., 1., 0.][:n]
        T[-1] = -3.
        call('add impossible poisson ' + w, 'incorporate_dim', T, [unknown],
            cctype='poisson', v=v)
        call('add unknown type ' + w, 'incorporate_dim', good, [unknown],
            cctype='nonsense', v=v, any_error=True)
    if s.Cd or any(d.is_conditional() for d in s.dims()):
        call('add column anywhere', 'incorporate_dim', good, [unknown],
            cctype='bernoulli')
        call('move columns', 'transition_dims')
    call('drop unknown column', 'unincorporate_dim', unknown)
    if len(outs) == 1:
        call('drop the only column', 'unincorporate_dim', outs[0])
    # Types.
    call('change type of unknown', 'update_cctype', unknown, 'normal')
    for c in outs:
        t = s.dim_for(c).name()
        vals = [x for x in s.X[c] if x == x]
        fits = {'bernoulli': lambda x: x in (0, 1),
            'poisson': lambda x: x >= 0 and x == int(x),
            'geometric': lambda x: x >= 0 and x == int(x),
            'lognormal': lambda x: x > 0,
            'beta': lambda x: 0 <= x <= 1}
        for new in MISFIT.get(t, []):
            if not all(fits[new](x) for x in vals):
                call('change type of %d to %s' % (c, new), 'update_cctype',
                    c, new)
        if any(x > 1 or x != int(x) for x in vals):
            call('change type of %d to few categories' % c, 'update_cctype',
                c, 'categorical', {'k': 2})
        if not any(d != c and not x.is_conditional()
                for d, x in s.view_for(c).dims.items()):
            call('change type of %d to regression' % c, 'update_cctype', c,
                'linear_regression')
        call('change type of %d to unknown' % c, 'update_cctype', c,
            'nonsense', any_error=True)
    # Compositions.
    hooked = sorted(set(o for g in s.hooked_cgpms.values()
        for o in g.outputs))
    for c in outs + hooked:
        q('compose a second model of %d' % c, lambda m, c=c: m.compose_cgpm(
            models.linreg(m.rng, c, [[o for o in outs + [97] if o != c][0]])))
    for g in list(s.hooked_cgpms.values())[:1]:
        # Needs an output of its own descendant.
        free = [i for i in g.inputs if i not in outs]
        for i in free:
            q('compose a cycle through %d' % i, lambda m, i=i, g=g:
                m.compose_cgpm(models.linreg(m.rng, i, [g.outputs[0]])))
    call('decompose nothing', 'decompose_cgpm', 1, any_error=True)
    # Inference.
    call('transition of unknown', 'transition', N=1, cols=[outs[0], unknown],
        progress=False)
    call('foreign transition of column', 'transition_foreign', N=1,
        cols=outs[:1], progress=False)
    # Views.
    for v, view in views.items():
        z = view.outputs[0]
        cols = sorted(view.dims)
        row = {c: probe[c] for c in cols}

        def vq(label, name, *args, **kw):
            any_error = kw.pop('any_error', False)
            q('view %d: %s' % (v, label), lambda m, v=v: getattr(m.views[v],
                name)(*copy.deepcopy(args), **kw), any_error)
        vq('simulate twice', 'simulate', -1, [cols[0], cols[0]])
        vq('simulate given it', 'simulate', -1, [z] + cols, {z: 0})
        vq('logpdf given it', 'logpdf', -1, dict(row) | {z: 0},
            {cols[0]: row[cols[0]]})
        for r in range(n):
            vq('cluster of row %d' % r, 'simulate', r, [z])
            vq('density of cluster of row %d' % r, 'logpdf', r, {z: 0})
            vq('given cluster of row %d' % r, 'simulate', r, cols, {z: 0})
            for c in cols:
                rest = [d for d in cols if d != c]
                if r in obs[c] and rest:
                    vq('against observed %d %d' % (r, c), 'simulate', r,
                        rest, {c: s.X[c][r] + .5})
                    vq('density against observed %d %d' % (r, c), 'logpdf',
                        r, {d: row[d] for d in rest}, {c: s.X[c][r] + .5})
        vq('add row 0', 'incorporate', 0, dict(row))
        vq('drop unknown row', 'unincorporate', n + 5)
        vq('relevance of unknown', 'relevance_probability', 0, [0], unknown)
        vq('relevance of nothing', 'relevance_probability', 0, [], cols[0])
        for c in cols:
            for x in bad(c):
                for k in [None] + sorted(view.Nk())[:1] + [max(view.Nk())
                        + 1]:
                    vq('add row with %d=%r in %s' % (c, x, k), 'incorporate',
                        n, dict(row) | {c: x} | ({} if k is None else {z: k}))
            if len(cols) > 1:
                vq('add row without %d' % c, 'incorporate', n,
                    {d: x for d, x in row.items() if d != c}, any_error=True)
        return_ = None
    return out


# ------------------------------------------------------------------- model
def seeded(s):
    s.rng.seed(11)
    return s


def answers_of(s):
    # Tokens are only unique, a refused model may use one up.
    return [(k, len(a) if k == 'tokens' else a)
        for k, a in models.state_answers(seeded(s))]


def run_state(case, rec):
    s = cc.build(case['state'], CRng(1))
    if case.get('Cd') or case.get('Ci'):
        from cgpm.crosscat.state import State
        md = s.to_metadata()
        s = State.from_metadata(dict(md, Cd=[list(c) for c in case['Cd']],
            Ci=[tuple(c) for c in case['Ci']]), rng=CRng(1))
    for op in case['pre']:
        if not models.state_op(s, op):
            return
    rec.state(case['id'])
    before = answers_of(s)
    edits = {}
    for op in FIXED_OPS:
        m = copy.deepcopy(s)
        if mc.raises(models.state_op, m, op) is None:
            edits[op] = answers_of(m)
    reqs = requests(s)
    kind = case['id'].split(':')[0]
    for label, any_error, f in reqs:
        key = '%s: %s' % (case['id'], label)
        m = seeded(copy.deepcopy(s))
        e = mc.raises(f, m)
        rec.trans()
        rec.eval(len(before))
        rec.outcome((kind, label, type(e).__name__))
        if e is None or not (any_error or isinstance(e, ValueError)):
            rec.fail(key, '%s: %s, should raise ValueError' % (label,
                'raised %r' % (e,) if e else 'was accepted'))
            continue
        with rec.guard(key + ': afterwards'):
            bad = models.diff(before, answers_of(m))
            if bad:
                rec.fail(key + ': afterwards', 'after refusing to %s (%r): '
                    '%s' % (label, e, bad))
                continue
        for op, want in edits.items():
            with rec.guard('%s then %s' % (key, op)):
                m2 = copy.deepcopy(m)
                models.state_op(m2, op)
                rec.trans()
                bad = models.diff(want, answers_of(m2))
                if bad:
                    rec.fail('%s then %s' % (key, op), 'after refusing to %s '
                        'then %s: %s' % (label, op, bad))
        if len(rec.fails) > 30:
            return
    rec.sample({'case': case['id'], 'requests': len(reqs), 'some':
        [r[0] for r in reqs[::max(1, len(reqs) // 8)]]})


def run_engine(case, rec):
    from cgpm.crosscat.engine import Engine
    n = case['engine']
    e = Engine([[0., 1.5, 2], [1., .2, 0], [1., np.nan, 1], [0, 2.2, 3]],
        num_states=n, rng=CRng(1), multiprocess=0, outputs=[3, 1, 6],
        cctypes=['bernoulli', 'normal', 'poisson'])
    e.transition(N=1, progress=False, multiprocess=0)

    def answers(e):
        return [('%d %s' % (i, k), a) for i in range(e.num_states())
            for k, a in answers_of(e.get_state(i))]
    before = answers(e)
    reqs = [
        ('row', lambda e: e.incorporate(7, {3: 1}, multiprocess=0)),
        ('row value', lambda e: e.incorporate(4, {3: 1, 6: -2},
            multiprocess=0)),
        ('rows', lambda e: e.incorporate_bulk([6], [{3: 1}],
            multiprocess=0)),
        ('drop', lambda e: e.unincorporate(1, multiprocess=0)),
        ('col', lambda e: e.incorporate_dim([0, 1, 1], [11],
            cctype='bernoulli', multiprocess=0)),
        ('col value', lambda e: e.incorporate_dim([0, 1, 1, 3], [11],
            cctype='bernoulli', multiprocess=0)),
        ('existing', lambda e: e.incorporate_dim([0, 1, 1, 0], [6],
            cctype='bernoulli', multiprocess=0)),
        ('uncol', lambda e: e.unincorporate_dim(77, multiprocess=0)),
        ('force', lambda e: e.force_cell(0, {1: 2.}, multiprocess=0)),
        ('force out', lambda e: e.force_cell(9, {1: 2.}, multiprocess=0)),
        ('type', lambda e: e.update_cctype(1, 'bernoulli', multiprocess=0)),
        ('type of nothing', lambda e: e.update_cctype(77, 'normal',
            multiprocess=0)),
        ('compose', lambda e: e.compose_cgpm([models.linreg(CRng(i), 3, [1])
            for i in range(e.num_states())], multiprocess=0)),
        ('simulate', lambda e: e.simulate(-1, [3, 3], multiprocess=0)),
        ('logpdf', lambda e: e.logpdf(0, {3: 1}, multiprocess=0)),
        ('mi', lambda e: e.mutual_information([3, 1], [1], multiprocess=0)),
        ('transition', lambda e: e.transition(N=1, cols=[99],
            progress=False, multiprocess=0)),
        ('add', lambda e: e.add_state(cctypes=['normal'] * 3,
            multiprocess=0)),
    ]
    rec.state(case['id'])
    for label, f in reqs:
        m = copy.deepcopy(e)
        err = mc.raises(f, m)
        rec.trans()
        rec.eval(len(before))
        if not isinstance(err, ValueError):
            rec.fail('%s: %s' % (case['id'], label), 'request raised %r, '
                'should raise ValueError' % (err,))
            continue
        bad = models.diff(before, answers(m))
        if bad:
            rec.fail('%s: %s: afterwards' % (case['id'], label),
                'after refusing (%r): %s' % (err, bad))


def run_build(case, rec):
    """Constructors refuse invalid input."""
    from cgpm.crosscat.state import State
    from cgpm.mixtures.view import View
    from cgpm.mixtures.dim import Dim
    X = [[0., 1.], [1., .5], [1., 2.]]
    T = ['bernoulli', 'normal']

    def state(**kw):
        return State(**dict(dict(X=X, cctypes=T, rng=CRng(1)), **kw))
    bad = [
        ('impossible data', lambda: state(cctypes=['bernoulli'] * 2)),
        ('row dependence', lambda: state(Rd={})),
        ('row independence', lambda: state(Ri={})),
        ('contradictory', lambda: state(Cd=[[0, 1]], Ci=[(0, 1)])),
        ('self independent', lambda: state(Ci=[(0, 0)])),
        ('single dependence', lambda: state(Cd=[[0]])),
        ('unknown dependence', lambda: state(Cd=[[0, 5]])),
        ('unknown independence', lambda: state(Ci=[(0, 5)])),
        ('names with constraints', lambda: state(outputs=[3, 4],
            Ci=[(0, 1)])),
        ('view inputs', lambda: View({0: [1, 2]}, outputs=[9, 0],
            inputs=[3], cctypes=['normal'], rng=CRng(1))),
        ('view without outputs', lambda: View({0: [1, 2]}, outputs=[],
            cctypes=[], rng=CRng(1))),
        ('dim outputs', lambda: Dim([1, 2], [0], cctype='normal',
            rng=CRng(1))),
        ('dim inputs', lambda: Dim([1], [], cctype='normal', rng=CRng(1))),
    ]
    for label, f in bad:
        rec.trans()
        rec.eval()
        e = mc.raises(f)
        if not isinstance(e, ValueError):
            rec.fail('build: ' + label, 'raised %r, should raise ValueError'
                % (e,))
    d = Dim([1], [0], cctype='bernoulli', rng=CRng(1))
    d.transition_hyper_grids([0, 1, 1])
    d.incorporate(0, {1: 1}, {0: 0})
    d.incorporate(1, {1: NAN}, {0: 2})

    def answers(d):
        out = [d.logpdf_score(), sorted(d.Zr.items()), sorted(d.Zi.items())]
        for k in range(4):
            out.append(d.logpdf(-1, {1: 1}, None, {0: k}))
        return out
    before = answers(d)
    rec.state('dim')
    for label, f in [
            ('again', lambda: d.incorporate(0, {1: 0}, {0: 0})),
            ('again missing', lambda: d.incorporate(1, {1: 0}, {0: 0})),
            ('no cluster', lambda: d.incorporate(2, {1: 0}, {5: 1})),
            ('value', lambda: d.incorporate(2, {1: 3}, {0: 0})),
            ('value in new', lambda: d.incorporate(2, {1: 3}, {0: 3})),
            ('drop', lambda: d.unincorporate(5)),
            ('density without cluster', lambda: d.logpdf(-1, {1: 0}, None,
                {}))]:
        e = mc.raises(f)
        rec.trans()
        rec.eval()
        if not isinstance(e, ValueError):
            rec.fail('dim: ' + label, 'raised %r, should raise ValueError'
                % (e,))
        if not models.same(models.flat(before), models.flat(answers(d))):
            rec.fail('dim: %s: afterwards' % label, 'answers %r, were %r'
                % (answers(d), before))


def run_case(case, rec):
    if 'engine' in case:
        run_engine(case, rec)
    elif 'build' in case:
        run_build(case, rec)
    else:
        run_state(case, rec)
