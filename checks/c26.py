"""Results are reproducible from the given source of randomness."""
import copy
import itertools
import random

import numpy as np

import c13
import c24
import cc
import comp
import mc
import models
import nets

PID = 'C26'
RULE = ('every model type of a family, built from a seeded source; every '
    'operation, and every ordered pair of operations, of its alphabet; each '
    'history is run in two worlds that differ in the state of the process '
    'wide generators (and in what the process did before), and must answer '
    'the same and leave those generators alone; continuous draws must change '
    'with the seed and from one request to the next')
ASSUMPTIONS = ['one seed per history, two for the freshness test',
    'histories of two operations after the construction (three for the small '
    'models in the thorough tier)', 'budgets in seconds are not used: they '
    'depend on the clock']
NAN = float('nan')
SEED, OTHER = 20, 21


def flat(x):
    if hasattr(x, 'to_metadata'):
        return repr(type(x).__name__)
    if isinstance(x, dict):
        return {repr(k): flat(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [flat(v) for v in x]
    return models.flat(x)


class World(object):
    """The state of everything random that was not given to the model."""

    def __init__(self, k):
        self.k = k

    def __enter__(self):
        np.random.seed(1000 + 77 * self.k)
        random.seed(500 + self.k)
        self.before = self.look()
        return self

    def look(self):
        a = np.random.get_state()
        return (a[0], a[1].tobytes()) + tuple(a[2:]), random.getstate()

    def __exit__(self, *a):
        self.clean = self.look() == self.before


def attempt(f, *a):
    try:
        return f(*a)
    except mc.Timeout:
        raise
    except Exception as e:
        return 'raises ' + type(e).__name__


# ------------------------------------------------------------------ states
X = [[.5, 1, 0, 2.], [-1., 0, 2, 3.], [NAN, 1, 1, .4], [2., NAN, 0, 1.2]]


def new_state(rng, **kw):
    from cgpm.crosscat.state import State
    return State(np.array(X), cctypes=['normal', 'bernoulli', 'categorical',
        'exponential'], distargs=[None, None, {'k': 3}, None], rng=rng, **kw)


def from_spec(sp, pre):
    def build(rng):
        s = cc.build(sp, rng)
        for op in pre:
            models.state_op(s, op, None)
        return s
    return build


def odd(kind):
    """A state with an uncollapsed or regression column."""
    def build(rng):
        from cgpm.crosscat.state import State
        if kind == 'forest':
            s = State(np.array([[1, .5], [0, -1.], [2, .2], [1, .7]]),
                cctypes=['categorical', 'normal'], distargs=[{'k': 3}, None],
                Zv={0: 0, 1: 0}, rng=rng)
            s.update_cctype(0, 'random_forest', {'k': 3})
            return s
        return State(np.array([[.2, .5], [.4, NAN], [.9, .2], [.7, .6]]),
            cctypes=[kind, 'normal'], distargs=[{'l': 0., 'h': 1.}
            if kind == 'normal_trunc' else None, None], rng=rng)
    return build


KERNELS = ['alpha', 'view_alphas', 'column_params', 'column_hypers', 'rows',
    'columns']


def state_ops(s, quick):
    out = {}
    for k in KERNELS:
        out['kernel ' + k] = lambda m, k=k: m.transition(N=1, kernels=[k],
            progress=False)
    out['transition'] = lambda m: m.transition(N=2, progress=False,
        checkpoint=1)
    if s.hooked_cgpms:
        out['foreign'] = lambda m: m.transition_foreign(N=1, progress=False)
    for op in models.STATE_OPS:
        out['edit ' + op] = lambda m, op=op: models.state_op(m, op, None)
    outs = list(s.outputs)
    out['edit free col'] = lambda m: m.incorporate_dim([.3] * m.n_rows(),
        [max(m.outputs) + 1], cctype='normal')
    out['edit cluster row'] = lambda m: m.incorporate(m.n_rows(), {})
    hist = ('relevance', 'simulate', 'mi', 'cmi', 'entropy', 'logpdf')
    n = 0
    for query in c13.state_queries(s):
        label, det, name = query[:3]
        if not isinstance(name, str) or not label.startswith(hist):
            continue
        if quick and label in out:
            continue
        n += 1
        out['ask %d %s' % (n, label)] = lambda m, q=query: c13.call(m, q,
            copy.deepcopy(q[3]), copy.deepcopy(q[4]))
    for v in sorted(set(s.Zv(c) for c in outs))[:1 if quick else None]:
        for query in c13.view_queries(s):
            if query[2][0] == v and query[2][1] == 'simulate':
                n += 1
                out['ask %d %s' % (n, query[0])] = lambda m, q=query: \
                    c13.call(m, q, copy.deepcopy(q[3]), copy.deepcopy(q[4]))

    def again(m):
        from cgpm.crosscat.state import State
        w = State.from_metadata(m.to_metadata(), rng=m.rng)
        w.transition(N=1, progress=False, kernels=['rows'] if w.is_composite()
            else None)
        return state_view(w)
    out['metadata'] = again
    return out


def state_view(s, full=True):
    return [attempt(models.state_answers, s, full), dict(s.diagnostics)]


def light_view(s):
    return state_view(s, False)


# ------------------------------------------------------------------ engines
def love(m, *a):
    c24.PLAN[0] = lambda call: ([i % 2 for i in range(len(call['T'][0]))],
        [[r % 2 for r in range(len(call['T']))], [0] * len(call['T'])][
            :min(2, len(call['T'][0]))], .7, [.4, .9])
    del c24.LOG[:]
    m.transition_lovecat(N=1, progress=False, **dict(*a))


def small_engine(mp):
    def build(rng):
        from cgpm.crosscat.engine import Engine
        return Engine(np.array(X), num_states=2, rng=rng, multiprocess=mp,
            cctypes=['normal', 'bernoulli', 'categorical', 'exponential'],
            distargs=[None, None, {'k': 3}, None])
    return build


def engine_ops(mp):
    k = {'multiprocess': mp}
    return {
        'transition': lambda e: e.transition(N=1, progress=False, **k),
        'transition one': lambda e: e.transition(N=2, progress=False,
            statenos=[1], kernels=['rows'], **k),
        'col': lambda e: e.incorporate_dim([.1] * e.states[0].n_rows(),
            [len(e.states[0].outputs) + 3], cctype='normal', **k),
        'row': lambda e: e.incorporate(e.states[0].n_rows(), {0: .2, 2: 1},
            **k),
        'unrow': lambda e: e.unincorporate(e.states[0].n_rows() - 1, **k),
        'type': lambda e: e.update_cctype(1, 'categorical', {'k': 2}, **k),
        'alter': lambda e: e.alter([lambda s: (s.transition(N=1,
            progress=False), s)[1]], **k),
        'add': lambda e: e.add_state(count=1, cctypes=list(
            e.states[0].cctypes()), distargs=list(e.states[0].distargs()),
            **k),
        'hook': lambda e: e.compose_cgpm([models.linreg(
            np.random.RandomState(1), 90, [0]) for _ in e.states], **k),
        'ask simulate': lambda e: e.simulate(-1, [0, 2], {1: 1}, {}, 3, **k),
        'ask bulk': lambda e: e.simulate_bulk([-1, 1], [[0], [3]], None, None,
            [2, 1], **k),
        'ask mi': lambda e: e.mutual_information([0], [3], {2: None}, {}, 2,
            3, **k),
        'ask relevance': lambda e: e.relevance_probability(0, [1], 0,
            [{0: .2, 1: NAN}], **k),
        'ask hooked': lambda e: e.simulate(-1, [0, 3], {90: .1}, {}, 3, 4,
            **k),
        'ask logpdf hooked': lambda e: e.logpdf(-1, {90: .4}, {1: 1}, {}, 4,
            **k),
        'metadata': lambda e: metadata_engine(e, mp),
    }


def metadata_engine(e, mp):
    from cgpm.crosscat.engine import Engine
    w = Engine.from_metadata(e.to_metadata(), rng=e.rng, multiprocess=mp)
    w.transition(N=1, progress=False, multiprocess=mp,
        kernels=['rows', 'alpha'])
    return engine_view(w)


def engine_view(e):
    return [state_view(s) for s in e.states]


def love_engine(rng):
    from cgpm.crosscat.engine import Engine
    return Engine(np.array([[.5, 1.], [-1., NAN], [.2, 1.4], [2., .7]]),
        num_states=2, rng=rng, multiprocess=0, cctypes=['normal'] * 2)


LOVE_OPS = {
    'lovecat': lambda e: love(e, {'multiprocess': 0}),
    'lovecat state': lambda e: love(e.states[0]),
    'transition': lambda e: e.transition(N=1, progress=False, multiprocess=0),
    'ask': lambda e: e.simulate(-1, [0, 1], N=2, multiprocess=0),
}


# -------------------------------------------------------------- components
def dim_subject(name):
    def build(rng):
        from cgpm.mixtures.dim import Dim
        d = Dim([0], [9], cctype=name, distargs=comp.SPECS[name][2], rng=rng)
        d.transition_hyper_grids(list(comp.SPECS[name][4]))
        return d

    def put(r):
        def op(d):
            if r in d.Zr:
                return d.unincorporate(r)
            return d.incorporate(r, {0: comp.SPECS[name][4][r % 3 % len(
                comp.SPECS[name][4])]}, {9: r % 2})
        return op
    ops = {'put %d' % r: put(r) for r in range(3)}
    ops['ask'] = lambda d: d.simulate(-1, [0], None, {9: 0}, N=3)
    ops['ask new'] = lambda d: d.simulate(-1, [0], None, {9: 7})
    ops['hypers'] = lambda d: d.transition_hypers()
    ops['params'] = lambda d: d.transition_params()

    def view(d):
        return [dict(d.hypers), attempt(d.logpdf_score), {k: [attempt(
            c.get_params), attempt(c.get_suffstats)] for k, c in
            d.clusters.items()}, attempt(d.simulate, 5, [0], None, {9: 1},
            2)]
    return build, ops, view


# ------------------------------------------------------------ other models
def model_subject(name):
    subj = models.subjects()[name]

    def build(rng):
        m = subj.build()
        old = m.rng
        swap(m, old, rng)
        return m

    def row_op(op):
        def f(m):
            # Not through subj.op, which reseeds the generator.
            keep = m.rng
            m.rng = Still()
            try:
                if op[0] in '+-':
                    return subj.op(m, op)
            finally:
                m.rng = keep
            return m.transition()
        return f
    ops = {op: row_op(op) for op in subj.ops}
    if name.startswith('factor'):
        ops['fit'] = lambda m: m.transition()
    n = 0
    m = subj.build()
    for label, meth, args, kw in c13.subject_queries(subj, m):
        if meth == 'simulate':
            n += 1
            # A recorded row answers with its own values.
            ops['%s %d %s' % ('row' if args[0] == 0 else 'ask', n, label)] \
                = lambda m, a=args, k=kw: m.simulate(*copy.deepcopy(a), **copy.deepcopy(k))

    def view(m):
        keep = m.rng
        return [subj.answers(m), m.rng is keep]
    return build, ops, view


class Still(object):
    def seed(self, s=None):
        pass


def swap(m, old, rng):
    m.rng = rng


def filled(name):
    build, ops, view = model_subject(name)

    def more(rng):
        m = build(rng)
        for op in ops:
            if op[0] == '+':
                ops[op](m)
        if 'fit' in ops:
            m.transition()
        return m
    return more, ops, view


def toy(modname, cls, outputs, inputs, given, values, **kw):
    import importlib

    def build(rng):
        c = getattr(importlib.import_module('cgpm.' + modname), cls)
        return c(outputs=list(outputs), inputs=list(inputs), rng=rng, **kw)
    ops = {}
    for N in (None, 3):
        ops['ask all %s' % N] = lambda m, N=N: m.simulate(-1, list(outputs),
            None, dict(given) or None, N)
    for t, g in values:
        ops['ask %s|%s' % (t, g)] = lambda m, t=t, g=g: m.simulate(-1,
            list(t), dict(g), dict(given) or None, 2)
    return build, ops, lambda m: None


TOYS = {
    'fourway': ('dummy.fourway', 'FourWay', [3], [1, 2], {1: 1., 2: -1.},
        []),
    'twoway': ('dummy.twoway', 'TwoWay', [3], [1], {1: 1}, []),
    'piecewise': ('dummy.piecewise', 'PieceWise', [3, 5], [1], {1: .4},
        [([3], {5: 1}), ([5], {3: .6})]),
    'troll': ('dummy.trollnormal', 'TrollNormal', [3], [1, 2], {1: 1.,
        2: .4}, []),
    'uniform': ('uncorrelated.uniformx', 'UniformX', [3], [], {}, []),
    'diamond': ('uncorrelated.diamond', 'Diamond', [3, 5], [], {}, []),
    'parabola': ('uncorrelated.parabola', 'Parabola', [3, 5], [], {},
        [([5], {3: .4})]),
    'sin': ('uncorrelated.sin', 'Sin', [3, 5], [], {}, [([5], {3: .4})]),
    'linear': ('uncorrelated.linear', 'Linear', [3, 5], [], {},
        [([5], {3: .4})]),
    'ring': ('uncorrelated.ring', 'Ring', [3, 5], [], {}, []),
    'dots': ('uncorrelated.dots', 'Dots', [3, 5], [], {}, [([5], {3: .4})]),
    'xcross': ('uncorrelated.xcross', 'XCross', [3, 5], [], {}, []),
}


def defaults(name):
    """Models built without any source have a fixed one of their own."""
    mod, cls, outputs, inputs, given, values = TOYS[name]
    return toy(mod, cls, outputs, inputs, given, values)


# ----------------------------------------------------------------- network
def network():
    def build(rng):
        from cgpm.network.importance import ImportanceNetwork
        from cgpm.dummy.piecewise import PieceWise
        from cgpm.dummy.trollnormal import TrollNormal
        from cgpm.uncorrelated.uniformx import UniformX
        return ImportanceNetwork([PieceWise([2, 3], [1], rng=rng),
            UniformX([1], rng=rng), TrollNormal([4], [2, 1], rng=rng)],
            accuracy=3, rng=rng)
    ops = {
        'ask': lambda m: m.simulate(-1, [1, 2, 3, 4]),
        'ask N': lambda m: m.simulate(-1, [4, 1], N=3),
        'ask given': lambda m: m.simulate(-1, [3, 4], {2: .4}, N=2),
        'ask given 2': lambda m: m.simulate(-1, [1], {4: .1, 3: 1}, N=2),
        'ask logpdf': lambda m: m.logpdf(-1, {4: .3}),
        'ask logpdf given': lambda m: m.logpdf(-1, {2: .3}, {4: 1.}),
    }
    return build, ops, lambda m: None


# --------------------------------------------------------------- utilities
class Source(object):
    def __init__(self, rng):
        self.rng = rng


def utilities():
    from cgpm.utils import general as gu
    from cgpm.utils import sampling as su
    from cgpm.utils import test as tu
    from cgpm.regressions.linreg import LinearRegression

    def post(x):
        return -.5 * (x - .4) ** 2
    ops = {
        'crp': lambda m: gu.simulate_crp(6, 1.2, rng=m.rng),
        'crp dep': lambda m: gu.simulate_crp_constrained_dependent(6, 1.2,
            [[0, 4]], rng=m.rng),
        'crp con': lambda m: gu.simulate_crp_constrained(6, 1.2, [[0, 4]],
            [(1, 2)], {}, {}, rng=m.rng),
        'pflip': lambda m: [gu.pflip([1., 2., 3.], rng=m.rng),
            gu.pflip([.2, .3], size=4, rng=m.rng), gu.pflip([.2, .3], array=[
            5, 6], size=2, rng=m.rng)],
        'log_pflip': lambda m: [gu.log_pflip([-1., -2., -900.], rng=m.rng),
            gu.log_pflip([-1., -1.2], size=3, rng=m.rng)],
        'ask mh': lambda m: su.mh_sample(.3, post, .4, (-2., 2.),
            num_samples=2, burn=3, lag=2, rng=m.rng),
        'ask mh 01': lambda m: su.mh_sample(.3, post, .4, (0., 1.),
            num_samples=30, rng=m.rng),
        'ask mh pos': lambda m: su.mh_sample(.3, post, .4, (0.,
            float('inf')), num_samples=30, rng=m.rng),
        'ask slice': lambda m: su.slice_sample(lambda: .3, post, (-2., 2.),
            num_samples=3, rng=m.rng),
        'rejection': lambda m: su.rejection_sample(lambda x: .2 + x * .5,
            lambda x: 1., m.rng.rand, N=3, rng=m.rng),
        'partition': lambda m: tu.gen_partition(7, [.4, .6], m.rng),
    }
    kinds = ['bernoulli', 'beta', 'categorical', 'exponential', 'geometric',
        'lognormal', 'normal', 'normal_trunc', 'poisson', 'vonmises']
    args = [{'k': 3} if k == 'categorical' else {'l': 0., 'h': 9.}
        if k == 'normal_trunc' else None for k in kinds]
    ops['ask table'] = lambda m: tu.gen_data_table(8, [.6, .4], [[.3, .7],
        [1.]], kinds, args, [.6] * len(kinds), rng=m.rng)
    for k, a in zip(kinds, args):
        ops['table ' + k] = lambda m, k=k, a=a: tu.gen_data_table(6, [1.],
            [[.5, .5]], [k], [a], [.7], rng=m.rng)
    return Source, ops, lambda m: None


# ------------------------------------------------------------------- cases
SPECS = {
    'plain': (cc.spec('ncb', 3, [0, 0, 1], {0: [0, 1, 0], 1: [0, 0, 1]},
        missing=[(1, 0), (2, 1)], outputs=[4, 0, 9]), []),
    'hooked': (cc.spec('ncb', 3, [0, 0, 1], {0: [0, 1, 0], 1: [0, 0, 1]},
        missing=[(1, 0), (2, 1)], outputs=[4, 0, 9]), ['hook']),
    'cond': (cc.spec('nnp', 3, [7, 7, 2], {7: [3, 1, 3], 2: [5, 5, 0]},
        missing=[(1, 2), (2, 0)]), ['cond']),
    'cond hooked': (cc.spec('nnp', 3, [7, 7, 2], {7: [3, 1, 3],
        2: [5, 5, 0]}, missing=[(2, 0)]), ['cond', 'hook']),
    'gle': (cc.spec('gle', 3, [1, 4, 1], {1: [0, 0, 1], 4: [1, 0, 2]},
        missing=[(0, 0)]), []),
}
INITS = {
    'free': {}, 'dependent': {'Cd': [[0, 2]]},
    'independent': {'Cd': [[0, 2]], 'Ci': [(1, 3)]},
    'alpha': {'alpha': 2.5, 'view_alphas': {}},
    'columns given': {'Zv': {0: 0, 1: 0, 2: 1, 3: 1}},
}


def subject(name, quick):
    kind, _, arg = name.partition(':')
    if kind == 'state':
        sp, pre = SPECS[arg]
        build = from_spec(sp, pre)
        return build, state_ops(build(np.random.RandomState(1)), quick), \
            state_view
    if kind == 'init':
        def build(rng):
            return new_state(rng, **copy.deepcopy(INITS[arg]))
        s = build(np.random.RandomState(1))
        return build, state_ops(s, quick), state_view
    if kind == 'odd':
        build = odd(arg)
        ops = state_ops(build(np.random.RandomState(1)), quick)
        if arg == 'forest' and quick:
            ops = {k: f for i, (k, f) in enumerate(ops.items())
                if not k.startswith('ask') or i % 12 == 0}
        return build, ops, light_view
    if kind == 'engine':
        return small_engine(int(arg)), engine_ops(int(arg)), engine_view
    if kind == 'lovecat':
        c24.install()
        return love_engine, LOVE_OPS, engine_view
    if kind == 'dim':
        return dim_subject(arg)
    if kind == 'model':
        return model_subject(arg)
    if kind == 'filled':
        return filled(arg)
    if kind == 'toy':
        return defaults(arg)
    if kind == 'network':
        return network()
    return utilities()


def cases(tier):
    quick = tier == 'quick'

    def split(name, parts, depth):
        for p in range(parts):
            yield {'id': '%s.%d' % (name, p), 'subject': name, 'quick': quick,
                'depth': depth, 'part': [p, parts]}
    for name in ('odd:forest', 'odd:normal_trunc', 'odd:beta'):
        yield from split(name, 8, 1)
    for name in SPECS:
        yield from split('state:' + name, 4 if quick else 24, 2)
    for name in INITS:
        deep = not quick or name == 'independent'
        yield from split('init:' + name, (4 if quick else 24) if deep else 1,
            2 if deep else 1)
    yield {'id': 'engine:1', 'subject': 'engine:1', 'quick': quick,
        'depth': 1 if quick else 2}
    for p in range(4):
        yield {'id': 'engine:0.%d' % p, 'subject': 'engine:0', 'quick': quick,
            'depth': 2, 'part': [p, 4]}
    yield {'id': 'lovecat', 'subject': 'lovecat:', 'quick': quick,
        'depth': 2}
    for name in comp.SPECS:
        if name != 'crp':
            yield {'id': 'dim:' + name, 'subject': 'dim:' + name,
                'quick': quick, 'depth': 2 if quick else 3}
    for name in sorted(models.subjects()):
        for k in ('model:', 'filled:'):
            yield {'id': k + name, 'subject': k + name, 'quick': quick,
                'depth': 2}
    for name in sorted(TOYS):
        yield {'id': 'toy:' + name, 'subject': 'toy:' + name, 'quick': quick,
            'depth': 3}
    yield {'id': 'network', 'subject': 'network:', 'quick': quick,
        'depth': 2 if quick else 3}
    yield {'id': 'utilities', 'subject': 'utilities:', 'quick': quick,
        'depth': 2}


# Draws that can repeat by chance, or (ols) are predictions without noise.
COARSE = ('fourway', 'twoway', 'forest')


LEAD = ('edit hook', 'edit cond', 'edit free col', 'transition', 'fit', 'hook')


def run_case(case, rec):
    build, ops, view = subject(case['subject'], case['quick'])
    names = list(ops)
    made = {}

    def start(seed):
        if seed not in made:
            made[seed] = build(np.random.RandomState(seed))
        return copy.deepcopy(made[seed])

    def run(world, seed, hist, fresh):
        """fresh: construct the model inside the world too."""
        with World(world) as w:
            m = build(np.random.RandomState(seed)) if fresh else start(seed)
            out = [flat(attempt(ops[op], m)) for op in hist]
            out.append(flat(attempt(view if fresh or view is not state_view
                else light_view, m)))
        rec.trans(len(hist) + 1)
        return out, w.clean

    def both(hist, fresh=False):
        key = '%s: %s' % (case['subject'], ' > '.join(hist) or 'construction')
        a, clean_a = run(1, SEED, hist, fresh)
        b, clean_b = run(2, SEED, hist, fresh)
        rec.state(key)
        rec.trace()
        rec.eval(len(a))
        rec.outcome(repr(a)[:4000])
        if repr(a) != repr(b):
            for op, x, y in zip(list(hist) + ['afterwards'], a, b):
                if repr(x) != repr(y):
                    rec.fail(key, '%s after %s from the same seed: %s and %s'
                        % (op, hist, short(x, y), short(y, x)))
                    return a
        if not (clean_a and clean_b):
            rec.fail(key + ': process wide generator', '%s used or reset the '
                'process wide generator' % (hist,))
        return a
    part, parts = case.get('part', [0, 1])
    mine = names[part::parts]
    if part == 0:
        both((), True)
    for op in mine:
        both((op,), True)
    rec.sample({'subject': case['subject'], 'operations': names[:40],
        'depth': case['depth']})
    for op in mine:
        if op.startswith('ask') and not case['subject'].endswith(COARSE) \
                and ':ols-' not in case['subject']:
            renewed(case, rec, op, run, build)
    if len(rec.fails) > 8:
        return
    for depth in range(2, case['depth'] + 1):
        for i, hist in enumerate(itertools.product(names, repeat=depth)):
            if i % parts != part:
                continue
            if case['quick'] and not case['subject'].startswith('toy') and \
                    hist[-1].startswith('ask') and hist[0] not in LEAD:
                continue
            if case['quick'] and case['subject'].split(':')[0] in (
                    'state', 'init') and hist[0].startswith('ask'):
                continue
            both(hist)
            if len(rec.fails) > 8:
                return


def short(x, y):
    a, b = repr(x), repr(y)
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return a[max(0, n - 80):n + 120]


def numbers(x):
    """The continuous values in an answer."""
    if isinstance(x, dict):
        return [v for y in x.values() for v in numbers(y)]
    if isinstance(x, list):
        return [v for y in x for v in numbers(y)]
    return [x] if isinstance(x, float) and x == x and x != int(
        x if abs(x) < 1e9 else 0) else []


# What the composed models hold about their rows (models.linreg).
HELD = {1., 2.5, -.3}


def recorded(m):
    """The values a model holds in its table: a draw may return them."""
    table = getattr(m, 'X', None)
    return HELD | set(v for c in table.values() for v in np.ravel(c)) \
        if isinstance(table, dict) else set()


def renewed(case, rec, op, run, build):
    if 'simulate' not in op and case['subject'].split(':')[0] not in (
            'toy', 'dim', 'network', 'utilities', 'lovecat'):
        return
    if 'logpdf' in op:
        return
    key = '%s: %s' % (case['subject'], op)
    a = run(1, SEED, (op, op), False)[0]
    table = recorded(build(np.random.RandomState(SEED)))
    first, second = [[v for v in numbers(x) if v not in table]
        for x in a[:2]]
    if not first:
        return
    rec.note('freshness tests')
    rec.eval(2)
    if first == second:
        rec.fail(key + ': again', 'two requests for draws gave the same: %s'
            % first[:6])
    b, c = [[v for v in numbers(run(1, seed, (op,), True)[0][0])
        if v not in table] for seed in (OTHER, SEED)]
    if b == c:
        rec.fail(key + ': other seed', 'draws do not depend on the given '
            'source: %s' % b[:6])
