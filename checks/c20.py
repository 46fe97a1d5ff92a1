"""An engine is its ensemble of states."""
import copy
import inspect
import itertools
import math
import multiprocessing

import numpy as np

import cc
import mc
import models
import nets
import ref
from crng import CRng, distribution

PID = 'C20'
RULE = ('every engine operation on recording stand-ins for 1 to 3 states, '
    'every ordered selection of states, with and without worker processes; '
    'all operation sequences up to the depth on engines of 1 to 3 real '
    'states, each state compared with a copy driven on its own; the exact '
    'law of likelihood weighted resampling and the weighted integral for '
    'every selection, constraint and sample count in bounds')
ASSUMPTIONS = ['two worker processes per operation (all schedules: see C19)',
    'a query that draws random numbers may leave the generators of the '
    'states differently with and without worker processes']
NAN = float('nan')


def selections(n):
    yield None
    for r in range(0, n + 1):
        for x in itertools.permutations(range(n), r):
            yield list(x)


def cases(tier):
    quick = tier == 'quick'
    for n in (1, 2, 3):
        for mp in (0, 1):
            for j in range(4):
                yield {'id': 'dispatch%d.%d.%d' % (n, mp, j), 'dispatch': n,
                    'mp': mp, 'part': j, 'quick': quick}
    ops = list(range(len(OPS)))
    depth = 2 if quick else 3
    for n in (1, 2, 3):
        for first in ops:
            for j in range(1 if quick else 4):
                yield {'id': 'ops%d.%s.%d' % (n, OPS[first][0], j), 'ops': n,
                    'first': first, 'depth': depth if quick or n > 2 else 4,
                    'quick': quick, 'part': (j, 1 if quick else 4)}
    for n in (1, 2, 3):
        for j in range(4):
            yield {'id': 'weighted%d.%d' % (n, j), 'weighted': n, 'part': j,
                'quick': quick}
    for k in range(len(ADDS)):
        for n in (1, 2):
            yield {'id': 'add%d.%d' % (n, k), 'add': k, 'n': n}


def few_workers():
    """parallel_map starts as many workers as there are processors."""
    from cgpm.utils import parallel_map as m
    for mod in (m, multiprocessing):
        if hasattr(mod, 'cpu_count'):
            mod.cpu_count = lambda: 2


# ------------------------------------------------------------- dispatching
class Seeds(object):
    def __init__(self):
        self.seeds = []

    def seed(self, s):
        self.seeds.append(int(s))


QUERIES = ['logpdf', 'logpdf_bulk', 'logpdf_score', 'logpdf_likelihood',
    'simulate', 'simulate_bulk', 'mutual_information',
    'dependence_probability', 'dependence_probability_pairwise',
    'row_similarity', 'row_similarity_pairwise', 'relevance_probability']
EDITS = ['incorporate_dim', 'unincorporate_dim', 'incorporate',
    'incorporate_bulk', 'unincorporate', 'force_cell', 'force_cell_bulk',
    'update_cctype']
KERNELS = ['transition', 'transition_lovecat', 'transition_foreign']


class Stub(object):
    """Stands in for a state: remembers what it is asked."""

    def __init__(self, tag):
        self.tag = tag
        self.log = []
        self.rng = Seeds()

    def is_composite(self):
        return False


def _stub_method(name):
    def method(self, *a, **k):
        from cgpm.crosscat.state import State
        bound = inspect.signature(getattr(State, name)).bind(self, *a, **k)
        bound.apply_defaults()
        call = {x: v for x, v in bound.arguments.items() if x != 'self'}
        self.log.append((name, call))
        return ('answer', self.tag, name, call)
    return method


for _n in QUERIES + EDITS + KERNELS:
    setattr(Stub, _n, _stub_method(_n))


def tagged(state):
    state.log.append(('altered', 1))
    return state


def again(state):
    state.log.append(('altered', 2))
    return state


# Values that tell the arguments apart.
ARGS = {
    'rowid': 5, 'targets': {1: 2.}, 'constraints': {3: 4.}, 'inputs': {6:
    7.}, 'accuracy': 8, 'rowids': [9, 10], 'targets_list': [{1: 1}, {2: 2}],
    'constraints_list': [{3: 3}, {4: 4}], 'inputs_list': [{5: 5}, {6: 6}],
    'Ns': [2, 3], 'N': 11, 'T': 12, 'col0': [1], 'col1': [2], 'colnos': [2,
    1], 'row0': 1, 'row1': 2, 'cols': [3, 1], 'rowid_target': 4,
    'rowid_query': [1, 2], 'col': 3, 'hypotheticals': [{1: 1.}], 'outputs':
    [22], 'cctype': 'normal', 'distargs': {'k': 3}, 'v': 2, 'observation':
    {1: 1.}, 'observations': [{1: 1.}, {2: 2.}], 'queries': [{1: 1.}, {2:
    2.}], 'S': 13, 'kernels': ['rows'], 'views': [1], 'progress': False,
    'checkpoint': 3,
}


def dispatch(case, rec):
    from cgpm.crosscat.engine import Engine
    from cgpm.crosscat.state import State
    few_workers()
    n, mp = case['dispatch'], case['mp']
    count = 0
    for name in QUERIES + EDITS + KERNELS:
        sig = [p for p in inspect.signature(getattr(State, name)).parameters
            if p != 'self']
        eng = [p for p in inspect.signature(getattr(Engine, name)).parameters
            if p != 'self']
        both = [p for p in sig if p in eng]
        need = [p for p in both if inspect.signature(getattr(State,
            name)).parameters[p].default is inspect.Parameter.empty]
        opt = [p for p in both if p not in need]
        sets = [need, both] + [need + [p] for p in opt]
        for given in sets:
            for sel in selections(n) if 'statenos' in eng else [None]:
                count += 1
                if count % 4 != case['part'] or (mp and count % (12 if
                        case['quick'] else 2)):
                    continue
                e = Engine([[0.]], num_states=0, rng=np.random.RandomState(3),
                    multiprocess=0)
                e.states = [Stub(i) for i in range(n)]
                kw = {p: copy.deepcopy(ARGS[p]) for p in given}
                if 'statenos' in eng and sel is not None:
                    kw['statenos'] = list(sel)
                kw['multiprocess'] = mp
                what = 'Engine.%s(%s) over %d states' % (name, kw, n)
                key = 'dispatch %s' % name
                with rec.guard(key):
                    got = getattr(e, name)(**kw)
                    rec.trans()
                    rec.eval()
                    rec.state((name, tuple(given), str(sel), n, mp))
                    picked = range(n) if sel is None else sel
                    full = inspect.signature(getattr(State, name)).bind(
                        None, **{p: ARGS[p] for p in given})
                    full.apply_defaults()
                    call = {x: v for x, v in full.arguments.items()
                        if x != 'self'}
                    # The engine may have defaults of its own.
                    for p in opt:
                        if p not in given:
                            call[p] = inspect.signature(getattr(Engine,
                                name)).parameters[p].default
                    if name in QUERIES:
                        want = [('answer', s, name, call) for s in picked]
                        if list(got) != want:
                            rec.fail(key, '%s answered %.400r, expected '
                                '%.400r' % (what, got, want))
                            return
                    else:
                        logs = [s.log for s in e.states]
                        want = [[(name, call)] if s in picked else []
                            for s in range(n)]
                        if logs != want or [s.tag for s in e.states] != list(
                                range(n)):
                            rec.fail(key, '%s: the states saw %.400r, '
                                'expected %.400r' % (what, logs, want))
                            return
        if name in ('simulate', 'simulate_bulk', 'mutual_information') \
                and not mp:
            # Fresh seeds for every state, whichever are selected.
            seen = []
            for sel in selections(n):
                e = Engine([[0.]], num_states=0,
                    rng=np.random.RandomState(3), multiprocess=0)
                e.states = [Stub(i) for i in range(n)]
                kw = {p: ARGS[p] for p in need}
                for _ in range(2):
                    getattr(e, name)(statenos=sel, multiprocess=0, **kw)
                seen.append([s.rng.seeds for s in e.states])
                rec.eval()
            flat = [x for s in seen[0] for x in s]
            if any(x != seen[0] for x in seen) or len(set(flat)) < len(flat):
                rec.fail('dispatch seeds', 'Engine.%s seeds its states with '
                    '%s for the selections %s' % (name, seen,
                    list(selections(n))))
                return
    for sel in selections(n):
        e = Engine([[0.]], num_states=0, rng=np.random.RandomState(3),
            multiprocess=0)
        e.states = [Stub(i) for i in range(n)]
        e.alter([tagged, again], statenos=sel, multiprocess=mp)
        rec.trans()
        rec.eval()
        picked = range(n) if sel is None else sel
        got = [(s.tag, s.log) for s in e.states]
        want = [(i, [('altered', 1), ('altered', 2)] if i in picked else [])
            for i in range(n)]
        if got != want:
            rec.fail('dispatch alter', 'alter of states %s of %d: %s, '
                'expected %s' % (sel, n, got, want))
            return
    for i in range(n):
        e = Engine([[0.]], num_states=0, rng=np.random.RandomState(3),
            multiprocess=0)
        e.states = [Stub(k) for k in range(n)]
        rec.eval()
        if e.get_state(i).tag != i or e.num_states() != n:
            rec.fail('dispatch get', 'state %d of %d is %d' % (i, n,
                e.get_state(i).tag))
        e.drop_state(i)
        if [s.tag for s in e.states] != [k for k in range(n) if k != i] \
                or e.num_states() != n - 1:
            rec.fail('dispatch drop', 'dropping state %d of %d leaves %s'
                % (i, n, [s.tag for s in e.states]))


# ------------------------------------------------------- operation sequences
X0 = [[NAN, 1.5, 2.], [1., .2, 0.], [0., NAN, 1.], [NAN, .3, 1.]]
OUTS = [3, 1, 6]
TYPES = ['bernoulli', 'normal', 'categorical']


class Recording(np.random.RandomState):
    """Remembers with what it was seeded."""

    def __init__(self, seed):
        np.random.RandomState.__init__(self, seed)
        self.log = []

    def seed(self, s=None):
        if hasattr(self, 'log'):
            self.log.append(s)
        np.random.RandomState.seed(self, s)

    def __deepcopy__(self, memo):
        r = Recording(0)
        r.log = []
        r.set_state(self.get_state())
        return r


def engine(n, composite=False):
    from cgpm.crosscat.engine import Engine
    e = Engine(copy.deepcopy(X0), num_states=n, rng=np.random.RandomState(4),
        multiprocess=0, outputs=list(OUTS), cctypes=list(TYPES),
        distargs=[None, None, {'k': 3}])
    for i in range(n):
        s = e.get_state(i)
        for _ in range(i):
            s.transition(N=1, progress=False)
        s.rng = Recording(100 + i)
        retie(s)
    return e


def retie(s):
    """All parts of a state share its generator."""
    rng = s.rng
    s.crp.rng = rng
    for c in s.crp.clusters.values():
        c.rng = rng
    s.crp.aux_model.rng = rng
    for v in s.views.values():
        v.rng = rng
        for d in list(v.dims.values()) + [v.crp]:
            d.rng = rng
            if d.aux_model is not None:
                d.aux_model.rng = rng
            for c in d.clusters.values():
                c.rng = rng


# (name, engine call, state call, is it a query, does it draw numbers)
def _op(name, f, g=None, query=False):
    return name, f, g or f, query


def _linregs(n):
    return [models.linreg(np.random.RandomState(i), 30, [1], data=False)
        for i in range(n)]


OPS = [
    _op('row', lambda e, k: e.incorporate(len(rows(e)), {3: 1., 1: .7}, **k)),
    _op('rows', lambda e, k: e.incorporate_bulk([len(rows(e)), len(rows(e))
        + 1], [{3: 0.}, {1: .4, 6: 2.}], **k)),
    _op('unrow', lambda e, k: e.unincorporate(len(rows(e)) - 1, **k)),
    _op('col', lambda e, k: e.incorporate_dim([1., 0., NAN] + [1.] * (len(
        rows(e)) - 3), [40 + len(names(e))], cctype='bernoulli', **k)),
    _op('uncol', lambda e, k: e.unincorporate_dim(names(e)[-1], **k)),
    _op('force', lambda e, k: e.force_cell(0, {names(e)[0]: 0.}, **k)),
    _op('force many', lambda e, k: e.force_cell_bulk([3, 2], [{names(e)[0]:
        1.}, {1: .9}], **k)),
    _op('type', lambda e, k: e.update_cctype(1, 'lognormal', **k)),
    _op('type2', lambda e, k: e.update_cctype(3, 'categorical', {'k': 2},
        **k)),
    _op('transition', lambda e, k: e.transition(N=1, progress=False, **k)),
    _op('transition rows', lambda e, k: e.transition(N=2, kernels=['rows',
        'column_hypers'], rowids=[0, 1], progress=False, **k)),
    _op('transition col', lambda e, k: e.transition(N=1, cols=[names(e)[0]],
        progress=False, **k)),
    _op('logpdf', lambda e, k: e.logpdf(-1, {3: 1.}, {1: .4}, **k),
        query=True),
    _op('logpdf bulk', lambda e, k: e.logpdf_bulk([-1, -1], [{3: 1.}, {1:
        .2}], **k), query=True),
    _op('simulate', lambda e, k: e.simulate(-1, [3, 1], {}, None, 2, **k),
        query=True),
    _op('simulate bulk', lambda e, k: e.simulate_bulk([-1, 0], [[3], [1]],
        None, None, [1, 2], **k), query=True),
    _op('score', lambda e, k: e.logpdf_score(**k), query=True),
    _op('mi', lambda e, k: e.mutual_information([3], [1], {}, None, 3, **k),
        query=True),
    _op('relevance', lambda e, k: e.relevance_probability(0, [1], names(e)[0],
        [{names(e)[0]: 1.}], **k), query=True),
    _op('similarity', lambda e, k: e.row_similarity_pairwise(**k),
        query=True),
    _op('dependence', lambda e, k: e.dependence_probability_pairwise(**k),
        query=True),
]


def rows(e):
    s = e.get_state(0) if hasattr(e, 'get_state') else e
    return range(s.n_rows())


def names(e):
    s = e.get_state(0) if hasattr(e, 'get_state') else e
    return s.outputs


def fingerprint(s):
    md = s.to_metadata()
    md.pop('diagnostics', None)
    return md, models.state_answers(s)


def same_state(a, b):
    x, y = fingerprint(a), fingerprint(b)
    d = models.diff(x[1], y[1])
    if d:
        return d
    return models.diff(sorted(flatten(x[0]).items()), sorted(flatten(
        y[0]).items()))


def flatten(x, path=''):
    out = {}
    if isinstance(x, dict):
        for k, v in x.items():
            out.update(flatten(v, '%s.%s' % (path, k)))
    elif isinstance(x, (list, tuple)):
        out[path + '#'] = len(x)
        for i, v in enumerate(x):
            out.update(flatten(v, '%s.%d' % (path, i)))
    else:
        out[path] = x.item() if isinstance(x, np.generic) else x
    return out


def run_ops(case, rec):
    few_workers()
    n, depth = case['ops'], case['depth']
    count = [0]

    def go(e, hist):
        left = depth - len(hist)
        for i, (name, f, g, query) in enumerate(OPS):
            if not hist and i != case['first']:
                continue
            if hist and depth > 2 and len(hist) == 1 and i % case['part'][1] \
                    != case['part'][0]:
                continue
            count[0] += 1
            if len(hist) == 2 and count[0] % 4:
                continue
            h = hist + [name]
            key = 'ops %s' % name
            # Every state on its own.
            alone = [copy.deepcopy(s) for s in e.states]
            errs = [None] * n
            m = copy.deepcopy(e)
            for s in m.states:
                s.rng.log = []
            er, got = attempt(f, m, {'multiprocess': 0})
            rec.trans()
            want = []
            for k, s in enumerate(alone):
                for x in m.states[k].rng.log if er is None else []:
                    s.rng.seed(x)
                errs[k], a = attempt(g, s, {})
                want.append(a)
            rec.eval()
            if er is not None or any(x is not None for x in errs):
                if type(er) not in [type(x) for x in errs]:
                    rec.fail(key, 'history %s on %d states: the engine gave '
                        '%r, its states %r' % (h, n, er, errs))
                    return False
                continue
            if query and not equal(got, want):
                rec.fail(key, 'history %s: the engine answers %.300r, its '
                    'states %.300r' % (h, got, want))
                return False
            for k in range(n):
                d = same_state(m.states[k], alone[k])
                if d:
                    rec.fail(key, 'history %s: state %d of %d is not as if '
                        'it was alone: %s' % (h, k, n, str(d)[:300]))
                    return False
            if any(m.states[a] is m.states[b] for a in range(n)
                    for b in range(a)):
                rec.fail(key, 'two states are one object')
                return False
            rec.state((n, tuple(h)))
            # With worker processes.
            if (count[0] + len(hist)) % (9 if case['quick'] else 4) == 0 \
                    or not hist:
                p = copy.deepcopy(e)
                p.rng.set_state(e.rng.get_state())
                er, par = attempt(f, p, {'multiprocess': 1})
                rec.trans()
                rec.eval()
                if er is not None or (query and not equal(par, got)):
                    rec.fail(key + ' multiprocess', 'history %s: %.300r with '
                        'worker processes, %.300r without' % (h, er or par,
                        got))
                    return False
                for k in range(n):
                    d = same_state(p.states[k], m.states[k])
                    if d:
                        rec.fail(key + ' multiprocess', 'history %s: state '
                            '%d differs with worker processes: %s' % (h, k,
                            str(d)[:300]))
                        return False
                    if not query and p.states[k].rng.get_state()[2] != \
                            m.states[k].rng.get_state()[2]:
                        rec.fail(key + ' multiprocess', 'history %s: the '
                            'generator of state %d differs' % (h, k))
                        return False
            if left > 1 and not go(m, h):
                return False
        return True
    with rec.guard(case['id']):
        go(engine(n), [])


def attempt(f, e, k):
    try:
        return None, f(e, k)
    except Exception as x:
        return x, None


def equal(a, b):
    return models.same(models.flat(a), models.flat(b))


# ------------------------------------------------------- likelihood weights
def ensemble(n, composite):
    from cgpm.crosscat.engine import Engine
    parts = [([0, 0], {0: [0, 0, 1]}), ([0, 1], {0: [0, 1, 1], 1: [0, 0,
        1]}), ([0, 0], {0: [0, 1, 2]})]
    rng = CRng(1)
    e = Engine([[0.]], num_states=0, rng=rng, multiprocess=0)
    laws = []
    for i in range(n):
        zv, zr = parts[i]
        sp = cc.spec('bC', 3, zv, zr, outputs=[6, 1], alpha=.5 + i)
        s = cc.build(sp, CRng(2))
        snap = cc.snapshot(s)
        mixes = cc.mixtures(snap)
        tab = {x: math.exp(cc.ref_logpdf(mixes, snap['Zv'], dict(zip([6, 1],
            map(float, x))), {})) for x in itertools.product((0, 1),
            repeat=2)}
        if composite:
            t = nets.Table([20], [90], s.rng, seed=2 + i)
            s.compose_cgpm(t)
            laws.append((tab, t))
        else:
            laws.append((tab, None))
        e.states.append(s)
    return e, rng, laws


def weight(law, con, inputs):
    tab, t = law
    p = math.fsum(q for x, q in tab.items() if all(
        x[[6, 1].index(c)] == v for c, v in con.items() if c in (6, 1)))
    if 20 in con:
        p *= t.prob({20: con[20]}, {}, inputs)
    return p


def weighted(case, rec):
    n = case['weighted']
    count = 0
    for composite in (False, True):
        e, rng, laws = ensemble(n, composite)
        rec.state((n, composite))
        cons = [None, {}] + [{6: 0.}, {1: 1.}, {6: 1., 1: 0.}]
        inputs = [None]
        if composite:
            cons += [{20: 0}, {20: 1, 6: 1.}]
            inputs = [{90: 0.}, {90: .5}]
        for sel in selections(n):
            picked = list(range(n)) if sel is None else sel
            if not picked:
                continue
            for con in cons:
                for inp in inputs:
                    count += 1
                    if count % 4 != case['part']:
                        continue
                    k = {'statenos': sel, 'multiprocess': 0}
                    if sel is None and count % 8 < 4:
                        del k['statenos']
                    w = [weight(laws[s], con or {}, inp) for s in picked]
                    w = [x / sum(w) for x in w]
                    what = 'states %s (composite %s), constraints %s, ' \
                        'inputs %s' % (sel, composite, con, inp)
                    # The weighted integral.
                    for vals in itertools.islice(itertools.product((-1.3,
                            0., -.2, -float('inf')), repeat=len(picked)), 0,
                            None, 3):
                        rec.eval()
                        rec.trans()
                        t = math.fsum(a * math.exp(b)
                            for a, b in zip(w, vals))
                        with rec.guard('integrate'):
                            got = e._likelihood_weighted_integrate(list(vals),
                                -1, con, inp, **k)
                            want = math.log(t) if t else -float('inf')
                            if not ref.close(float(got), want, 1e-8):
                                rec.fail('integrate', '%s: integral of %s '
                                    'is %r, expected %r' % (what, vals, got,
                                    want))
                                return
                    # Resampling.
                    for N in (1, 2, 3):
                        if len(picked) == 3 and N == 3 and count % 8 > 3:
                            continue
                        samples = [[(s, i) for i in range(N)]
                            for s in picked]
                        want = {}
                        for ks in itertools.product(range(len(picked)),
                                repeat=N):
                            p = math.prod(w[x] for x in ks)
                            kk = tuple(sorted(picked[x] for x in ks))
                            want[kk] = want.get(kk, 0.) + p
                        inner = {}
                        with rec.guard('resample'):
                            bad = []

                            def one():
                                r = e._likelihood_weighted_resample([list(x)
                                    for x in samples], -1, con, inp, **k)
                                if len(r) != N or len(set(r)) != N:
                                    bad.append(r)
                                return tuple(sorted(r))
                            d = distribution(rng, one, rec=rec)
                            if bad:
                                rec.fail('resample', '%s: %d samples gave %s'
                                    % (what, N, bad[0]))
                                return
                            got = {}
                            for r, p in d.items():
                                kk = tuple(sorted(s for s, _i in r))
                                got[kk] = got.get(kk, 0.) + p
                                inner.setdefault(kk, []).append(p)
                            if any(abs(got.get(x, 0.) - want.get(x, 0.))
                                    > 1e-8 for x in set(got) | set(want)):
                                rec.fail('resample', '%s: %d samples come '
                                    'from states with law %s, expected %s'
                                    % (what, N, got, want))
                                return
                            # Each state's samples are picked evenly.
                            for kk, ps in inner.items():
                                m = math.prod(math.comb(N, kk.count(s))
                                    for s in set(kk))
                                if len(ps) != m or max(ps) - min(ps) > 1e-9:
                                    rec.fail('resample evenly', '%s: %d '
                                        'samples from states %s: %s' % (what,
                                        N, kk, ps))
                                    return
                    # As many samples or densities as states.
                    if len(picked) == n and n > 1:
                        short = [0.] * (n - 1)
                        e1 = mc.raises(e._likelihood_weighted_integrate,
                            short, -1, con, inp, **k)
                        e2 = mc.raises(e._likelihood_weighted_resample,
                            [[1]] * (n - 1), -1, con, inp, **k)
                        rec.eval(2)
                        if e1 is None or e2 is None:
                            rec.fail('weighted mismatch', '%s: %d answers '
                                'were accepted' % (what, n - 1))
                            return


# ------------------------------------------------------------ adding states
ADDS = [
    [],
    ['row'], ['unrow'], ['col'], ['uncol'], ['force'], ['type2'],
    ['transition'], ['row', 'col'], ['col', 'uncol'], ['type2', 'row'],
    ['uncol', 'col'],
]


def add(case, rec):
    few_workers()
    ops = {o[0]: o for o in OPS}
    for mp in (0, 1):
        for count in (0, 1, 2) if not mp else (1,):
            e = engine(case['n'])
            for h in ADDS[case['add']]:
                ops[h][1](e, {'multiprocess': 0})
            old = [copy.deepcopy(s) for s in e.states]
            what = 'add_state(%d) after %s' % (count, ADDS[case['add']])
            with rec.guard('add'):
                e.add_state(count, multiprocess=mp)
                rec.trans()
                rec.eval()
                rec.state((case['n'], case['add'], count, mp))
                if e.num_states() != case['n'] + count:
                    rec.fail('add', '%s: %d states' % (what, e.num_states()))
                    return
                for i, s in enumerate(old):
                    d = same_state(s, e.get_state(i))
                    if d:
                        rec.fail('add', '%s changed state %d: %s' % (what, i,
                            str(d)[:300]))
                        return
                for i in range(case['n'], e.num_states()):
                    s, t = e.get_state(i), old[0]
                    for f in ('outputs', 'cctypes', 'distargs', 'n_rows'):
                        a = getattr(s, f)
                        b = getattr(t, f)
                        a, b = (a() if callable(a) else a), (b() if callable(
                            b) else b)
                        if list(np.ravel(a)) != list(np.ravel(b)):
                            rec.fail('add', '%s: %s of the new state is %s, '
                                'expected %s' % (what, f, a, b))
                            return
                    if not cc.same_data(list(np.ravel(s.data_array())), list(
                            np.ravel(t.data_array()))):
                        rec.fail('add', '%s: the new state has other data'
                            % what)
                        return
                    cc.verify(rec, 'add %s' % case['id'], s)
                # They are states like the others.
                n = e.num_states()
                before = [s.n_rows() for s in e.states]
                e.incorporate(before[0], {e.get_state(0).outputs[0]: 1.},
                    multiprocess=0)
                if [s.n_rows() for s in e.states] != [b + 1 for b in before]:
                    rec.fail('add', '%s: a new row reached %s' % (what,
                        [s.n_rows() for s in e.states]))
                    return
                for i in reversed(range(n)):
                    rest = [copy.deepcopy(s) for s in e.states[:i]]
                    e.drop_state(i)
                    rec.trans()
                    if e.num_states() != i or any(same_state(a, b)
                            for a, b in zip(rest, e.states)):
                        rec.fail('drop', '%s: dropping state %d' % (what, i))
                        return
    # What an addition must not change.
    e = engine(case['n'])
    for k, v in [('X', X0), ('outputs', OUTS), ('cctypes', TYPES),
            ('distargs', [None, None, {'k': 3}])]:
        rec.eval()
        x = mc.raises(e.add_state, 1, multiprocess=0, **{k: v})
        if not isinstance(x, ValueError) or e.num_states() != case['n']:
            rec.fail('add refused', 'add_state with %s: %r' % (k, x))
    for i in range(case['n']):
        e.get_state(i).compose_cgpm(nets.Table([50], [3], CRng(1)))
    x = mc.raises(e.add_state, 1, multiprocess=0)
    rec.eval()
    if not isinstance(x, ValueError) or e.num_states() != case['n']:
        rec.fail('add composite', 'add_state to composite states: %r' % (x,))
    # Composing.
    count = max(case['n'], 2 + case['add'] % 3)
    e = engine(count)
    for mp in (0, 1):
        mods = [nets.Table([60 + mp], [3], None, seed=i + 2)
            for i in range(count)]
        with rec.guard('compose'):
            e.compose_cgpm(mods, multiprocess=mp)
            rec.trans()
            for i, s in enumerate(e.states):
                for v in (0, 1):
                    rec.eval()
                    t = mods[i]
                    got = s.logpdf(-1, {60 + mp: 1}, {3: float(v)})
                    if not ref.close(got, math.log(t.prob({60 + mp: 1}, {},
                            {3: v}))):
                        rec.fail('compose', 'state %d has density %r from '
                            'its model' % (i, got))
                        return


def run_case(case, rec):
    for k, f in (('dispatch', dispatch), ('ops', run_ops),
            ('weighted', weighted), ('add', add)):
        if k in case:
            return f(case, rec)
