"""Inference runs exactly the requested amount of work."""
import contextlib
import copy
import io
import itertools
import math
import re
import time

import numpy as np

import cc
import mc
import nets
from crng import CRng, distribution

PID = 'C21'
RULE = ('every combination of iteration limit, time limit, kernel list and '
    'checkpoint interval in bounds x every assignment of running times to '
    'the first kernels, under a simulated clock; exact laws of every kernel '
    'restricted to every subset of columns, rows and views, of every '
    'sequence of two kernels and of two iterations, names given twice too')
ASSUMPTIONS = ['time passes only while a kernel runs (simulated clock)',
    'a state of one row is not used: its rows have nothing to infer']
KERNELS = ['alpha', 'view_alphas', 'column_params', 'column_hypers', 'rows',
    'columns']


def lists(quick):
    yield None
    for k in KERNELS:
        yield [k]
    for p in itertools.permutations(KERNELS, 2):
        if not quick or p[0] < p[1] or 'rows' in p:
            yield list(p)
    yield list(reversed(KERNELS))
    if not quick:
        for p in itertools.permutations(KERNELS, 3):
            yield list(p)


LIMITS = [(None, None), (0, None), (1, None), (2, None), (3, None), (None,
    1.), (None, 2.5), (1, 2.), (2, 2.), (3, 1.), (3, 4.), (0, 1.), (2, 0),
    (None, 0), (7, None)]


def cases(tier):
    quick = tier == 'quick'
    for n in (0, 1, 2, 3):
        for i, (N, S) in enumerate(LIMITS):
            yield {'id': 'foreign%d.%s.%s' % (n, N, S), 'foreign': n, 'N': N,
                'S': S, 'quick': quick}
    for i, ks in enumerate(lists(quick)):
        yield {'id': 'budget.%s' % ','.join(ks or ['all']), 'budget': ks,
            'quick': quick}
    for c in (1, 2, 3, 5):
        for ks in (None, ['rows'], ['columns', 'alpha'], ['column_hypers',
                'rows', 'view_alphas']):
            yield {'id': 'checkpoint%d.%s' % (c, ','.join(ks or ['all'])),
                'checkpoint': c, 'kernels': ks, 'quick': quick}
    for k in KERNELS:
        for j in range(4 if k in ('rows', 'column_hypers') else 1):
            yield {'id': 'effect.%s.%d' % (k, j), 'effect': k, 'part': (j,
                4 if k in ('rows', 'column_hypers') else 1), 'quick': quick}
    for i, p in enumerate(itertools.product(KERNELS, repeat=2)):
        yield {'id': 'compose.%s.%s' % p, 'compose': list(p), 'N': 1}
    for k in KERNELS:
        yield {'id': 'twice.%s' % k, 'compose': [k], 'N': 2}
        if not quick and k != 'rows':
            yield {'id': 'thrice.%s' % k, 'compose': [k], 'N': 3}
    yield {'id': 'default', 'compose': None, 'N': 1, 'short': quick}
    yield {'id': 'view', 'view': 1, 'short': quick}
    yield {'id': 'refused', 'refused': 1}


# ---------------------------------------------------------- simulated clock
class Clock(object):
    def __init__(self, costs):
        self.now = 1000.
        self.costs = costs
        self.ran = []

    def work(self, kernel):
        k = len(self.ran)
        if k > 60:
            raise RuntimeError('inference does not stop')
        self.ran.append(kernel)
        self.now += self.costs[k] if k < len(self.costs) else 1.


@contextlib.contextmanager
def clocked(clock):
    """Time is the simulated clock's."""
    from cgpm.crosscat import state as module
    real = time.time

    def fake():
        return clock.now
    time.time = fake
    direct = module.__dict__.get('time')
    if direct is real:
        module.time = fake
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            yield out
    finally:
        time.time = real
        if direct is real:
            module.time = real


class Counter(dict):
    """The record of finished kernels, which drives the clock."""

    def __init__(self, clock):
        dict.__init__(self)
        self.clock = clock

    def __setitem__(self, k, v):
        step = v - self.get(k, 0)
        dict.__setitem__(self, k, v)
        for _ in range(int(step)):
            self.clock.work(k)

    def update(self, *a, **k):
        for x, v in dict(*a, **k).items():
            self[x] = v

    def setdefault(self, k, d=None):
        if k not in self:
            dict.__setitem__(self, k, d)
        return self[k]

    def __deepcopy__(self, memo):
        return dict(self)


def schedule(n, N, S, costs, order=None):
    """How many kernels run, of n per iteration, and how many iterations."""
    if N is None and S is None:
        N = 1
    ran, t = 0, 0.
    if not n:
        return 0, 0
    while True:
        if N is not None and ran >= N * n:
            break
        if S is not None and t >= S:
            break
        t += costs[ran] if ran < len(costs) else 1.
        ran += 1
    return ran, ran // n


def reported(out):
    m = re.search(r'(\d+) iterations', out)
    return int(m.group(1)) if m else None


class Timed(nets.Table):
    """A model whose inference takes time."""

    def transition(self, *a, **k):
        self.log.append(a)
        self.clock.work(self.name)


def foreign(case, rec):
    n, N, S = case['foreign'], case['N'], case['S']
    for size in range(0, n + 1):
        for sel in [None] if size == n and n != 0 else itertools.combinations(
                range(n), size):
            m = n if sel is None else len(sel)
            length = {0: 0, 1: 3, 2: 4, 3: 4}[m] if S else 0
            if not case['quick'] and S:
                length += 1
            for costs in itertools.product((0., 1., 2.), repeat=length):
                for progress in (False, True):
                    if progress and sum(costs) % 4:
                        continue
                    if not one_foreign(case, rec, n, N, S, sel, costs,
                            progress):
                        return


def one_foreign(case, rec, n, N, S, sel, costs, progress):
    clock = Clock(costs)
    rng = CRng(1)
    s = base(rng)
    toks = []
    for i in range(n):
        t = Timed([20 + 2 * i, 21 + 2 * i], [1], rng, seed=i)
        t.name, t.clock, t.log = i, clock, []
        toks.append(s.compose_cgpm(t))
    cols = None if sel is None else [20 + 2 * i + i % 2 for i in sel]
    if cols and len(costs) % 2:
        # Naming both outputs of a model is naming the model.
        cols = cols + [20 + 2 * sel[0] + (sel[0] + 1) % 2]
    want = list(range(n)) if sel is None else list(sel)
    ran, iters = schedule(len(want), N, S, costs)
    what = '%d models, N=%s, S=%s, cols=%s, times %s' % (n, N, S, cols,
        costs)
    rec.trans()
    rec.eval()
    before = cc.canon(cc.snapshot(s))
    with rec.guard('foreign', what=what):
        with clocked(clock) as out:
            s.transition_foreign(N=N, S=S, cols=cols, progress=progress)
        log = clock.ran
        rec.outcome((len(log), iters))
        rec.state((n, sel, N, S, tuple(log)))
        m = len(want)
        bad = None
        if len(log) != ran:
            bad = 'ran %d kernels %s, expected %d' % (len(log), log, ran)
        elif m and any(sorted(log[i:i + m]) != want and (len(log[i:i + m])
                == m or not set(log[i:i + m]) <= set(want)) or len(set(
                log[i:i + m])) < len(log[i:i + m])
                for i in range(0, len(log), m)):
            bad = 'ran the kernels %s, expected repetitions of %s' % (log,
                want)
        elif m and log != [log[i % m] for i in range(len(log))]:
            bad = 'the order of the kernels changes: %s' % log
        counts = dict(s.diagnostics['iterations'])
        expected = {'foreign-%s' % toks[i]: log.count(i) for i in want if
            log.count(i)}
        if not bad and counts != expected:
            bad = 'iterations recorded %s, expected %s' % (counts, expected)
        if not bad and cc.canon(cc.snapshot(s)) != before:
            bad = 'the CrossCat columns changed'
        if not bad and progress and m and reported(out.getvalue()) not in (
                None, iters):
            bad = 'reported %r, expected %d iterations' % (
                out.getvalue()[-60:], iters)
        if not bad and not progress and out.getvalue():
            bad = 'printed %r without progress' % out.getvalue()
        if bad:
            rec.fail('foreign', '%s: %s' % (what, bad))
            return False
    return True


GRID = [.5, 2.]


def base(rng):
    """Two rows, two columns in one view; hyperparameter grids of two."""
    sp = cc.spec('bC', 2, [0, 0], {0: [0, 1]}, outputs=[6, 1])
    return thin(cc.build(sp, rng))


def few_concentrations(n=2):
    """Grids of n concentrations, for views made on the way as well."""
    from cgpm.primitives.crp import Crp
    Crp.construct_hyper_grids = staticmethod(
        lambda X, n_grid=30: {'alpha': GRID[:n]})


def thin(s, n=1):
    for c in s.outputs:
        d = s.dim_for(c)
        for h in d.hyper_grids:
            d.hyper_grids[h] = GRID[:n] if n > 1 else [d.hypers[h]]
    for crp in [s.crp] + [v.crp for v in s.views.values()]:
        crp.hyper_grids['alpha'] = list(GRID)
    return s


def budget(case, rec):
    ks = case['budget']
    order = ks or KERNELS
    m = len(order)
    for N, S in LIMITS:
        if S is None and N == 7 and ks is None:
            continue
        length = {1: 3, 2: 4}.get(m, 4) if S else 0
        alphabet = (0., 1., 2.) if m < 3 else (0., 2.)
        for costs in itertools.product(alphabet, repeat=length):
            if length == 4 and case['quick'] and sum(costs) % 3 == 2:
                continue
            clock = Clock(costs)
            s = base(CRng(1))
            s.diagnostics['iterations'] = Counter(clock)
            ran, iters = schedule(m, N, S, costs)
            what = 'kernels %s, N=%s, S=%s, times %s' % (ks, N, S, costs)
            rec.trans()
            rec.eval()
            progress = bool(sum(costs) % 2)
            with rec.guard('budget', what=what):
                with clocked(clock) as out:
                    s.transition(N=N, S=S, kernels=None if ks is None else
                        list(ks), progress=progress)
                want = [order[i % m] for i in range(ran)]
                rec.outcome(tuple(clock.ran))
                rec.state((tuple(order), N, S, len(clock.ran)))
                if clock.ran != want:
                    rec.fail('budget', '%s: ran %s, expected %s' % (what,
                        clock.ran, want))
                    return
                counts = {k: v for k, v in s.to_metadata()['diagnostics'][
                    'iterations'].items()}
                if counts != {k: want.count(k) for k in want}:
                    rec.fail('budget counts', '%s: recorded %s' % (what,
                        counts))
                    return
                if progress and reported(out.getvalue()) not in (None,
                        iters) or not progress and out.getvalue():
                    rec.fail('budget report', '%s: printed %r, did %d '
                        'iterations' % (what, out.getvalue()[-80:], iters))
                    return


def checkpoint(case, rec):
    c, ks = case['checkpoint'], case['kernels']
    m = len(ks or KERNELS)
    trail = []          # what a state is after so many iterations
    for N in range(0, 8):
        s = base(np.random.RandomState(5))
        with rec.guard('checkpoint run'):
            with clocked(Clock([])):
                if N:
                    s.transition(N=N, kernels=ks, progress=False)
            trail.append((s.logpdf_score(), float(s.alpha()), {o: s.Zv(o)
                for o in s.outputs}))
    diag = ('logscore', 'column_crp_alpha', 'column_partition')
    if not trail:
        return
    for N, S in [(n, None) for n in range(0, 8)] + [(None, .5 + k)
            for k in range(0, 2 * m + 2)] + [(3, m * 2.), (2, m + .5)]:
        for first in (0, 2):
            s = base(np.random.RandomState(5))
            clock = Clock([])
            with rec.guard('checkpoint'):
                with clocked(clock):
                    if first:
                        # What was recorded before is kept.
                        s.transition(N=first, kernels=ks, checkpoint=1,
                            progress=False)
                    s.diagnostics['iterations'] = Counter(clock)
                    s.transition(N=N, S=S, kernels=ks, progress=False,
                        checkpoint=c)
                _ran, iters = schedule(m, N, S, [])
                rec.trans()
                rec.eval()
                rec.state((c, str(ks), N, S, first))
                marks = list(range(1, first + 1)) + [first + i
                    for i in range(c, iters + 1, c)]
                got = list(zip(*[s.diagnostics[d] for d in diag]))
                what = 'checkpoint=%d, kernels=%s, N=%s, S=%s after %d ' \
                    'iterations' % (c, ks, N, S, first)
                lens = [len(s.diagnostics[d]) for d in diag]
                if lens != [len(marks)] * 3:
                    rec.fail('checkpoint', '%s: recorded %s times, expected '
                        '%d' % (what, lens, len(marks)))
                    return
                for i, (sc, a, zv) in zip(marks, got):
                    if i >= len(trail):
                        continue
                    w = trail[i]
                    if abs(sc - w[0]) > 1e-8 or abs(a - w[1]) > 1e-12 or \
                            {int(k): int(v) for k, v in zv} != w[2]:
                        rec.fail('checkpoint value', '%s: recorded %s after '
                            'iteration %d, was %s' % (what, (sc, a, zv), i,
                            w))
                        return
    # Without checkpoints nothing is recorded.
    s = base(np.random.RandomState(5))
    with clocked(Clock([])):
        s.transition(N=3, kernels=ks, progress=False)
    if any(s.diagnostics[d] for d in diag):
        rec.fail('checkpoint', 'recorded without being asked to')


# ------------------------------------------------------------------ effects
def wide(rng, k):
    """Three columns in two views, three rows."""
    if k == 'columns':
        sp = cc.spec('bCn', 2, [4, 2, 4], {4: [0, 1], 2: [0, 0]},
            outputs=[6, 1, 3])
    else:
        sp = cc.spec('bCb' if k == 'rows' else 'bCn', 3, [4, 2, 4], {4: [0,
            0, 1], 2: [0, 1, 1]}, outputs=[6, 1, 3])
    s = cc.build(sp, rng)
    return thin(s, 2)


def parts(s):
    """The parts of a state, each inferred by one kernel for one target."""
    snap = cc.snapshot(s)
    out = {('alpha',): snap['alpha']}
    cols = snap['outputs']
    names = {}
    for v, (zr, a) in snap['views'].items():
        out[('view_alphas', v)] = a
        for r in range(snap['n']):
            out[('rows', v, r)] = tuple(zr[r] == zr[q]
                for q in range(snap['n']))
    for c in cols:
        out[('column_hypers', c)] = repr(sorted(snap['cols'][c][1].items()))
        out[('columns', c)] = snap['Zv'][c]
    return out


def subsets(x):
    for r in range(len(x) + 1):
        for y in itertools.combinations(x, r):
            yield list(y)


def effect(case, rec):
    few_concentrations()
    k = case['effect']
    rng = CRng(1)
    s0 = wide(rng, k)
    if k == 'columns':
        thin(s0, 1)
    p0 = parts(s0)
    outs, views, n = list(s0.outputs), [2, 4], s0.n_rows()
    asks = [{}] + [{'cols': c} for c in subsets(outs)]
    if k != 'columns':
        asks += [{'views': v} for v in subsets(views)]
    if k == 'rows' and case['quick']:
        # Three rows in one view, or two in both.
        asks = [a if 'cols' in a and len(set(map(s0.Zv, a['cols']))) < 2
            or len(a.get('views', [2, 4])) < 2 else dict(a, rowids=[2, 0])
            for a in asks]
        asks += [{'rowids': r} for r in subsets(range(n)) if len(r) < 3]
    elif k in ('rows', 'alpha'):
        asks += [{'rowids': r} for r in subsets(range(n))]
        asks += [{'rowids': [2, 0], 'cols': [1]}, {'rowids': [1], 'views':
            [4]}, {'rowids': [0, 2], 'cols': [6, 3]}, {'rowids': [],
            'views': [2]}]
    for ask in asks[case['part'][0]::case['part'][1]]:
        cols = ask.get('cols', outs)
        vs = ask.get('views', sorted(set(s0.Zv(c) for c in cols)))
        rows = ask.get('rowids', list(range(n)))
        if k == 'alpha':
            allowed = {('alpha',)}
        elif k == 'view_alphas':
            allowed = {(k, v) for v in vs}
        elif k == 'column_params':
            allowed = set()
        elif k == 'column_hypers':
            allowed = {(k, c) for c in cols}
        elif k == 'columns':
            allowed = {(k, c) for c in cols}
        else:
            allowed = {(k, v, r) for v in vs for r in rows}
        hit, bad, count = set(), [], [0]

        def run():
            s = copy.deepcopy(s0)
            s.transition(N=1, kernels=[k], progress=False, **{x: list(y)
                for x, y in ask.items()})
            return s

        def look(s):
            count[0] += 1
            p = parts(s)
            if k == 'rows':
                moved, ok = moved_rows(s0, s, vs, rows)
                hit.update(moved)
                if not ok:
                    bad.append('rows other than %s of views %s moved' % (rows,
                        vs))
                changed = {x for x in set(p) | set(p0) if p.get(x) != p0.get(
                    x) and x[0] != 'rows'}
            elif k == 'columns':
                changed = set()
                for c in outs:
                    if s.Zv(c) != s0.Zv(c):
                        changed.add((k, c))
                hit.update(changed)
                changed |= {x for x in p0 if x[0] in ('alpha',
                    'column_hypers') and p[x] != p0[x]}
                for v in s.views:
                    if v in views and any(p[x] != p0[x] for x in p0 if len(x)
                            > 1 and x[1] == v and x[0] in ('rows',
                            'view_alphas')):
                        changed.add(('view', v))
            else:
                changed = {x for x in set(p) | set(p0) if p.get(x) != p0.get(
                    x)}
                hit.update(changed)
            if not changed <= allowed:
                bad.append('changed %s' % sorted(map(str, changed -
                    allowed)))
            its = dict(s.diagnostics['iterations'])
            if its != {k: 1}:
                bad.append('recorded %s' % its)
            return repr(sorted(p.items(), key=repr))
        what = 'kernel %s for %s' % (k, ask or 'everything')
        with rec.guard('effect %s' % k, what=what):
            law = distribution(rng, run, look, rec=rec, max_paths=400000)
            rec.trans(count[0])
            rec.eval(count[0])
            rec.state((k, str(ask)))
            if bad:
                rec.fail('effect %s' % k, '%s: %s' % (what, bad[0]))
                return
            if k in ('rows', 'view_alphas') and len(cols) == 2 and \
                    'cols' in ask and len(vs) == 1:
                # Columns of one view: the view is visited once.
                ask = {'views': vs}
                once = distribution(rng, run, look, rec=rec)
                if any(abs(law.get(x, 0.) - once.get(x, 0.)) > 1e-8
                        for x in set(law) | set(once)):
                    rec.fail('effect %s' % k, '%s: not the law of one visit '
                        'to the view of the columns' % what)
                    return
            missing = allowed - hit
            if missing:
                rec.fail('effect %s' % k, '%s: no choice ever changed %s' % (
                    what, sorted(map(str, missing))))
                return


def moved_rows(s0, s, vs, rows):
    """Which rows are grouped otherwise; is it explained by `rows`?"""
    moved, ok = set(), True
    n = s0.n_rows()
    for v in (2, 4):
        a = [s0.views[v].Zr(r) for r in range(n)]
        b = [s.views[v].Zr(r) for r in range(n)]
        # Rows that stay keep being together or apart.
        stay = [r for r in range(n) if v not in vs or r not in rows]
        for x, y in itertools.combinations(stay, 2):
            if (a[x] == a[y]) != (b[x] == b[y]):
                ok = False
        for r in rows if v in vs else []:
            if any((a[r] == a[q]) != (b[r] == b[q]) for q in range(n)):
                moved.add(('rows', v, r))
    return moved, ok


# -------------------------------------------------------------- composition
def small(rng, n=2):
    sp = cc.spec('bC', 2, [0, 1], {0: [0, 1], 1: [0, 0]}, outputs=[6, 1])
    s = cc.build(sp, rng)
    thin(s)
    d = s.dim_for(6)
    d.hyper_grids['alpha'] = [.5, 2.]
    for v in s.views.values():
        v.crp.hyper_grids['alpha'] = GRID[:n]
    return s


def law(rng, s, f, rec, prints):
    """Law of the state after f, with a representative of each outcome."""
    reps = {}

    def run():
        t = copy.deepcopy(s)
        f(t)
        return t

    def look(t):
        p = prints(t)
        if p not in reps:
            reps[p] = t
        return p
    d = distribution(rng, run, look, rec=rec, max_paths=600000)
    return d, reps


def prints(t):
    snap = cc.snapshot(t)
    return cc.canon(snap)


def rounded(d):
    return {k: v for k, v in d.items() if v > 1e-12}


def compose(case, rec):
    ks, N = case['compose'], case['N']
    few_concentrations(1 if case.get('short') else 2)
    rng = CRng(1, grid=2)
    s0 = small(rng, 1 if case.get('short') else 2)
    order = (ks or KERNELS) * N
    step = {}

    def one(p, rep, k):
        """Law of one kernel from a state."""
        if (p, k) not in step:
            step[p, k] = law(rng, rep, lambda t: t.transition(N=1, kernels=[
                k], progress=False), rec, prints)
        return step[p, k]
    with rec.guard('compose', what=str(case)):
        cur = {prints(s0): 1.}
        reps = {prints(s0): s0}
        for k in order:
            nxt, nreps = {}, {}
            for p, w in cur.items():
                d, r = one(p, reps[p], k)
                for q, x in d.items():
                    nxt[q] = nxt.get(q, 0.) + w * x
                    nreps.setdefault(q, r[q])
            cur, reps = nxt, nreps

        def whole(t):
            t.transition(N=N, kernels=None if ks is None else list(ks),
                progress=False)
        got, _r = law(rng, s0, whole, rec, prints)
        rec.trans(len(got))
        rec.eval(len(got))
        rec.state((str(ks), N))
        for p in set(got) | set(cur):
            if abs(got.get(p, 0.) - cur.get(p, 0.)) > 1e-7:
                rec.fail('compose', 'kernels %s, N=%d: one outcome has '
                    'probability %r, one kernel after the other %r' % (ks, N,
                    got.get(p, 0.), cur.get(p, 0.)))
                return


def view(case, rec):
    rng = CRng(1, grid=2)
    s0 = small(rng, 1 if case['short'] else 2)

    def vp(v):
        return (tuple(tuple(v.Zr(r) == v.Zr(q) for q in range(2))
            for r in range(2)), round(float(v.alpha()), 9), repr([sorted(
            v.dims[c].hypers.items()) for c in sorted(v.dims)]))

    def after(v, fs):
        def run():
            w = copy.deepcopy(v)
            for f in fs:
                f(w)
            return w
        return distribution(rng, run, vp, rec=rec)
    seq = [lambda v: v.transition_rows(), lambda v: v.transition_crp_alpha(),
        lambda v: v.transition_dim_hypers()]
    for N in (0, 1, 2):
        with rec.guard('view'):
            got = after(s0.views[0], [lambda v: v.transition(N)])
            want = after(s0.views[0], seq * N)
            rec.trans()
            rec.eval()
            if any(abs(got.get(p, 0.) - want.get(p, 0.)) > 1e-9
                    for p in set(got) | set(want)):
                rec.fail('view', 'View.transition(%d) does not do %d times '
                    'its kernels' % (N, N))
                return


def refused(case, rec):
    from cgpm.crosscat.engine import Engine
    for eng in (False, True):
        for bad in ([99], [6, 99], [20], [1, 20], [99, 6]):
            for ks in (None, ['rows'], ['alpha']):
                rng = np.random.RandomState(2)
                s = wide(rng, '')
                s.compose_cgpm(nets.Table([20], [1], rng, seed=2))
                t = s
                k = {}
                if eng:
                    t = Engine([[0.]], num_states=0, rng=rng, multiprocess=0)
                    t.states = [s]
                    k = {'multiprocess': 0}
                before = prints(s), dict(s.diagnostics['iterations'])
                x = mc.raises(t.transition, N=1, cols=bad, kernels=ks,
                    progress=False, **k)
                rec.eval()
                rec.trans()
                s = t.states[0] if eng else s
                if not isinstance(x, ValueError):
                    rec.fail('refused', 'transition(cols=%s, kernels=%s) '
                        'gave %r' % (bad, ks, x))
                    return
                if (prints(s), dict(s.diagnostics['iterations'])) != before:
                    rec.fail('refused', 'transition(cols=%s) was refused but '
                        'changed the state' % bad)
                    return
        for bad in ([6], [20, 6], [6, 1]):
            clock = Clock([])
            s = wide(np.random.RandomState(2), '')
            m = Timed([20], [1], s.rng, seed=2)
            m.name, m.clock, m.log = 0, clock, []
            s.compose_cgpm(m)
            t, k = s, {}
            if eng:
                t = Engine([[0.]], num_states=0, rng=s.rng, multiprocess=0)
                t.states = [s]
                k = {'multiprocess': 0}
            x = mc.raises(t.transition_foreign, N=1, cols=bad,
                progress=False, **k)
            rec.eval()
            rec.trans()
            if not isinstance(x, ValueError) or clock.ran:
                rec.fail('refused foreign', 'transition_foreign(cols=%s) '
                    'gave %r and ran %s' % (bad, x, clock.ran))
                return
    # Views that lose all their columns on the way.
    s0 = wide(CRng(1), '')
    for seed in range(12):
        for vs in ([2], [4], [2, 4], []):
            s = wide(np.random.RandomState(seed), '')
            with rec.guard('views gone'):
                s.transition(N=4, views=vs, progress=False)
                its = s.diagnostics['iterations']
                rec.trans()
                rec.eval()
                if its != {k: 4 for k in KERNELS}:
                    rec.fail('views gone', 'views %s, N=4 recorded %s' % (vs,
                        its))
                    return
    for bad in ([99], [2, 99]):
        s = wide(np.random.RandomState(1), '')
        before = prints(s)
        x = mc.raises(s.transition, N=1, views=bad, progress=False)
        rec.eval()
        if x is None:
            rec.fail('refused views', 'transition(views=%s) was accepted'
                % bad)


def run_case(case, rec):
    for k, f in (('foreign', foreign), ('budget', budget), ('checkpoint',
            checkpoint), ('effect', effect), ('compose', compose), ('view',
            view), ('refused', refused)):
        if k in case:
            return f(case, rec)
