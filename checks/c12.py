"""Saving and loading a model preserves all its answers."""
import copy
import io
import json

import numpy as np

import cc
import mc
import models
from crng import CRng

PID = 'C12'
RULE = ('every history of edits to the stated depth on every model type; at '
    'each state reached the model is saved, loaded directly, through JSON '
    'text and through a pickle, asked the whole query set before and after, '
    'then the original and the loaded copy are edited in every way and the '
    'saved metadata must be untouched and load to the same answers again')
ASSUMPTIONS = ['up to 4 rows and 4 columns',
    'collapsed component types (others are known findings)',
    'JSON text is written as on Python 2, where numpy integers are integers']


# ------------------------------------------------------------------ routes
def plain(x):
    """numpy integers and byte strings as Python 2 json writes them."""
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, bytes):
        return x.decode('latin1')
    return x


def via_json(md):
    return json.loads(json.dumps(plain(md)))


def frozen(md):
    """An independent, comparable copy of metadata."""
    def conv(x):
        if isinstance(x, dict):
            return {repr(k): conv(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [conv(v) for v in x]
        if isinstance(x, np.ndarray):
            return conv(x.tolist())
        if isinstance(x, (np.generic,)):
            return conv(x.item())
        if isinstance(x, (bool, int, float, str, bytes)) or x is None:
            return repr(x)
        return '<%s>' % type(x).__name__
    return conv(md)


# ------------------------------------------------------------------- cases
def cases(tier):
    quick = tier == 'quick'
    states = [
        ('ncb', [0, 0, 1], {0: [0, 1, 0], 1: [0, 0, 0]}, [(1, 0)]),
        ('nnp', [7, 7, 2], {7: [3, 1, 3], 2: [5, 5, 0]}, [(1, 2), (2, 0)]),
        ('Cn', [0, 0], {0: [2, 0, 1]}, [(0, 1)]),
    ] + ([] if quick else [
        ('gle', [1, 4, 1], {1: [0, 0, 1], 4: [1, 0, 2]}, [(0, 0)]),
        ('nnn', [0, 0, 0], {0: [0, 0, 0]}, []),
        ('vcn', [2, 1, 0], {0: [0, 1, 1], 1: [0, 1, 2], 2: [4, 4, 1]},
            [(1, 1)])])
    for i, (k, zv, zr, miss) in enumerate(states):
        sp = cc.spec(k, 3, zv, zr, missing=miss,
            outputs=[4, 0, 9][:len(k)] if i else None)
        for first in [None] + models.STATE_OPS:
            yield {'id': 'state%d:%s' % (i, first), 'state': sp,
                'first': first, 'depth': 2 if quick else 3}
    sp = cc.spec('nCb', 3, [0, 0, 1], {0: [0, 1, 0], 1: [0, 0, 0]})
    for Cd, Ci in [([[0, 1]], [(1, 2)]), ([[0, 1]], []), ([], [(0, 2)])]:
        yield {'id': 'constrained:%s%s' % (Cd, Ci), 'state': sp, 'Cd': Cd,
            'Ci': [list(c) for c in Ci], 'first': 'hypers', 'depth': 1}
    for kind in ('beta', 'normal_trunc', 'random_forest'):
        yield {'id': 'uncollapsed:' + kind, 'uncollapsed': kind}
    for i, (k, zr, miss) in enumerate([('ncb', [0, 1, 0], [(1, 1)]),
            ('pe', [4, 2, 4], [])]):
        yield {'id': 'view%d' % i, 'view': cc.spec(k, 3, [0] * len(k),
            {0: zr}, missing=miss), 'depth': 2 if quick else 4}
    for name in sorted(models.subjects()):
        n = {'forest': 3}.get(name, 4) + (0 if quick else 1)
        yield {'id': name, 'subject': name, 'depth': n}
    for n in (1, 2) if quick else (1, 2, 3):
        yield {'id': 'engine%d' % n, 'engine': n, 'depth': 1 if quick else 2}


# ------------------------------------------------------------------ oracle
class Kit(object):
    """How to drive one model type."""

    def __init__(self, copy_, load, answers, op, ops, pickle=None,
            bare=None):
        self.copy, self.load, self.answers = copy_, load, answers
        self.op, self.ops, self.pickle = op, ops, pickle
        # Loading without a source of randomness.
        self.bare = bare


def roundtrip(rec, kit, model, hist, deep=True):
    key = '%s after %s' % (rec.case['id'].split(':')[0], '>'.join(hist))
    before = kit.answers(model)
    md = model.to_metadata()
    rec.eval()
    bad = models.diff(before, kit.answers(model))
    if bad:
        return rec.fail(key + ': saving', 'saving changed ' + bad)
    ice = frozen(md)

    def check_md(what):
        rec.eval()
        if frozen(md) != ice:
            a, b = ice, frozen(md)
            ks = [k for k in set(a) | set(b) if a.get(k) != b.get(k)]
            rec.fail(key + ': metadata', '%s changed the saved metadata %s'
                % (what, ks))
            return False
        return True
    routes = [('direct', lambda: kit.load(md)),
        ('json', lambda: kit.load(via_json(md)))]
    if kit.pickle:
        routes.append(('pickle', lambda: kit.pickle(model)))
    if kit.bare and len(hist) < 2:
        routes.append(('no rng', lambda: kit.bare(md)))
    copies = []
    for name, load in routes:
        rec.trans()
        rec.trace()
        with rec.guard('%s: %s' % (key, name)):
            m2 = load()
            bad = models.diff(before, kit.answers(m2))
            rec.eval(len(before))
            if bad:
                rec.fail('%s: %s' % (key, name), 'loaded (%s): %s'
                    % (name, bad), history=hist)
                return
            copies.append(m2)
            if not check_md('loading (%s)' % name):
                return
    if not copies:
        return
    bad = models.diff(before, kit.answers(model))
    if bad:
        return rec.fail(key + ': loading', 'loading changed the model: '
            + bad)
    # A copy of a copy.
    with rec.guard(key + ': again'):
        m3 = kit.load(copies[0].to_metadata())
        bad = models.diff(before, kit.answers(m3))
        if bad:
            return rec.fail(key + ': again', 'loaded twice: ' + bad)
    if not deep:
        return
    # Edits of the original and of loaded copies do not reach the metadata.
    for op in kit.ops:
        m2 = kit.load(md)
        try:
            done = kit.op(m2, op)
        except Exception as e:
            # The same edit must then fail on the original.
            err = mc.raises(kit.op, kit.copy(model), op)
            if type(err) is not type(e):
                rec.fail('%s: %s' % (key, op), 'edit of the loaded model '
                    'raises %r, of the original %r' % (e, err))
            continue
        if not done:
            continue
        rec.trans()
        if not check_md('%s on the loaded model' % op):
            return
        bad = models.diff(before, kit.answers(model))
        if bad:
            return rec.fail('%s: %s' % (key, op), 'edit of the loaded model '
                'reached the original: ' + bad)
    live = kit.copy(model)
    md = live.to_metadata()
    ice = frozen(md)
    done = []
    for op in kit.ops:
        if mc.raises(kit.op, live, op) is None:
            done.append(op)
            if not check_md('%s on the saved model' % done):
                return
    bad = models.diff(before, kit.answers(kit.load(md)))
    if bad:
        rec.fail(key + ': later', 'metadata loaded after edits %s: %s'
            % (done, bad))


def explore(rec, kit, model, depth, first=None, every=True):
    """All edit histories to the depth, merged on equal answers."""
    seen = set()
    frontier = [(model, [])]
    for level in range(depth + 1):
        nxt = []
        for m, hist in frontier:
            if len(rec.fails) > 10:
                return
            if first is None or level > 0:
                k = repr(models.flat(kit.answers(m)))
                if k in seen:
                    continue
                seen.add(k)
                rec.state(k)
                rec.outcome(len(k))
                if len(hist) == 2:
                    rec.sample({'case': rec.case['id'], 'history': hist})
                roundtrip(rec, kit, m, hist)
            if level == depth:
                continue
            for op in kit.ops if (first is None or level) else [first]:
                m2 = kit.copy(m)
                try:
                    ok = kit.op(m2, op)
                except Exception as e:
                    rec.fail('%s after %s: edit %s' % (rec.case['id'], hist,
                        op), 'edit raises %r' % (e,))
                    continue
                if ok:
                    rec.trans()
                    nxt.append((m2, hist + [op]))
        frontier = nxt


# --------------------------------------------------------------------- run
def state_kit():
    from cgpm.crosscat.state import State

    def pickled(m):
        f = io.BytesIO()
        m.to_pickle(f)
        f.seek(0)
        return State.from_pickle(f, rng=CRng(8))
    return Kit(copy.deepcopy, lambda md: State.from_metadata(md,
        rng=CRng(7)), models.state_answers, models.state_op,
        models.STATE_OPS + ['sethypers'], pickled, State.from_metadata)


def run_case(case, rec):
    if 'state' in case:
        s = cc.build(case['state'], CRng(1))
        if case.get('Cd') or case.get('Ci'):
            from cgpm.crosscat.state import State
            md = s.to_metadata()
            s = State.from_metadata(dict(md, Cd=[list(c) for c in case['Cd']],
                Ci=[tuple(c) for c in case['Ci']]), rng=CRng(1))
        kit = state_kit()
        kit2 = Kit(kit.copy, kit.load, kit.answers, kit.op, models.STATE_OPS,
            kit.pickle, kit.bare)
        if case['first'] is None:
            roundtrip(rec, kit, s, [])
            rec.state(case['id'])
            return
        return explore(rec, kit2, s, case['depth'], case['first'])
    if 'uncollapsed' in case:
        return uncollapsed(case, rec)
    if 'view' in case:
        return view(case, rec)
    if 'engine' in case:
        return engine(case, rec)
    subj = models.subjects()[case['subject']]
    cls = type(subj.build())
    kit = Kit(copy.deepcopy, lambda md: cls.from_metadata(md,
        rng=np.random.RandomState(7)), subj.answers, subj.op, subj.ops,
        bare=cls.from_metadata)
    explore(rec, kit, subj.build(), case['depth'])


def uncollapsed(case, rec):
    from cgpm.crosscat.state import State
    kind = case['uncollapsed']
    if kind == 'random_forest':
        s = State(np.array([[0, 1., .2], [1, 2., .4], [1, .3, 1.]]),
            cctypes=['categorical', 'normal', 'normal'],
            distargs=[{'k': 2}, None, None], Zv={0: 0, 1: 0, 2: 0},
            Zrv={0: [0, 0, 0]}, rng=np.random.RandomState(1))
        s.update_cctype(0, 'random_forest', {'k': 2})
    else:
        s = State(np.array([[.2, 1.], [.7, 2.], [.4, 1.2]]),
            cctypes=[kind, 'normal'], distargs=[
            {'l': 0, 'h': 1} if kind == 'normal_trunc' else None, None],
            Zv={0: 0, 1: 0}, Zrv={0: [0, 0, 1]}, rng=np.random.RandomState(1))
    for i in range(2):
        s.transition_dim_params()
    rec.state(case['id'])
    a = models.state_answers(s)
    md = s.to_metadata()
    s2 = State.from_metadata(md, rng=np.random.RandomState(2))
    rec.eval(len(a))
    b = models.state_answers(s2)

    def about(out, density):
        # Densities of the uncollapsed column, and everything else.
        return [x for x in out if density == (x[0] in ('score', 'likelihood',
            'logpdf 0', 'logpdf all') or '|rest' in x[0]
            or x[0].startswith('view 0 cluster'))]
    bad = models.diff(about(a, False), about(b, False))
    if bad:
        rec.fail('state with a %s column: structure' % kind, bad)
    bad = models.diff(about(a, True), about(b, True))
    if bad:
        rec.fail('state with a %s column' % kind, bad)


def view(case, rec):
    from cgpm.mixtures.view import View
    sp = case['view']
    cols = cc.data(sp)
    outs = [5, 2, 7][:len(cols)]
    kinds = [cc.KINDS[k] for k in sp['kinds']]

    def build():
        return View({c: list(x) for c, x in zip(outs, cols)},
            outputs=[1000] + outs, alpha=1.3, cctypes=[k[0] for k in kinds],
            distargs=[dict(k[1]) if k[1] else None for k in kinds],
            hypers=[dict(k[2]) for k in kinds], Zr=sp['Zrv']['0'],
            rng=CRng(1))

    def answers(v):
        out = [('rows', {r: int(v.Zr(r)) for r in range(v.n_rows())}),
            ('counts', dict(v.Nk())), ('alpha', float(v.alpha())),
            ('outputs', list(v.outputs)[:1] + sorted(v.outputs[1:])),
            ('data', {c: list(v.X[c]) for c in v.dims}),
            ('hypers', {c: dict(d.hypers) for c, d in v.dims.items()}),
            ('types', {c: [d.name(), flatd(d.get_distargs())]
                for c, d in v.dims.items()})]
        models.ask(out, 'score', v.logpdf_score)
        probe = {c: models.PROBE[d.name()] for c, d in v.dims.items()}
        for k in sorted(v.Nk()) + [max(v.Nk()) + 1]:
            models.ask(out, 'cluster %d' % k, v.logpdf, -1, dict(probe),
                {1000: k})
        models.ask(out, 'all', v.logpdf, -1, dict(probe))
        for c in probe:
            rest = {d: x for d, x in probe.items() if d != c}
            models.ask(out, 'rest %d' % c, v.logpdf, -1, {c: probe[c]}, rest)
            models.ask(out, 'row %d' % c, v.logpdf, 1, {c: probe[c]})
        return out
    flatd = models.flat

    def op(v, name):
        v.rng.seed(4)
        if name == 'rows':
            v.transition_rows()
        elif name == 'hypers':
            v.transition_dim_hypers()
        elif name == 'alpha':
            v.transition_crp_alpha()
        elif name == 'un':
            if v.n_rows() < 3:
                return False
            v.unincorporate(v.n_rows() - 1)
        elif name == 're':
            r = v.n_rows()
            if r != 2:
                return False
            v.incorporate(r, {c: x[r] for c, x in v.X.items()})
        elif name == 'ctype':
            c = max(c for c, d in v.dims.items() if d.name() in
                ('categorical', 'bernoulli', 'exponential', 'lognormal'))
            v.update_cctype(c, 'exponential' if v.dims[c].name() in
                ('exponential', 'lognormal') else 'categorical', {'k': 4})
            v.transition_dim_grids([c])
            v.transition_dim_hypers([c])
        elif name == 'sethypers':
            c = min(v.dims)
            v.dims[c].set_hypers({k: x + .25
                for k, x in v.dims[c].hypers.items()})
        elif name == 'data':
            v.X[min(v.dims)][0] += 0.
            v.X[min(v.dims)].append(1.)
            v.X[min(v.dims)].pop()
        return True

    def views_ops():
        return ['rows', 'hypers', 'alpha', 'un', 're', 'ctype', 'sethypers',
            'data']
    kit = Kit(copy.deepcopy, lambda md: View.from_metadata(md, rng=CRng(3)),
        answers, op, views_ops(),
        bare=View.from_metadata)
    explore(rec, kit, build(), case['depth'])


def engine(case, rec):
    from cgpm.crosscat.engine import Engine
    n = case['engine']
    X = [[0., 1.5, 2], [1., .2, 0], [1., np.nan, 1], [0, 2.2, 3]]

    def build():
        e = Engine(X, num_states=n, rng=CRng(1), multiprocess=0,
            outputs=[3, 1, 6], cctypes=['bernoulli', 'normal', 'poisson'])
        e.transition(N=1, progress=False, multiprocess=0)
        return e

    def answers(e):
        out = [('num', e.num_states())]
        for i in range(e.num_states()):
            out += [('%d %s' % (i, k), a)
                for k, a in models.state_answers(e.get_state(i))]
        return out

    def op(e, name):
        if name == 'transition':
            e.transition(N=1, kernels=['alpha', 'column_hypers'],
                progress=False, checkpoint=1, multiprocess=0)
        elif name == 'row':
            if e.states[0].n_rows() > 4:
                return False
            e.incorporate(e.states[0].n_rows(), {3: 1, 6: 2}, multiprocess=0)
        elif name == 'col':
            if 11 in e.states[0].outputs:
                return False
            e.incorporate_dim([0, 1, 1, 0, 1][:e.states[0].n_rows()], [11],
                cctype='bernoulli', multiprocess=0)
        elif name == 'uncol':
            if 3 not in e.states[0].outputs:
                return False
            e.unincorporate_dim(3, multiprocess=0)
        elif name == 'drop':
            if e.num_states() < 2:
                return False
            e.drop_state(0)
        elif name == 'add':
            if e.num_states() > 2:
                return False
            e.add_state(multiprocess=0)
        elif name == 'hook':
            if e.states[0].hooked_cgpms:
                return False
            e.compose_cgpm([models.linreg(CRng(i), 90, [1])
                for i in range(e.num_states())], multiprocess=0)
        return True

    def pickled(e):
        f = io.BytesIO()
        e.to_pickle(f)
        f.seek(0)
        return Engine.from_pickle(f, rng=CRng(3))
    # from_pickle loads with worker processes; the others in this process.
    kit = Kit(copy.deepcopy, lambda md: Engine.from_metadata(md, rng=CRng(2),
        multiprocess=0), answers, op, ['transition', 'row', 'col', 'uncol',
        'drop', 'add', 'hook'], pickled,
        lambda md: Engine.from_metadata(md, multiprocess=0))
    explore(rec, kit, build(), case['depth'])
