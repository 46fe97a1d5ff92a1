"""Queries never change the model or their arguments."""
import copy
import itertools

import numpy as np

import cc
import mc
import models
from crng import CRng

PID = 'C13'
RULE = ('every state of a family (plain, conditional, composed, constrained) '
    'and every other model type, reached by every edit of an alphabet; every '
    'query, and every ordered pair of queries, of the whole query alphabet; '
    'after each the arguments and all answers of the model are compared with '
    'those before, and the answers after each later edit with those of a copy '
    'that was never asked; every way of passing data in, changed afterwards')
ASSUMPTIONS = ['3 to 4 rows, up to 4 columns, 2 queries in a row',
    'random queries are drawn from one seed; what they leave behind is '
    'compared, not what they return']

NAN = float('nan')
# Edits whose result does not depend on any draw.
FIXED_OPS = ['row-new', 'unrow', 'force', 'uncol', 'hook', 'sethypers']


def states():
    """(spec, edits applied before the queries)."""
    yield 'ncb', cc.spec('ncb', 3, [0, 0, 1], {0: [0, 1, 0], 1: [0, 0, 1]},
        missing=[(1, 0), (2, 1)], outputs=[4, 0, 9])
    yield 'nnp', cc.spec('nnp', 3, [7, 7, 2], {7: [3, 1, 3], 2: [5, 5, 0]},
        missing=[(1, 2), (2, 0)])
    yield 'Cb', cc.spec('Cb', 3, [1, 1], {1: [2, 0, 0]}, missing=[(0, 1),
        (1, 1)], outputs=[3, 1])
    yield 'gle', cc.spec('gle', 3, [1, 4, 1], {1: [0, 0, 1], 4: [1, 0, 2]},
        missing=[(0, 0)])


PRE = [[], ['row-new'], ['force', 'unrow'], ['hook'], ['cond'], ['col'],
    ['hook', 'row-new'], ['cond', 'hook'], ['uncol']]


def cases(tier):
    quick = tier == 'quick'
    for name, sp in states():
        for pre in PRE:
            yield {'id': '%s:%s' % (name, '>'.join(pre)), 'state': sp,
                'pre': pre, 'pairs': not quick or (len(pre) < 2
                    and name in ('ncb', 'Cb')), 'quick': quick}
    for name in sorted(models.subjects()):
        yield {'id': name, 'subject': name, 'quick': quick}
    for name in sorted(ALIASES):
        yield {'id': 'data:' + name, 'alias': name}


# ----------------------------------------------------------------- queries
def state_queries(s):
    """(label, deterministic, method, args)"""
    out = []
    outs = list(s.outputs)
    n = s.n_rows()
    probe = {c: models.PROBE.get(s.dim_for(c).name(), .4) for c in outs}
    composite = s.is_composite()
    hooked = [g.outputs[0] for g in s.hooked_cgpms.values()]
    hook_in = sorted(set(i for g in s.hooked_cgpms.values()
        for i in g.inputs))
    extra = {} if not hooked else {'inputs': {}}

    def q(label, det, name, *args, **kw):
        out.append((label, det and not composite, name, list(args), kw))
    for N in (None, 1, 3):
        q('simulate all N=%s' % N, 0, 'simulate', -1, list(outs), {}, {},
            *([N] if N else []))
    q('simulate last|first', 0, 'simulate', -1, outs[1:],
        {outs[0]: probe[outs[0]]}, None, 2)
    q('simulate none given None', 0, 'simulate', n + 3, outs[:1], None)
    if hooked:
        q('simulate hooked', 0, 'simulate', -1, hooked + outs[1:],
            {outs[0]: probe[outs[0]]}, {}, 2)
        q('simulate hooked acc', 0, 'simulate', -1, outs[:1],
            {hooked[0]: .4}, {}, 1, 3)
        q('logpdf hooked', 0, 'logpdf', -1, {hooked[0]: .4},
            {i: probe[i] for i in hook_in if i in probe}, {})
    for r in range(n):
        seen = {c: s.X[c][r] for c in outs if s.X[c][r] == s.X[c][r]}
        miss = [c for c in outs if c not in seen]
        q('simulate row %d' % r, 0, 'simulate', r, list(miss or outs[:1]),
            {}, {}, 2)
        # Some of the recorded cells are given, the others are filled in.
        for c in list(seen)[:1] + list(seen)[2:]:
            q('simulate row %d given %d' % (r, c), 0, 'simulate', r,
                list(miss or [x for x in outs if x != c][:1]) + hooked,
                {c: seen[c]})
            if miss or hooked:
                q('logpdf row %d given %d' % (r, c), 1, 'logpdf', r,
                    {x: probe.get(x, .4) for x in (miss + hooked)[:1]},
                    {c: seen[c]})
        if miss:
            q('logpdf row %d' % r, 1, 'logpdf', r,
                {c: probe[c] for c in miss})
            q('logpdf row %d given' % r, 1, 'logpdf', r,
                {c: probe[c] for c in miss[:1]}, dict(seen))
            if len(miss) > 1:
                q('simulate row %d given' % r, 0, 'simulate', r, miss[:1],
                    {miss[1]: probe[miss[1]]})
    q('logpdf all', 1, 'logpdf', -1, dict(probe))
    q('logpdf last|first', 1, 'logpdf', -1, {outs[-1]: probe[outs[-1]]},
        {c: probe[c] for c in outs[:-1]}, None)
    q('simulate_bulk', 0, 'simulate_bulk', [-1, n + 1], [outs[:1], outs[-1:]],
        [{c: probe[c] for c in outs[1:]}, {}], [{}, {}], [2, 1])
    q('logpdf_bulk', 1, 'logpdf_bulk', [-1, -1],
        [{outs[0]: probe[outs[0]]}, dict(probe)], [{}, {}])
    for a in outs[:2] + hooked:
        for b in outs[-1:] + hooked:
            q('dependence %d %d' % (a, b), 1, 'dependence_probability', a, b)
    q('dependence all', 1, 'dependence_probability_pairwise')
    q('dependence some', 1, 'dependence_probability_pairwise', outs[::-1])
    q('similarity', 1, 'row_similarity', 0, 1)
    q('similarity cols', 1, 'row_similarity', 0, n - 1, outs[:1])
    q('similarity all', 1, 'row_similarity_pairwise')
    q('similarity all cols', 1, 'row_similarity_pairwise', outs[1:])
    for c in outs:
        for rows in ([1], list(range(n - 1, 0, -1))):
            q('relevance %d %s' % (c, rows), 1, 'relevance_probability', 0,
                rows, c)
        q('relevance %d hyp' % c, 0, 'relevance_probability', 0, [1], c,
            [dict(probe), {c: probe[c]}])
        q('relevance %d hyp partial' % c, 0, 'relevance_probability', 1, [],
            c, [{outs[0]: probe[outs[0]], outs[-1]: NAN}, {outs[-1]: NAN}])
    a, b = outs[0], (hooked or outs)[-1]
    q('mi', 0, 'mutual_information', [a], [b], {}, 2, 2)
    q('entropy', 0, 'mutual_information', [b], [b], None, 2, 2)
    for x in outs[1:-1]:
        q('cmi', 0, 'mutual_information', [a], [b], {x: probe[x]}, 2, 2)
        q('cmi marginal', 0, 'mutual_information', [a], [b], {x: None}, 2, 2)
        q('cmi mixed', 0, 'mutual_information', [a], [a],
            {x: None, **({} if b in (a, x) or b in hooked
                else {b: probe[b]})}, 2, 2)
    for name in ('logpdf_score', 'logpdf_likelihood', 'data_array',
            'to_metadata', 'n_rows', 'n_cols', 'cctypes', 'distargs', 'Zv',
            'Nv', 'alpha', 'dims', 'build_network'):
        q(name, name not in ('dims', 'build_network', 'to_metadata'), name)
    return out


def view_queries(s):
    out = []
    for v in sorted(set(s.Zv(c) for c in s.outputs)):
        view = s.views[v]
        cols = sorted(view.dims)
        z = view.outputs[0]
        probe = {c: models.PROBE.get(view.dims[c].name(), .4) for c in cols}
        k = max(view.Nk())
        det = not any(d.is_conditional() for d in view.dims.values())

        def q(label, d, name, *args):
            out.append(('view %d: %s' % (v, label), det and d, (v, name),
                list(args), {}))
        q('simulate', 0, 'simulate', -1, [z] + cols, {}, None, 3)
        q('simulate|z', 0, 'simulate', -1, list(cols), {z: k}, None, 2)
        q('simulate z|first', 0, 'simulate', -1, [z] + cols[1:],
            {cols[0]: probe[cols[0]]})
        q('logpdf', 1, 'logpdf', -1, dict(probe), {})
        q('logpdf|z', 1, 'logpdf', -1, dict(probe), {z: k})
        q('logpdf z,', 1, 'logpdf', -1, dict(probe, **{}) | {z: k})
        q('logpdf z|', 1, 'logpdf', -1, {z: k}, dict(probe))
        for r in range(2):
            q('simulate row %d' % r, 0, 'simulate', r, [cols[-1]], {})
            q('logpdf row %d' % r, 1, 'logpdf', r, {cols[-1]:
                probe[cols[-1]]}, {})
            for c in cols[:-1]:
                if s.X[c][r] == s.X[c][r]:
                    q('simulate row %d given %d' % (r, c), 0, 'simulate', r,
                        [cols[-1]], {c: s.X[c][r]})
                    q('logpdf row %d given %d' % (r, c), 1, 'logpdf', r,
                        {cols[-1]: probe[cols[-1]]}, {c: s.X[c][r]})
        for rows in ([1], [2, 1]):
            q('relevance %s' % rows, 1, 'relevance_probability', 0, rows,
                cols[0])
        q('relevance self', 1, 'relevance_probability', 0, [0, 1], cols[0])
        q('logpdf_score', 1, 'logpdf_score')
        q('to_metadata', 0, 'to_metadata')
    return out


def call(s, query, args=None, kw=None):
    label, det, name, a, k = query
    f = getattr(s, name) if isinstance(name, str) else \
        getattr(s.views[name[0]], name[1])
    return f(*(a if args is None else args), **(k if kw is None else kw))


def spoil(x, depth=0):
    """Modify an answer in place."""
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, depth + 1)
        x['spoilt'] = 1
    elif isinstance(x, list):
        for v in x:
            spoil(v, depth + 1)
        x.append(1e9)
        x[0] = -1e9
    elif isinstance(x, np.ndarray) and x.dtype.kind in 'fi' and x.size:
        x.flat[:] = 77


SPOIL = ('simulate', 'simulate_bulk', 'logpdf_bulk', 'data_array',
    'Zv', 'Nv', 'cctypes', 'dependence_probability_pairwise',
    'row_similarity_pairwise')


def seeded(s):
    s.rng.seed(11)
    return s


def queries_of_state(case, rec):
    s = cc.build(case['state'], CRng(1))
    for op in case['pre']:
        if not models.state_op(s, op):
            return
    rec.state(case['id'])
    before = models.state_answers(seeded(s))
    light = models.state_answers(seeded(s), full=False)
    qs = state_queries(s) + view_queries(s)
    edits = {}
    clean = {}
    for op in FIXED_OPS:
        m = copy.deepcopy(s)
        if mc.raises(models.state_op, m, op) is None:
            edits[op] = models.state_answers(seeded(m))
    for i, query in enumerate(qs):
        label = query[0]
        key = '%s: %s' % (case['id'], label)
        m = copy.deepcopy(s)
        args = copy.deepcopy(query[3])
        kw = copy.deepcopy(query[4])
        seeded(m)
        try:
            ans = call(m, query, args, kw)
        except Exception as e:
            ans = 'raises ' + type(e).__name__
            rec.note('queries that raise')
        rec.trans()
        rec.eval(len(before))
        rec.outcome((label, repr(models.flat(ans))[:200]))
        if repr(args) != repr(query[3]) or repr(kw) != repr(query[4]):
            rec.fail(key + ': arguments', '%s: arguments %r %r became %r %r'
                % (label, query[3], query[4], args, kw))
            continue
        clean[i] = models.flat(copy.deepcopy(ans)) if query[1] else None
        bad = models.diff(before, models.state_answers(seeded(m)))
        if bad:
            rec.fail(key, 'after %s: %s' % (label, bad))
            continue
        if isinstance(query[2], str) and query[2] in SPOIL:
            spoil(ans)
            bad = models.diff(before, models.state_answers(seeded(m)))
            if bad:
                rec.fail(key + ': answer', 'changing the answer of %s '
                    'changed the model: %s' % (label, bad))
                continue
        # Changing the arguments afterwards does not reach the model.
        spoil(args)
        bad = models.diff(light, models.state_answers(m, full=False))
        if bad:
            rec.fail(key + ': arguments later', 'changing the arguments of '
                '%s afterwards changed the model: %s' % (label, bad))
            continue
        for op, want in edits.items():
            m2 = copy.deepcopy(m)
            with rec.guard('%s then %s' % (key, op)):
                models.state_op(m2, op)
                rec.trans()
                bad = models.diff(want, models.state_answers(seeded(m2)))
                if bad:
                    rec.fail('%s then %s' % (key, op), '%s then %s: %s'
                        % (label, op, bad))
        if len(rec.fails) > 20:
            return
    rec.sample({'case': case['id'], 'queries': [q[0] for q in qs][:12],
        'number of queries': len(qs)})
    if not case['pairs']:
        return
    # Every ordered pair: the second answers as if alone.
    pairs = [j for j, q in enumerate(qs)
        if not (case['quick'] and ' given ' in q[0])]
    for i in pairs:
        first = qs[i]
        m = copy.deepcopy(s)
        for j in pairs:
            second = qs[j]
            seeded(m)
            mc.raises(call, m, first, copy.deepcopy(first[3]),
                copy.deepcopy(first[4]))
            seeded(m)
            rec.trans(2)
            try:
                ans = call(m, second, copy.deepcopy(second[3]),
                    copy.deepcopy(second[4]))
            except Exception as e:
                ans = 'raises ' + type(e).__name__
            rec.eval()
            if second[1] and not models.same(clean.get(j), models.flat(ans)):
                rec.fail('%s: %s then %s' % (case['id'], first[0], second[0]),
                    '%s answers %r after %s, alone %r' % (second[0], ans,
                    first[0], clean.get(j)))
                return
        bad = models.diff(before, models.state_answers(seeded(m)))
        if bad:
            rec.fail('%s: %s and others' % (case['id'], first[0]), bad)
            return


# ---------------------------------------------------------- other models
def subject_queries(subj, m):
    out = []
    outs, ins = list(m.outputs), list(m.inputs)
    if ins:
        for inp in ({3: .5, 1: 0}, {3: -1., 1: 2}):
            for r in (0, 9):
                out.append(('simulate %d' % r, 'simulate', [r, [7], None,
                    dict(inp), 2], {}))
                out.append(('simulate %d' % r, 'simulate', [r, [7], {},
                    dict(inp)], {}))
            out.append(('logpdf', 'logpdf', [9, subj.row(1)[0], None,
                dict(inp)], {}))
    else:
        a, b, c = outs[:3]
        vals = {5: .6, 2: 1, 8: .3, 6: .2, 3: .4, 9: 1., 1: .5}
        for t, g in [([a], {b: vals[b]}), ([a, b], {c: vals[c]}),
                ([c, a, b], {}), ([b], None)]:
            for r in (-1, 0):
                out.append(('simulate %s|%s' % (t, g), 'simulate',
                    [r, list(t), g and dict(g), None, 2], {}))
                out.append(('logpdf %s|%s' % (t, g), 'logpdf', [r,
                    {x: vals[x] for x in t}, g and dict(g)], {}))
    for name in ('logpdf_score', 'to_metadata', 'get_params', 'get_distargs'):
        if hasattr(m, name):
            out.append((name, name, [], {}))
    return out


def queries_of_subject(case, rec):
    subj = models.subjects()[case['subject']]
    seen = set()
    frontier = [(subj.build(), [])]
    for depth in range(3 if case['quick'] else 4):
        nxt = []
        for m0, hist in frontier:
            before = subj.answers(m0)
            k = repr(models.flat(before))
            if k in seen:
                continue
            seen.add(k)
            rec.state(k)
            qs = subject_queries(subj, m0)
            m = copy.deepcopy(m0)
            for i, j in itertools.product(range(len(qs)), repeat=2):
                for label, name, a, kw in (qs[i], qs[j]):
                    args = copy.deepcopy(a)
                    m.rng.seed(2)
                    ans = None
                    try:
                        ans = getattr(m, name)(*args, **kw)
                    except Exception:
                        rec.note('queries that raise')
                    rec.trans()
                    if repr(args) != repr(a):
                        rec.fail('%s %s: arguments' % (case['id'], label),
                            'arguments %r became %r' % (a, args))
                        return
                    if name == 'simulate':
                        spoil(ans)
                if i == j or depth < 2:
                    rec.eval(len(before))
                    bad = models.diff(before, subj.answers(m))
                    if bad:
                        rec.fail('%s: %s' % (case['id'], qs[j][0]),
                            'after %s and %s, history %s: %s' % (qs[i][0],
                            qs[j][0], hist, bad))
                        return
            # Later edits.
            for op in subj.ops:
                m2, m3 = copy.deepcopy(m0), copy.deepcopy(m)
                try:
                    ok = subj.op(m2, op)
                except Exception:
                    continue
                if not ok:
                    continue
                rec.trans()
                with rec.guard('%s: %s after queries' % (case['id'], op)):
                    subj.op(m3, op)
                    bad = models.diff(subj.answers(m2), subj.answers(m3))
                    if bad:
                        rec.fail('%s: queries then %s' % (case['id'], op),
                            bad)
                        return
                nxt.append((m2, hist + [op]))
        frontier = nxt


# --------------------------------------------------------------- own data
def alias_state(rec, kind):
    from cgpm.crosscat.state import State

    def build():
        X = [[.2, 1., 2.], [NAN, 0., 1.], [1.5, 1., NAN]]
        if kind == 'array':
            X = np.array(X)
        args = dict(X=X, outputs=[5, 1, 3],
            cctypes=['normal', 'bernoulli', 'categorical'],
            distargs=[None, None, {'k': 4}], alpha=1.1,
            hypers=[{'m': 0., 'r': 1., 's': 1., 'nu': 1.},
                {'alpha': 1., 'beta': 2.}, {'alpha': .7}],
            Zv={5: 0, 1: 0, 3: 2}, Zrv={0: [0, 1, 0], 2: [0, 0, 0]},
            view_alphas={0: .5, 2: 1.5})
        return args, lambda: State(rng=CRng(1), **args)
    args, make = build()
    s = make()
    before = models.state_answers(s)
    return args, s, before, [make()]


def frozen(x):
    if isinstance(x, np.ndarray):
        return repr(x.tolist())
    if isinstance(x, dict):
        return {k: frozen(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [frozen(v) for v in x]
    return repr(x)


def deep_spoil(x):
    if isinstance(x, dict):
        for k, v in list(x.items()):
            if isinstance(v, (dict, list, np.ndarray)):
                deep_spoil(v)
            elif isinstance(v, (int, float)):
                x[k] = v + 3
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (dict, list, np.ndarray)):
                deep_spoil(v)
            elif isinstance(v, (int, float)):
                x[i] = v + 3
        x.append(0)
    elif isinstance(x, np.ndarray):
        x += 3


def exchange(rec, key, data, model, answers, edits):
    """data was given to the model: neither may reach the other."""
    ice = frozen(data)
    done = []
    for name, edit in edits:
        with rec.guard('%s: %s' % (key, name)):
            if edit(model) is False:
                continue
        done.append(name)
        rec.trans()
        rec.eval()
        if frozen(data) != ice:
            rec.fail('%s: %s' % (key, name), 'the edit %s of the model '
                'changed the data it was given: %s, was %s'
                % (name, frozen(data), ice))
            return
    before = answers(model)
    deep_spoil(data)
    rec.eval(len(before))
    bad = models.diff(before, answers(model))
    if bad:
        rec.fail(key + ': later', 'changing the data given changed the '
            'model: ' + bad)


def state_edits(ops=None):
    return [(op, lambda m, op=op: models.state_op(m, op))
        for op in ops or ['row-new', 'force', 'hypers', 'rows', 'unrow',
            'row', 'sethypers']]


def small_state(conditional=False):
    s = cc.build(cc.spec('ncn', 3, [0, 0, 1], {0: [0, 1, 0], 1: [0, 0, 1]},
        missing=[(0, 1)]), CRng(1))
    return s


def alias_init(rec, kind):
    for edits in [[e] for e in state_edits()] + [state_edits()]:
        args, s, before, _ = alias_state(rec, kind)
        exchange(rec, 'State of ' + kind, args, s, models.state_answers,
            edits)


def alias_row(rec):
    for edits in [[e] for e in state_edits()] + [state_edits()]:
        for cluster in (False, True):
            s = small_state()
            obs = {0: 1.5, 1: 2.}
            if cluster:
                obs[s.views[0].outputs[0]] = 1
            s.incorporate(3, obs)
            exchange(rec, 'incorporate', obs, s, models.state_answers, edits)
            s = small_state()
            obs = [{0: 1.5, 1: 2.}, {2: .5}]
            rows = [3, 4]
            s.incorporate_bulk(rows, obs)
            exchange(rec, 'incorporate_bulk', [obs, rows], s,
                models.state_answers, edits)


def alias_cell(rec):
    for edits in [[e] for e in state_edits()] + [state_edits()]:
        s = small_state()
        obs = {0: 1.25}
        s.force_cell(1, obs)
        exchange(rec, 'force_cell', obs, s, models.state_answers, edits)


def alias_col(rec):
    for edits in [[e] for e in state_edits()] + [state_edits()]:
        for T0 in ([1., NAN, 0.], [1, 0, 1], np.array([1., NAN, 0.]),
                (1., 0., NAN)):
            for v in (0, 6):
                T = copy.deepcopy(T0)
                s = small_state()
                outs, da = [7], {'k': 3}
                key = 'incorporate_dim of %s' % type(T).__name__
                with rec.guard(key):
                    s.incorporate_dim(T, outs, cctype='categorical',
                        distargs=da, v=v)
                    exchange(rec, key, [list(T) if isinstance(T, tuple)
                        else T, outs, da], s, models.state_answers, edits)


def alias_type(rec):
    for edits in [[e] for e in state_edits()] + [state_edits()]:
        s = small_state()
        da = {'k': 5}
        s.update_cctype(1, 'categorical', da)
        exchange(rec, 'update_cctype', da, s, models.state_answers, edits)
        s = small_state()
        da = {'inputs': [1]}
        s.update_cctype(0, 'linear_regression', da)
        exchange(rec, 'update_cctype with inputs', da, s,
            models.state_answers, edits[:0])


def alias_hypers(rec):
    for edits in [[e] for e in state_edits()] + [state_edits()]:
        for c, h in [(0, {'m': 1., 'r': 2., 's': 1., 'nu': 3.}),
                (1, {'alpha': 2.5})]:
            s = small_state()
            s.dim_for(c).set_hypers(h)
            exchange(rec, 'set_hypers', h, s, models.state_answers, edits)


def alias_subject(rec, name):
    subj = models.subjects()[name]
    for ops in [[o] for o in subj.ops] + [list(subj.ops)]:
        m = subj.build()
        rows = [subj.row(r) for r in range(3)]
        rows = [r if isinstance(r, tuple) else (r, {}) for r in rows]
        rows = [(dict(a), dict(b)) for a, b in rows]
        for r, (o, i) in enumerate(rows):
            m.incorporate(r, o, i) if i else m.incorporate(r, o)
        exchange(rec, name + ' incorporate', rows, m, subj.answers,
            [(op, lambda m, op=op: subj.op(m, op)) for op in ops])


def alias_engine(rec):
    from cgpm.crosscat.engine import Engine

    def answers(e):
        return [('%d %s' % (i, k), a) for i in range(e.num_states())
            for k, a in models.state_answers(e.get_state(i))]
    for T0 in ([1., NAN, 0.], np.array([1., NAN, 0.])):
        for v in (0, None):
            T = copy.deepcopy(T0)
            X = np.array([[.2, 1.], [NAN, 0.], [1.5, 1.]])
            e = Engine(X, num_states=2, rng=CRng(1), multiprocess=0,
                outputs=[5, 1], cctypes=['normal', 'bernoulli'])
            key = 'Engine.incorporate_dim of %s' % type(T).__name__
            with rec.guard(key):
                e.incorporate_dim(T, [7], cctype='bernoulli', v=v,
                    multiprocess=0)
                obs = {5: .1, 7: 1.}
                # An edit of one state does not reach the others.
                other = models.state_answers(e.get_state(1))
                e.states[0].force_cell(1, {7: 1.})
                bad = models.diff(other, models.state_answers(e.get_state(1)))
                rec.eval(len(other))
                if bad:
                    rec.fail(key + ': states', 'an edit of one state reached '
                        'another: ' + bad)
                exchange(rec, key, [X, T, obs], e, answers, [('row',
                    lambda e: e.incorporate(3, obs, multiprocess=0)),
                    ('transition', lambda e: e.transition(N=1,
                        kernels=['alpha', 'column_hypers', 'rows'],
                        progress=False, multiprocess=0))])


ALIASES = {
    'state of lists': lambda rec: alias_init(rec, 'list'),
    'state of an array': lambda rec: alias_init(rec, 'array'),
    'rows': alias_row, 'cells': alias_cell, 'columns': alias_col,
    'types': alias_type, 'hypers': alias_hypers, 'engine': alias_engine,
}
for _name in ('linreg-mixed', 'linreg-prior', 'ols-mixed', 'forest',
        'knn-2', 'kde', 'kde-bw', 'factor', 'factor-params'):
    ALIASES[_name] = lambda rec, n=_name: alias_subject(rec, n)


def run_case(case, rec):
    if 'alias' in case:
        ALIASES[case['alias']](rec)
        rec.state(case['id'])
    elif 'subject' in case:
        queries_of_subject(case, rec)
    else:
        queries_of_state(case, rec)
