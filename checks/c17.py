"""Dependence, similarity and relevance match the partitions."""
import itertools
import math

import numpy as np

import cc
import mc
import models
import nets
import ref
from crng import CRng, distribution

PID = 'C17'
RULE = ('all column partitions of 3 columns x row partitions of 3 rows '
    '(pairs of columns, rows, all column subsets, all query rows); all row '
    'partitions of up to 4 rows x targets x query sets of a view; all sets of '
    'up to three (thorough: four) hypothetical rows over an alphabet, every '
    'random outcome; all compositions of up to two attached models on '
    'three columns')
ASSUMPTIONS = ['a shared input that no model generates does not decide '
    'dependence either way']
NAN = float('nan')


def cases(tier):
    quick = tier == 'quick'
    parts = list(ref.partitions(3))
    k = 0
    for zv in ref.partitions(3):
        nv = max(zv) + 1
        names = [[0, 1, 2], [7, 2, 30]][sum(zv) % 2]
        for i, zrs in enumerate(itertools.product(parts, repeat=nv)):
            if quick and nv == 3 and i % 5:
                continue
            ks = [0, 1, 2] if i % 2 else [4, 1, 9]
            zr = {names[v]: [ks[z] for z in zrs[v]] for v in range(nv)}
            sp = cc.spec('bCn', 3, [names[z] for z in zv], zr, missing=[[],
                [(0, 1)], [(1, 0), (2, 2), (0, 2)]][i % 3],
                outputs=[[0, 1, 2], [6, 1, 4]][i % 2])
            yield {'id': 'state%d' % k, 'state': sp}
            if i % (3 if quick else 1) == 0:
                yield {'id': 'hyp%d' % k, 'hyp': sp, 'quick': quick}
            k += 1
    k = 0
    for n in (2, 3, 4) if quick else (2, 3, 4, 5):
        for zr in ref.partitions(n):
            for kinds, miss in [('bC', []), ('nC', [(0, 0), (1, 1)]),
                    ('p', [(0, n - 1)])]:
                names = [[0, 1, 2, 3, 4], [5, 2, 9, 3, 0]][k % 2]
                sp = cc.spec(kinds, n, [0] * len(kinds),
                    {0: [names[z] for z in zr]}, missing=miss)
                yield {'id': 'view%d' % k, 'view': sp}
                k += 1
    for zv in ref.partitions(3):
        yield {'id': 'net%s' % (zv,), 'net': list(zv), 'quick': quick}
    for cond in (0, 1):
        yield {'id': 'conditional%d' % cond, 'conditional': cond}
    for n in (1, 3):
        yield {'id': 'engine%d' % n, 'engine': n}


def subsets(xs, least=1):
    for r in range(least, len(xs) + 1):
        for c in itertools.combinations(xs, r):
            yield list(c)


def state(case, rec):
    s = cc.build(case['state'], CRng(1))
    check_state(rec, case['id'], s, case['state'])


def check_state(rec, key, s, sp):
    snap = cc.snapshot(s)
    outs, n, zv = snap['outputs'], snap['n'], snap['Zv']
    rec.state(repr(sp))

    def check(ok, what, msg):
        rec.eval()
        if not ok:
            rec.fail('%s: %s' % (key, what), msg, state=sp)
    for a in outs:
        for b in outs:
            got = s.dependence_probability(a, b)
            check(got == (zv[a] == zv[b]), 'dependence', 'dependence of %s '
                'and %s is %r, column partition %s' % (a, b, got, zv))
    for sub in list(subsets(outs)) + [outs[::-1], None]:
        D = np.asarray(s.dependence_probability_pairwise(sub)
            if sub is not None else s.dependence_probability_pairwise())
        cs = outs if sub is None else sub
        want = [[float(zv[a] == zv[b]) for b in cs] for a in cs]
        check(D.tolist() == want, 'dependence pairwise', 'of %s: %s, '
            'expected %s' % (cs, D.tolist(), want))

    def similarity(a, b, cols):
        vs = set(zv[c] for c in cols)
        return sum(snap['views'][v][0][a] == snap['views'][v][0][b]
            for v in vs) / float(len(vs))
    for cols in list(subsets(outs)) + [None]:
        cs = outs if cols is None else cols
        args = [] if cols is None else [cols]
        want = [[similarity(a, b, cs) for b in range(n)] for a in range(n)]
        S = s.row_similarity_pairwise(*args)
        check(np.allclose(S, want), 'similarity pairwise', 'over %s: %s, '
            'expected %s' % (cols, S.tolist(), want))
        for a in range(n):
            for b in range(n):
                got = s.row_similarity(a, b, *args)
                check(abs(got - want[a][b]) < 1e-12, 'similarity', 'of rows '
                    '%d %d over %s: %r, expected %r' % (a, b, cols, got,
                    want[a][b]))
    for c in outs:
        Zr = snap['views'][zv[c]][0]
        for t in range(n):
            for q in subsets(list(range(n))):
                for q in (q, q[::-1]):
                    got = s.relevance_probability(t, list(q), c)
                    want = all(Zr[t] == Zr[r] for r in q)
                    check(got == want, 'relevance', 'of rows %s to %d for '
                        'column %s is %r, row partition %s' % (q, t, c, got,
                        Zr))
    return snap


def hyp(case, rec):
    """Hypothetical rows join clusters by their predictive probability."""
    sp = case['hyp']
    rng = CRng(1)
    s = cc.build(sp, rng)
    snap = cc.snapshot(s)
    outs, n, zv = snap['outputs'], snap['n'], snap['Zv']
    X = dict(zip(outs, cc.data(sp)))
    before = cc.canon(snap)
    rec.state('hyp' + repr(sp))
    b, c, x = outs
    rows = [{b: 1}, {c: 0, x: .3}, {b: 0, c: 1, x: NAN}, {x: -1.}]
    sets = [[r] for r in rows] + [[rows[0], rows[1]], [rows[2], rows[3]],
        [rows[1], rows[0], rows[2]], [rows[1], rows[1]],
        [rows[0], rows[0], rows[1], rows[2]]]
    if case['quick']:
        sets = sets[:7]
    for col in outs:
        v = zv[col]
        cols = [d for d in outs if zv[d] == v]
        Zr, alpha = snap['views'][v]
        for hs in sets:
            live = [{d: h.get(d, NAN) for d in cols} for h in hs]
            live = [h for h in live if any(y == y for y in h.values())]
            for t, q in [(0, []), (0, [1]), (2, [0, 1])]:
                # P(all in the cluster of t), row after row.
                k = Zr[t]
                want = 1. if all(Zr[r] == k for r in q) else 0.
                if not q and not live:
                    want = 0.
                D = {d: (snap['cols'][d][0], snap['cols'][d][1],
                    snap['cols'][d][2], list(X[d])) for d in cols}
                Z = list(Zr)
                for h in live:
                    m = ref.Mixture(D, Z, alpha)
                    given = {d: y for d, y in h.items() if y == y}
                    ks, new = m.clusters()
                    lp = {j: ref.crp_pred(j, Z, alpha)
                        + m.row_given_cluster(given, j) for j in ks + [new]}
                    want *= math.exp(lp[k] - ref.lse(lp.values()))
                    D = {d: e[:3] + (e[3] + [h[d]],) for d, e in D.items()}
                    Z = Z + [k]
                dist = distribution(rng, lambda: s.relevance_probability(t,
                    list(q), col, [dict(h) for h in hs]), key=float, rec=rec)
                got = dist.get(1., 0.)
                rec.eval()
                if abs(got - want) > 1e-8 or set(dist) - {0., 1.}:
                    rec.fail('%s: hypothetical' % case['id'], 'relevance to '
                        '%d of %s and %s for %s: %s, expected %r'
                        % (t, q, hs, col, dist, want), state=sp)
                    return
                rec.eval()
                if cc.canon(cc.snapshot(s)) != before:
                    rec.fail('%s: hypothetical' % case['id'], 'asking about '
                        '%s changed the model' % hs, state=sp)
                    return


def view(case, rec):
    from cgpm.mixtures.view import View
    sp = case['view']
    cols = cc.data(sp)
    outs = [5, 2, 7][:len(cols)]
    kinds = [cc.KINDS[k] for k in sp['kinds']]
    Zr = sp['Zrv']['0']
    n = sp['n']
    v = View({c: list(x) for c, x in zip(outs, cols)}, outputs=[1000] + outs,
        alpha=1.3, cctypes=[k[0] for k in kinds], distargs=[dict(k[1])
            if k[1] else None for k in kinds],
        hypers=[dict(k[2]) for k in kinds], Zr=list(Zr), rng=CRng(1))
    D = {c: (k[0], k[2], k[1], x) for c, k, x in zip(outs, kinds, cols)}
    rec.state(case['id'])
    for t in range(n):
        for q in subsets(list(range(n))):
            rest = [r for r in range(n) if r != t and r not in q]
            if t in q:
                want = 1.
            else:
                names = sorted(set(Zr[r] for r in rest))
                new = [max(names + [0]) + 1, max(names + [0]) + 2]
                same, other = [], []
                for kq in names + new[:1]:
                    kts = names + (new if kq == new[0] else new[:1])
                    for kt in kts:
                        Z = [Zr[r] if r in rest else kt if r == t else kq
                            for r in range(n)]
                        sc = ref.Mixture(D, Z, 1.3).score()
                        (same if kt == kq else other).append(sc)
                want = math.exp(ref.lse(same) - ref.lse(same + other))
            for qq in (q, q[::-1], q + q[:1]):
                rec.trans()
                rec.eval()
                got = v.relevance_probability(t, list(qq), outs[-1])
                if not ref.close(got, want, 1e-7):
                    rec.fail('%s: view relevance' % case['id'], 'relevance '
                        'to %d of %s: %r, expected %r' % (t, qq, got, want),
                        view=sp)
                    return
                if [v.Zr(r) for r in range(n)] != list(Zr):
                    rec.fail('%s: view rows' % case['id'], 'rows moved')
                    return


def net(case, rec):
    zv = case['net']
    outs = [6, 1, 4]
    sp = cc.spec('bCb', 2, zv, {v: [0, v % 2] for v in set(zv)},
        outputs=outs)
    ext = 97
    pool1 = outs + [ext]
    first = [([20], list(i)) for r in range(0, 4)
        for i in itertools.combinations(pool1, r)] + [
        ([20, 21], [6]), ([20, 21], [6, 4]), ([20, 21], [])]
    pool2 = outs + [20, ext]
    second = [None] + [([30], list(i)) for r in range(0, 3)
        for i in itertools.combinations(pool2, r)]
    if case['quick']:
        second = second[:2] + second[2:][::2] + [([30], [20]), ([30], [20,
            ext])]
    base = cc.build(sp, CRng(1))
    if True:
        for f in first:
            for g in second:
                s = cc.build(sp, CRng(1))
                mods = [nets.Table(f[0], f[1], CRng(1))]
                if g is not None:
                    mods.append(nets.Table(g[0], g[1], CRng(1)))
                if len(f[0]) > 1:
                    mods.append(nets.Table([40], [21], CRng(1)))
                # Either order of attachment.
                order = mods if (len(f[1]) + (len(g[1]) if g else 0)) % 2 \
                    else mods[::-1]
                toks = [s.compose_cgpm(m) for m in order]
                par = {}
                for m in mods:
                    for o in m.outputs:
                        par[o] = m

                def anc(x, with_ext):
                    # Roots and models reached upwards.
                    out = set()
                    todo = [x]
                    while todo:
                        y = todo.pop()
                        if y in par:
                            out.add(('m', id(par[y])))
                            todo.extend(par[y].inputs)
                        elif y in outs:
                            out.add(('v', zv[outs.index(y)]))
                        elif with_ext:
                            out.add(('e', y))
                    return out
                allv = outs + sorted(par)
                rec.state((tuple(zv), repr(f), repr(g)))
                want = {}
                for a in allv:
                    for b in allv:
                        lo = bool(anc(a, False) & anc(b, False))
                        hi = bool(anc(a, True) & anc(b, True))
                        rec.trans()
                        rec.eval()
                        got = s.dependence_probability(a, b)
                        want[a, b] = got
                        if got not in (0, 1) or (lo and not got) or (
                                got and not hi):
                            rec.fail('net: %s' % ('dependent' if lo
                                else 'independent'), 'columns %s in views '
                                '%s with models %s: dependence of %s and %s '
                                'is %r, expected %d' % (outs, zv, [(m.outputs,
                                m.inputs) for m in order], a, b, got, lo))
                            return
                for cs in (allv, allv[::-1], sorted(par)):
                    D = s.dependence_probability_pairwise(list(cs))
                    rec.eval()
                    exp = [[1. if a == b else want[a, b] for b in cs]
                        for a in cs]
                    if np.asarray(D).tolist() != exp:
                        rec.fail('net: pairwise', 'of %s: %s, expected %s'
                            % (cs, np.asarray(D).tolist(), exp))
                        return
                for t in toks:
                    s.decompose_cgpm(t)
                for a in outs:
                    for b in outs:
                        rec.eval()
                        if s.dependence_probability(a, b) != \
                                base.dependence_probability(a, b):
                            rec.fail('net: detached', 'dependence of %s and '
                                '%s changed after detaching' % (a, b))
                            return


def conditional(case, rec):
    sp = cc.spec('nCn', 3, [0, 0, 2], {0: [0, 1, 0], 2: [0, 0, 1]},
        missing=[(1, 1)])
    s = cc.build(sp, CRng(1))
    s.update_cctype(0, 'linear_regression')
    if case['conditional']:
        s.incorporate(3, {0: 1., 2: .4, s.views[0].outputs[0]: 1})
    check_state(rec, case['id'], s, repr(case))


def engine(case, rec):
    from cgpm.crosscat.engine import Engine
    e = Engine([[0., 1.5, 2], [1., .2, 0], [1., np.nan, 1]],
        num_states=case['engine'], rng=CRng(1), multiprocess=0,
        outputs=[3, 1, 6], cctypes=['bernoulli', 'normal', 'poisson'])
    snaps = [check_state(rec, case['id'], e.get_state(i), (case['id'], i))
        for i in range(e.num_states())]
    del snaps
    n = e.num_states()
    sel = [None] + [list(x) for r in range(1, n + 1)
        for x in itertools.permutations(range(n), r)]
    for st in sel:
        ids = range(n) if st is None else st
        kw = {'statenos': st, 'multiprocess': 0}
        for a in (3, 1, 6):
            for name, args in [
                    ('dependence_probability', (a, 1)),
                    ('dependence_probability_pairwise', ([a],)),
                    ('dependence_probability_pairwise', ()),
                    ('row_similarity', (0, 2)), ('row_similarity', (0, 1,
                        [a])),
                    ('row_similarity_pairwise', ()),
                    ('row_similarity_pairwise', ([a],)),
                    ('relevance_probability', (0, [1, 2], a))]:
                got = getattr(e, name)(*args, **kw)
                want = [getattr(e.get_state(i), name)(*args) for i in ids]
                rec.trans()
                rec.eval()
                if not models.same(models.flat(list(got)),
                        models.flat(want)):
                    rec.fail('engine: ' + name, '%s%r of states %s: %r, '
                        'expected %r' % (name, args, st, got, want))
                    return


def run_case(case, rec):
    for k in ('state', 'hyp', 'view', 'net', 'engine'):
        if k in case:
            return globals()[k](case, rec)
    conditional(case, rec)
