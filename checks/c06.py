"""Simulating a CrossCat model draws exactly from its conditional density."""
import itertools
import math

import cc
import mc
import ref
from crng import CRng, distribution

PID = 'C06'
RULE = ('column partitions x row partitions x missing cells of small states '
    'of finite-valued columns; for each, every choice of targets and '
    'constraints; every resolution of the random choices of simulate is run '
    'and the exact outcome distribution compared with the mixture, for one '
    'sample and jointly for two; with regression columns, the exact law of '
    'the finite columns and the exact mean of the regression for each value')
ASSUMPTIONS = ['finite or truncated (poisson) value sets',
    'the law of continuous components is decided by C04']
PROBES = {'c': [0, 1, 2], 'C': [0, 1], 'b': [0, 1], 'p': [0, 2]}


def cases(tier):
    quick = tier == 'quick'
    out = []
    parts = list(ref.partitions(3))
    for kinds in ['bC', 'cb', 'Cp', 'bCb'] + ([] if quick else ['cbp', 'CbC']):
        for zv in ref.partitions(len(kinds)):
            nv = max(zv) + 1
            combos = list(itertools.product(parts, repeat=nv))
            if nv == 2:
                combos = combos[::2 if quick else 1]
            if nv == 3:
                combos = combos[::21 if quick else 6]
            names = [[0, 1, 2], [7, 2, 30]][sum(zv) % 2]
            for i, zrs in enumerate(combos):
                ks = [0, 1, 2] if i % 2 else [4, 1, 9]
                zr = {names[v]: [ks[z] for z in zrs[v]] for v in range(nv)}
                sp = cc.spec(kinds, 3, [names[z] for z in zv], zr,
                    missing=[[], [(0, 1)], [(1, 0), (0, 2)]][i % 3],
                    alpha=.8)
                out.append(sp)
    for i, sp in enumerate(out):
        yield {'id': 's%d' % i, 'state': sp, 'two': i % 3 == 0}
    i = 0
    for kinds, outputs, changes in [
            ('nC', [0, 1], [(0, [1])]), ('Cn', [4, 2], [(2, [4])]),
            ('nCb', [5, 0, 3], [(5, [3, 0])]),
            ('bnCn', [2, 7, 1, 0], [(7, [1]), (0, [2])])]:
        for zv in ([3] * len(kinds), [1] + [3] * (len(kinds) - 1)):
            if zv[0] == 1 and (len(kinds) < 3 or outputs[0] in [
                    x for c, ins in changes for x in [c] + ins]):
                continue
            for j, z in enumerate(parts):
                for k, miss in enumerate([[], [(0, 1)], [(1, 0), (1, 2)]]):
                    if quick and (j + k) % 2:
                        continue
                    i += 1
                    yield {'id': 'regression%d' % i, 'changes': changes,
                        'skip': (4 if quick else 1) if len(kinds) > 2 else 1,
                        'regression': cc.spec(kinds, 3, zv, {v: [[4, 1, 9][x]
                        for x in z] for v in set(zv)}, missing=miss,
                        outputs=outputs)}


def compare(rec, key, dist, want, skip=()):
    rec.eval()
    for k in set(dist) | set(want):
        if k in skip:
            continue
        if abs(dist.get(k, 0.) - want.get(k, 0.)) > 1e-7:
            rec.fail(key, 'outcome %s has probability %r, the model says %r'
                % (k, dist.get(k, 0.), want.get(k, 0.)))
            return False
    return True


def regression(case, rec):
    """A column that depends on finite-valued ones: the exact law of those
    and, for each of their values, the exact mean of the column."""
    sp = case['regression']
    # Two equiprobable points: symmetric about the mean of a normal.
    rng = CRng(1, grid=2)
    state, snap, regs, mixes = cc.conditional(sp,
        [tuple(c) for c in case['changes']], rng)
    cols = list(sp['outputs'])
    kind = dict(zip(cols, sp['kinds']))
    X = dict(zip(cols, cc.data(sp)))
    zv = snap['Zv']
    fin = [c for c in cols if c not in regs]
    sid = 'regression %s %s %s %s' % (sp['kinds'], case['changes'], sp['Zv'],
        sp['Zrv'])
    rec.state(repr((sp, case['changes'])))

    def law(weights, given, tc):
        """{values of finite targets: (probability, mean of regressions)}."""
        out = {}
        free = [c for c in fin if c not in given]
        ys = [c for c in tc if c in regs]
        for vals in itertools.product(*[PROBES[kind[c]] for c in free]):
            d = dict(zip(free, vals))
            full = dict(given)
            full.update(d)
            p = 1.
            means = {}
            for v, m in mixes.items():
                mine = {c: x for c, x in d.items() if zv[c] == v}
                w = {k: math.exp(l + m.row_given_cluster(mine, k, full))
                    for k, l in weights[v].items()}
                tot = sum(w.values())
                p *= tot
                for y in ys:
                    if zv[y] == v:
                        means[y] = sum(x * m.location(y, full, k)
                            for k, x in w.items()) / tot
            key = tuple((c, float(d[c])) for c in sorted(tc) if c in d)
            o = out.setdefault(key, [0.] + [0.] * len(ys))
            o[0] += p
            for i, y in enumerate(sorted(ys)):
                o[i + 1] += p * means[y]
        return out

    def compare_law(what, f, want, tc):
        got = {}
        ys = sorted(c for c in tc if c in regs)

        def key(s):
            if set(s) != set(tc):
                return repr(s)
            return (tuple((c, float(s[c])) for c in sorted(s)
                if c not in regs), tuple(float(s[y]) for y in ys))
        for k, p in distribution(rng, f, key, rec=rec).items():
            if isinstance(k, str):
                rec.fail(sid, '%s gave %s' % (what, k), spec=sp)
                return
            o = got.setdefault(k[0], [0.] * (1 + len(ys)))
            o[0] += p
            for i, y in enumerate(k[1]):
                o[i + 1] += p * y
        rec.eval()
        if set(got) != set(want) or any(abs(a - b) > 1e-7 for k in want
                for a, b in zip(got[k], want[k])):
            rec.fail(sid, '%s: probabilities and means %s, the mixture says '
                '%s' % (what, got, want), spec=sp)
    i = 0
    for roles in itertools.product('tg-', repeat=len(cols)):
        tc = [c for c, r in zip(cols, roles) if r == 't']
        gc = [c for c, r in zip(cols, roles) if r == 'g']
        if not tc or not cc.closed(regs, [], gc):
            continue
        if sum(c in regs for c in tc) > 1:
            continue
        for gv in itertools.product(*[(PROBES.get(kind[c]) or [.4])
                for c in gc]):
            g = dict(zip(gc, gv))
            i += 1
            # A rotating part of the queries of the larger states.
            if (i + len(case['id'] + sid) + sum(sp['Zrv']['3'])) % \
                    case['skip']:
                continue
            weights = {v: m.cluster_logps({c: x for c, x in g.items()
                if zv[c] == v}) for v, m in mixes.items()}
            compare_law('simulate(%s | %s)' % (tc, g), lambda:
                state.simulate([-1, None, sp['n']][i % 3], list(tc if i % 2
                else tc[::-1]), dict(g)), law(weights, g, tc), tc)
            if rec.fails:
                return
    for r in range(sp['n']):
        weights = {v: {m.Z[r]: 0.} for v, m in mixes.items()}
        for tc in [[c] for c in cols] + [fin + [y] for y in regs]:
            g = {c: X[c][r] for c in cols if c not in tc
                and X[c][r] == X[c][r]}
            if not cc.closed(regs, [], g):
                # The density of what is known would need a missing input.
                continue
            compare_law('simulate(row %d, %s)' % (r, tc), lambda:
                state.simulate(r, list(tc)), law(weights, g, tc), tc)


def run_case(case, rec):
    if 'regression' in case:
        return regression(case, rec)
    sp = case['state']
    rng = CRng(1, max_support=5)
    state = cc.build(sp, rng)
    snap = cc.snapshot(state)
    X = dict(zip(sp['outputs'], cc.data(sp)))
    mixes = cc.mixtures(snap, X)
    zv = snap['Zv']
    cols = sp['outputs']
    kind = dict(zip(cols, sp['kinds']))
    sid = '%s %s %s' % (sp['kinds'], sp['Zv'], sp['Zrv'])
    rec.state(repr(sp))
    n = sp['n']
    score = state.logpdf_score()
    top = {c: 4. for c in cols if kind[c] == 'p'}

    def support(c):
        return [0, 1, 2, 3, 4] if kind[c] == 'p' else PROBES[kind[c]]

    def skipped(k):
        return any(top.get(c) == x for c, x in k)

    def key(s):
        return tuple(sorted((c, float(x)) for c, x in s.items()))
    i = 0
    for roles in itertools.product('tg-', repeat=len(cols)):
        tc = [c for c, r in zip(cols, roles) if r == 't']
        gc = [c for c, r in zip(cols, roles) if r == 'g']
        if not tc:
            continue
        for gv in itertools.product(*[PROBES[kind[c]] for c in gc]):
            g = dict(zip(gc, gv))
            i += 1
            rid = [-1, None, n][i % 3]
            tl = tc if i % 2 else tc[::-1]
            dist = distribution(rng, lambda: state.simulate(
                rid, list(tl), dict(g) if g else None), key, rec=rec)
            want = {}
            for tv in itertools.product(*[support(c) for c in tc]):
                t = dict(zip(tc, tv))
                want[key(t)] = math.exp(cc.ref_logpdf(mixes, zv, t, g))
            compare(rec, 'state %s simulate %s' % (sid, tc), dist, want,
                [k for k in want if skipped(k)])
            if case['two'] and not g and len(cols) == 2 and 'p' not in \
                    sp['kinds'] and (len(tc) == 1 or max(
                    len(set(m.Z)) for m in mixes.values()) == 1
                    or 'c' not in sp['kinds'] and len(mixes) == 1):
                d2 = distribution(rng, lambda: state.simulate(
                    rid, list(tl), None, N=2),
                    lambda r: (key(r[0]), key(r[1]), len(r)), rec=rec)
                w2 = {(a, b, 2): want[a] * want[b]
                    for a in want for b in want}
                compare(rec, 'state %s two samples of %s' % (sid, tc), d2, w2)
    # Two samples across views with several clusters (one per state).
    if case['two'] and sp['kinds'] == 'bC' and len(mixes) == 2:
        d2 = distribution(rng, lambda: state.simulate(-1, cols, None, N=2),
            lambda r: (key(r[0]), key(r[1])), rec=rec)
        one = {}
        for tv in itertools.product(*[support(c) for c in cols]):
            t = dict(zip(cols, tv))
            one[key(t)] = math.exp(cc.ref_logpdf(mixes, zv, t, {}))
        compare(rec, 'state %s two joint samples' % sid, d2,
            {(a, b): one[a] * one[b] for a in one for b in one})
    # More samples of one column, with and without its cluster.
    c = cols[sum(zv.values()) % len(cols)]
    if kind[c] in 'bC':
        m = mixes[zv[c]]
        view = state.views[zv[c]]
        tok = view.outputs[0]
        lz = m.cluster_logps({})
        joint = {(z, x): math.exp(lz[z] + m.row_given_cluster({c: x}, z))
            for z in lz for x in support(c)}
        one = {}
        for (z, x), p in joint.items():
            one[x] = one.get(x, 0.) + p
        for N in (3,) + ((4,) if len(lz) == 2 else ()):
            for what, f, law in (
                    ('state', lambda: [s[c] for s in state.simulate(-1, [c],
                        None, N=N)], one),
                    ('view', lambda: [s[c] for s in view.simulate(-1, [c],
                        None, N=N)], one),
                    ('exposed', lambda: [(s[tok], s[c]) for s in
                        view.simulate(-1, [c, tok], None, N=N)], joint)):
                if what == 'exposed' and N > 3:
                    continue
                dn = distribution(rng, f, tuple, rec=rec)
                compare(rec, 'state %s %d samples (%s)' % (sid, N, what), dn,
                    {k: math.prod(law[x] for x in k) for k in
                    itertools.product(law, repeat=N)})
    # Views with their cluster exposed, as target or as constraint.
    for v, m in mixes.items():
        view = state.views[v]
        tok = view.outputs[0]
        ks, new = m.clusters()
        vc = sorted(m.cols)
        for k in ks + [new]:
            dist = distribution(rng, lambda: view.simulate(
                -1, list(vc), {tok: k}), key, rec=rec)
            want = {}
            for tv in itertools.product(*[support(c) for c in vc]):
                t = dict(zip(vc, tv))
                want[key(t)] = math.exp(m.row_given_cluster(t, k))
            compare(rec, 'view %s given cluster' % sid, dist, want,
                [x for x in want if skipped(x)])
        for c in vc:
            g = {c: PROBES[kind[c]][-1]}
            tg = [x for x in vc if x != c] + [tok]
            dist = distribution(rng, lambda: view.simulate(
                -1, list(tg), dict(g)), key, rec=rec)
            lz = m.cluster_logps(g)
            want = {}
            for tv in itertools.product(*[support(x) for x in tg[:-1]]):
                t = dict(zip(tg[:-1], tv))
                for k in lz:
                    want[key(dict(t) | {tok: k})] = math.exp(
                        lz[k] + m.row_given_cluster(t, k))
            compare(rec, 'view %s expose cluster' % sid, dist, want,
                [x for x in want if skipped(x)])
        dist = distribution(rng, lambda: view.simulate(-1, [tok], None, N=2),
            lambda r: (int(r[0][tok]), int(r[1][tok])), rec=rec)
        lz = m.cluster_logps({})
        compare(rec, 'view %s two clusters' % sid, dist,
            {(a, b): math.exp(lz[a] + lz[b]) for a in lz for b in lz})
    # Observed rows: given the row's own cluster.
    for r in range(n):
        dist = distribution(rng, lambda: state.simulate(r, list(cols)), key,
            rec=rec)
        want = {}
        for tv in itertools.product(*[support(c) for c in cols]):
            t = dict(zip(cols, tv))
            want[key(t)] = math.exp(math.fsum(
                mixes[zv[c]].cell(c, x, mixes[zv[c]].Z[r])
                for c, x in t.items()))
        compare(rec, 'state %s simulate row %d' % (sid, r), dist, want,
            [k for k in want if skipped(k)])
    # Counts.
    for N in (0, 1, 3):
        r = state.simulate(-1, list(cols), None, N=N)
        rec.eval()
        if len(r) != N or any(set(s) != set(cols) for s in r):
            rec.fail('state count', 'N=%d gave %r' % (N, r))
    b = state.simulate_bulk([-1, -1], [cols[:1], cols], None, None, [2, 1])
    if [len(x) for x in b] != [2, 1] or set(b[0][0]) != set(cols[:1]) \
            or set(b[1][0]) != set(cols):
        rec.fail('state bulk', 'simulate_bulk gave %r' % (b,))
    if state.logpdf_score() != score or cc.snapshot(state) != snap:
        if repr(cc.snapshot(state)) != repr(snap):
            rec.fail('state pure', 'simulate changed the state')
    if case['two']:
        rec.sample({'state': sid, 'queries': i})
