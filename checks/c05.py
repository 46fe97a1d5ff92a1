"""Conditional densities of a CrossCat model are those of its mixture."""
import itertools
import math

import cc
import mc
import ref
from crng import CRng

PID = 'C05'
RULE = ('all column partitions x row partitions x missing cells of small '
    'states; for each, every way of making each column target, constraint '
    'or absent, over the value alphabet, fresh and observed rows; the real '
    'density against an independent mixture; the same for states with one or '
    'two regression columns, whenever the query has the inputs they need')
ASSUMPTIONS = ['3 columns, 3 rows (4 in the thorough tier)', 'tolerance 1e-7 relative']

PROBES = {'n': [.3, -2.], 'N': [1.], 'c': [0, 1, 2], 'C': [0, 1],
    'b': [0, 1], 'p': [0, 2], 'e': [.9], 'g': [1], 'l': [1.2], 'v': [2.]}


def states(tier):
    quick = tier == 'quick'
    out = []
    for rows in ([3] if quick else [3, 4]):
        parts = list(ref.partitions(rows))
        for kinds in ['ncb', 'Cnp', 'bcC', 'elc', 'gvb', 'nNp', 'ccb', 'nne']:
            for zv in ref.partitions(3):
                nv = max(zv) + 1
                names = [[0, 1, 2], [7, 2, 30]][sum(zv) % 2]
                combos = list(itertools.product(parts, repeat=nv))
                if nv == 3:
                    combos = combos[::7 if quick else 1 if rows == 3 else 61]
                if nv == 2 and rows == 4:
                    combos = combos[::2]
                for i, zrs in enumerate(combos):
                    miss = [[], [(0, 1)], [(1, 0), (2, 2)]][i % 3]
                    ks = [0, 1, 2, 3] if i % 2 else [4, 1, 9, 0]
                    zr = {names[v]: [ks[z] for z in zrs[v]]
                        for v in range(nv)}
                    out.append(cc.spec(kinds, rows, [names[z] for z in zv],
                        zr, missing=miss, alpha=.7))
    return out


def cases(tier):
    sts = states(tier)
    size = 8
    for i in range(0, len(sts), size):
        yield {'id': 'batch%d' % (i // size), 'states': sts[i:i + size]}
    sts = regressions(tier)
    for i in range(0, len(sts), 4):
        yield {'id': 'regressions%d' % (i // 4), 'regressions': sts[i:i + 4]}


def regressions(tier):
    """States with regression columns: (spec, [(column, inputs)])."""
    quick = tier == 'quick'
    out = []
    for kinds, outputs, changes in [
            ('nnC', [0, 1, 2], [(0, [1])]),
            ('nnC', [5, 0, 3], [(5, [3, 0])]),
            ('ncnb', [8, 2, 4, 1], [(8, [4]), (4, [2])]),
            ('nnnC', [0, 6, 3, 9], [(6, [3, 9]), (0, [9])]),
            ('bnC', [4, 2, 7], [(2, [7, 4])])]:
        for same in (True, False):
            # A column in a view of its own, or all together.
            zv = [3] * len(kinds)
            used = set(c for x in changes for c in [x[0]] + x[1])
            free = [i for i, o in enumerate(outputs) if o not in used]
            if not same:
                if not free:
                    continue
                zv[free[0]] = 1
            for j, z in enumerate(ref.partitions(3)):
                ks = [4, 1, 9]
                for i, miss in enumerate([[], [(0, 1)], [(1, 0), (2, 2)],
                        [(len(kinds) - 1, 1), (0, 0)]]):
                    if quick and (i + j) % 2:
                        continue
                    zr = {3: [ks[k] for k in z]}
                    if not same:
                        zr[1] = [0, 1, 1]
                    out.append((cc.spec(kinds, 3, zv, zr, missing=miss,
                        outputs=outputs), changes))
    return out


def merge(a, b):
    out = dict(a)
    out.update(b)
    return out


def regress(sp, changes, rec):
    """Densities whose regressions have their inputs are exact."""
    state, snap, regs, mixes = cc.conditional(sp, changes, CRng(1))
    cols = list(sp['outputs'])
    X = dict(zip(cols, cc.data(sp)))
    kind = dict(zip(cols, sp['kinds']))
    zv = snap['Zv']
    n = sp['n']
    sid = 'regression %s %s %s %s' % (sp['kinds'], changes, sp['Zv'],
        sp['Zrv'])
    if not rec.state(repr((sp, changes))):
        return
    probe = {c: PROBES[kind[c]][:2] for c in cols}
    count = 0
    for roles in itertools.product('tg-', repeat=len(cols)):
        tc = [c for c, r in zip(cols, roles) if r == 't']
        gc = [c for c, r in zip(cols, roles) if r == 'g']
        if not tc or not cc.closed(regs, tc, gc):
            continue
        for vals in itertools.product(*[probe[c] for c in tc + gc]):
            t, g = dict(zip(tc, vals)), dict(zip(gc, vals[len(tc):]))
            want = cc.ref_logpdf(mixes, zv, t, g)
            count += 1
            rec.eval()
            rec.trans()
            rec.trace()
            got = state.logpdf([-1, None, n][count % 3], dict(t), dict(g))
            if not ref.close(got, want):
                rec.fail(sid, 'logpdf(%s | %s) = %r, the mixture says %r'
                    % (t, g, got, want), spec=sp)
                return
    for r in range(n):
        row = {c: X[c][r] for c in cols if X[c][r] == X[c][r]}
        miss = [c for c in cols if c not in row]
        for k in range(1, len(miss) + 1):
            for tc in itertools.combinations(miss, k):
                if not cc.closed(regs, tc, row):
                    continue
                for vals in itertools.product(*[probe[c] for c in tc]):
                    t = dict(zip(tc, vals))
                    want = 0.
                    for v, m in mixes.items():
                        want += m.row_given_cluster({c: x for c, x in
                            t.items() if zv[c] == v}, m.Z[r], row)
                    got = state.logpdf(r, dict(t))
                    rec.eval()
                    rec.trans()
                    if not ref.close(got, want):
                        rec.fail(sid + ' row', 'logpdf of row %d %s = %r, its'
                            ' cluster says %r' % (r, t, got, want), spec=sp)
                        return
    # Views by themselves, with and without their cluster.
    for v, m in mixes.items():
        view = state.views[v]
        tok = view.outputs[0]
        ks, new = m.clusters()
        vc = sorted(m.cols)
        for roles in itertools.product('tg-', repeat=len(vc)):
            tc = [c for c, r in zip(vc, roles) if r == 't']
            gc = [c for c, r in zip(vc, roles) if r == 'g']
            if not cc.closed(regs, tc, gc) or not tc:
                continue
            for i in (0, 1):
                t = {c: probe[c][i % len(probe[c])] for c in tc}
                g = {c: probe[c][-1 - i % len(probe[c])] for c in gc}
                lz = m.cluster_logps(g)
                pairs = [('', view.logpdf(-1, dict(t), dict(g)),
                    m.logpdf(t, g))]
                for k in ks + [new]:
                    at = m.row_given_cluster(t, k, g)
                    pairs.append((' and z=%s' % k, view.logpdf(-1,
                        merge(t, {tok: k}), dict(g)), lz[k] + at))
                    pairs.append((' at z=%s' % k, view.logpdf(-1, dict(t),
                        merge(g, {tok: k})), at))
                for what, got, want in pairs:
                    rec.eval()
                    rec.trans()
                    if not ref.close(got, want):
                        rec.fail(sid + ' view', 'logpdf(%s | %s)%s = %r, the '
                            'mixture says %r' % (t, g, what, got, want),
                            spec=sp)
                        return
    for v, m in mixes.items():
        got = state.views[v].logpdf_likelihood()
        want = 0.
        for c in m.cols:
            for k in set(m.Z):
                past = []
                if c in regs:
                    for x, y in m.past(c, k):
                        want += cc.student(y, x, past, *regs[c][2:])[0]
                        past.append((x, y))
                else:
                    t, h, d, vals = m.cols[c]
                    want += ref.marginal(t, [y for y, z in zip(vals, m.Z)
                        if z == k and y == y], h, d)
        rec.eval()
        if not ref.close(got, want):
            rec.fail(sid + ' likelihood', 'likelihood of view %d is %r, '
                'expected %r' % (v, got, want), spec=sp)
    rec.sample({'state': sid, 'queries': count})


def run_case(case, rec):
    if 'regressions' in case:
        for sp, changes in case['regressions']:
            regress(sp, [tuple(c) for c in changes], rec)
        return
    for sp in case['states']:
        one(sp, rec)


def one(sp, rec):
    state = cc.build(sp, CRng(1))
    snap = cc.snapshot(state)
    X = dict(zip(sp['outputs'], cc.data(sp)))
    mixes = cc.mixtures(snap, X)
    zv = snap['Zv']
    if not rec.state(repr(sp)):
        return
    cols = sp['outputs']
    kind = dict(zip(cols, sp['kinds']))
    sid = '%s %s %s' % (sp['kinds'], sp['Zv'], sp['Zrv'])
    n = sp['n']
    asked = []
    # Fresh rows: every assignment of roles and values.
    for roles in itertools.product('tg-', repeat=len(cols)):
        tc = [c for c, r in zip(cols, roles) if r == 't']
        gc = [c for c, r in zip(cols, roles) if r == 'g']
        if not tc:
            continue
        for vals in itertools.product(*[PROBES[kind[c]] for c in tc + gc]):
            t = dict(zip(tc, vals))
            g = dict(zip(gc, vals[len(tc):]))
            rid = [-1, None, n, 10 ** 6][len(asked) % 4]
            got = state.logpdf(rid, dict(t), dict(g) if g else None)
            want = cc.ref_logpdf(mixes, zv, t, g)
            asked.append((rid, t, g, got))
            rec.eval()
            rec.trans()
            if not ref.close(got, want):
                rec.fail('state %s' % sid, 'logpdf(%s | %s) = %r, mixture '
                    'says %r' % (t, g, got, want), spec=sp)
                return
    rec.trace(len(asked))
    rec.outcome(round(asked[-1][-1], 6))
    # Normalisation of the discrete joint, given nothing.
    disc = [c for c in cols if kind[c] in cc.DISCRETE]
    if disc:
        tot = math.fsum(math.exp(state.logpdf(-1, dict(zip(disc, v))))
            for v in itertools.product(*[PROBES[kind[c]] for c in disc]))
        rec.eval()
        if abs(tot - 1) > 1e-9:
            rec.fail('state %s mass' % sid, 'joint of %s sums to %r'
                % (disc, tot), spec=sp)
    # The same queries in bulk.
    bulk = state.logpdf_bulk([a[0] for a in asked], [a[1] for a in asked],
        [a[2] for a in asked])
    if len(bulk) != len(asked) or any(not ref.close(b, a[3])
            for a, b in zip(asked, bulk)):
        rec.fail('state %s bulk' % sid, 'logpdf_bulk differs from logpdf',
            spec=sp)
    # Observed rows: missing cells, given the row's own cluster.
    for r in range(n):
        miss = [c for c in cols if X[c][r] != X[c][r]]
        for k in range(1, len(miss) + 1):
            for tc in itertools.combinations(miss, k):
                for vals in itertools.product(*[PROBES[kind[c]]
                        for c in tc]):
                    t = dict(zip(tc, vals))
                    want = math.fsum(mixes[zv[c]].cell(
                        c, x, mixes[zv[c]].Z[r]) for c, x in t.items())
                    seen = [c for c in cols if c not in miss][:1]
                    for g in ({}, {c: X[c][r] for c in seen}):
                        got = state.logpdf(r, dict(t), g)
                        rec.eval()
                        rec.trans()
                        if not ref.close(got, want):
                            rec.fail('state %s row' % sid, 'logpdf of row %d '
                                '%s given %s = %r, its cluster says %r'
                                % (r, t, g, got, want), spec=sp)
    # Views expose the cluster as a variable.
    for v, m in mixes.items():
        view = state.views[v]
        tok = view.outputs[0]
        ks, new = m.clusters()
        vc = sorted(m.cols)
        for roles in itertools.product('tg-', repeat=len(vc)):
            tc = [c for c, r in zip(vc, roles) if r == 't']
            gc = [c for c, r in zip(vc, roles) if r == 'g']
            t = {c: PROBES[kind[c]][0] for c in tc}
            g = {c: PROBES[kind[c]][-1] for c in gc}
            lz = m.cluster_logps(g)
            for k in ks + [new]:
                got = view.logpdf(-1, dict(t) | {tok: k}, g or None)
                want = lz[k] + m.row_given_cluster(t, k)
                rec.eval()
                rec.trans()
                if not ref.close(got, want):
                    rec.fail('view %s joint' % sid, 'logpdf(z=%s, %s | %s) = '
                        '%r, mixture says %r' % (k, t, g, got, want), spec=sp)
                if t:
                    got = view.logpdf(-1, dict(t), dict(g) | {tok: k})
                    want = m.row_given_cluster(t, k)
                    rec.eval()
                    if not ref.close(got, want):
                        rec.fail('view %s cond' % sid, 'logpdf(%s | z=%s, %s)'
                            ' = %r, mixture says %r' % (t, k, g, got, want),
                            spec=sp)
            if t:
                got, want = view.logpdf(-1, t, g), m.logpdf(t, g)
                rec.eval()
                if not ref.close(got, want):
                    rec.fail('view %s marg' % sid, 'logpdf(%s | %s) = %r, '
                        'mixture says %r' % (t, g, got, want), spec=sp)
        for r in range(n):
            for c in vc:
                t = {c: PROBES[kind[c]][0]}
                got = view.logpdf(r, t)
                # The observed row's other cells are independent given z.
                want = m.cell(c, t[c], m.Z[r])
                rec.eval()
                if not ref.close(got, want):
                    rec.fail('view %s row' % sid, 'logpdf of row %d %s = %r, '
                        'its cluster says %r' % (r, t, got, want), spec=sp)
    rec.sample({'state': sid, 'query': asked[len(asked) // 2]})
