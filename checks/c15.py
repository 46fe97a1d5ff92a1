"""Composed models answer with the law of the whole network."""
import itertools
import math

import numpy as np

import cc
import mc
import models as md
import nets
import ref
from crng import CRng, distribution, explore

PID = 'C15'
RULE = ('all acyclic networks of three one-output finite-valued models and '
    'a set of multi-output ones, with and without external inputs, in every '
    'order of the models, every split of the variables into targets, '
    'constraints and the rest, every value: the exact law of samples and '
    'density estimates over all random choices, accuracies 1 and 2 (3 in the '
    'thorough tier); the same for models attached to states with every '
    'partition of two columns, hypothetical and observed rows; all cyclic, '
    'overlapping and empty compositions; every order of attaching and '
    'detaching up to four models; one state asked before and after edits')
ASSUMPTIONS = ['models given to the network are finite-valued; a sample whose '
    'weight is zero is never returned']
NAN = float('nan')


Fixed, law, cost = nets.Fixed, nets.law, nets.cost
power, density, samples = nets.power, nets.density, nets.samples


def agree(a, b, tol=1e-6):
    ks = set(a) | set(b)
    return all(abs(a.get(k, 0.) - b.get(k, 0.)) < tol for k in ks)


def near(a, b, tol=1e-6):
    """Laws over numbers-as-text, up to rounding of the text."""
    if agree(a, b, tol):
        return True

    def tidy(d):
        rows = sorted((float(k) if k != 'refused' else -1., p)
            for k, p in d.items() if p > 1e-12)
        out = []
        for x, p in rows:
            if out and abs(out[-1][0] - x) <= 1e-5 * max(1e-3, abs(x)):
                out[-1][1] += p
            else:
                out.append([x, p])
        return out
    x, y = tidy(a), tidy(b)
    return len(x) == len(y) and all(abs(s - t) <= 2e-5 * max(1e-3, abs(s))
        and abs(p - q) < tol for (s, p), (t, q) in zip(x, y))


def show(d):
    return {str(k): round(p, 6) for k, p in sorted(d.items(), key=str)}


# ---------------------------------------------------------------- the cases
def dags(n):
    pairs = list(itertools.combinations(range(n), 2))
    for dirs in itertools.product((0, 1, 2), repeat=len(pairs)):
        par = {i: [] for i in range(n)}
        for (a, b), d in zip(pairs, dirs):
            if d == 1:
                par[b].append(a)
            elif d == 2:
                par[a].append(b)
        done, left = [], list(range(n))
        while left:
            r = [i for i in left if all(p in done for p in par[i])]
            if not r:
                break
            done += r
            left = [i for i in left if i not in r]
        if not left:
            yield par


MULTI = [
    [([0, 1], []), ([2], [0])],
    [([0, 1], []), ([2], [1, 0])],
    [([0, 1], []), ([2], [0]), ([3], [1, 2])],
    [([2], []), ([0, 1], [2])],
    [([2], []), ([0, 1], [2]), ([3], [0])],
    [([0, 1], [7]), ([2], [0]), ([3], [7])],
    [([2], [7]), ([0, 1], [2, 8]), ([3], [8, 1])],
    [([2], []), ([3], [7]), ([1, 0], [3, 2])],
    [([0, 1], []), ([2, 3], [1])],
    [([0, 1], []), ([2, 3], [7])],
]


def cases(tier):
    quick = tier == 'quick'
    k = 0
    for par in dags(3):
        for ext in (0, 1):
            names = [[0, 1, 2], [11, 4, 7]][k % 2]
            shape = [([names[i]], [names[p] for p in par[i]]
                + ([90] if ext and (i + k) % 2 == 0 else []))
                for i in range(3)]
            perm = list(itertools.permutations(range(3)))[k % 6]
            yield {'id': 'dag%d' % k, 'net': [shape[i] for i in perm],
                'zero': [0, 3][(k // 2) % 2], 'seed': 1 + k, 'quick': quick}
            k += 1
    for i, shape in enumerate(MULTI):
        for j, perm in enumerate(itertools.permutations(range(len(shape)))):
            if quick and len(shape) == 3 and (i + j) % 3:
                continue
            yield {'id': 'multi%d.%d' % (i, j), 'net': [shape[x]
                for x in perm], 'zero': [0, 3][(i + j) % 2], 'seed': 3 + i,
                'quick': quick}
    k = 0
    for zv in ([0, 0], [0, 1], [5, 2]):
        for zr in (([0, 0], [0, 0]), ([0, 1], [0, 0]), ([0, 1], [3, 1])):
            for miss in ([], [(0, 0)], [(1, 0)], [(0, 0), (1, 0)]):
                for hooks in range(len(HOOKS)):
                    k += 1
                    if quick and k % 5:
                        continue
                    yield {'id': 'state%d' % k, 'zv': zv, 'zr': zr,
                        'miss': miss, 'hooks': hooks, 'k': k,
                        'quick': quick}
    yield {'id': 'refused', 'refused': 1}
    for zv in ([0, 0, 1], [0, 1, 1], [0, 1, 2], [2, 0, 2]):
        for ms in ([20], [20, 30], [20, 50]):
            yield {'id': 'live%s.%d' % (''.join(map(str, zv)), sum(ms)),
                'live': zv, 'models': ms, 'quick': quick,
                'depth': 1 if quick else 2}
    for zv in ([0, 0], [0, 1]):
        for j in range(3):
            yield {'id': 'detach%s.%d' % (zv[1], j), 'detach': zv, 'part': j,
                'quick': quick}


def splits(names):
    for roles in itertools.product((0, 1, 2), repeat=len(names)):
        t = [x for x, r in zip(names, roles) if r == 1]
        c = [x for x, r in zip(names, roles) if r == 2]
        if t:
            yield t, c


def network(case, rec):
    from cgpm.network.importance import ImportanceNetwork
    shape, quick = case['net'], case['quick']
    rng = CRng(1)
    tabs = [nets.Table(o, i, rng, seed=case['seed'] + 2 * j,
        zero=case['zero'] if j != 1 else 0) for j, (o, i) in enumerate(shape)]
    names = sorted(o for m in tabs for o in m.outputs)
    ext = sorted(set(i for m in tabs for i in m.inputs) - set(names))
    external = {e: [.5, 1.][j % 2] for j, e in enumerate(ext)}
    rec.state((str(shape), case['zero']))
    key = 'network %s' % (case['id'],)
    count = 0
    accs = (1, 2) if quick else (1, 2, 3)
    nets_ = {a: ImportanceNetwork(list(tabs), accuracy=a, rng=rng)
        for a in accs}
    nets_[1] = ImportanceNetwork(list(tabs), rng=rng)
    exact_joint = nets.joint(tabs, external)

    def exact(want):
        return math.fsum(p for a, p in exact_joint.items()
            if all(dict(a)[x] == y for x, y in want.items()))
    for t, c in splits(names):
        for cv in itertools.product((0, 1), repeat=len(c)):
            given = dict(zip(c, cv))
            for acc in accs:
                count += 1
                if acc > 1 and count % [0, 0, 5, 23][acc] and not (
                        acc == 2 and len(names) == 2):
                    continue
                if acc > 1 and len(names) - len(t) - len(c) > 1:
                    continue
                n = nets_[acc]
                for m in tabs:
                    m.calls = []

                def one():
                    e = {}
                    r = mc.raises(lambda: e.update(r=n.simulate(None,
                        list(t), dict(given) if given else None,
                        dict(external) if external else None)))
                    if r is not None:
                        if not isinstance(r, ValueError):
                            raise r
                        return 'refused'
                    got = e['r']
                    if not isinstance(got, dict) or set(got) != set(t):
                        return 'shape: %r' % (got,)
                    return tuple(got[x] for x in t)
                with rec.guard(key + ' simulate'):
                    got = distribution(rng, one, rec=rec)
                    want = samples(tabs, external, t, given, acc)
                    if not agree(got, want):
                        rec.fail(key + ' simulate', 'models %s zero=%d '
                            'accuracy %d: samples of %s given %s have law %s, '
                            'expected %s' % (shape, case['zero'], acc, t,
                            given, show(got), show(want)))
                        return
                    asked(rec, key, tabs, t, given)
                    if acc == 1:
                        # Unbiasedness of the estimate defined above.
                        L = law(tabs, external, given, tuple(t))
                        for tv in itertools.product((0, 1), repeat=len(t)):
                            e = math.fsum(w * p for (a, w), p in L.items()
                                if a == tv)
                            g = dict(given)
                            g.update(zip(t, tv))
                            assert abs(e - exact(g)) < 1e-9
                for tv in itertools.product((0, 1), repeat=len(t)):
                    count += 1
                    if quick and count % 2 and len(t) == 2:
                        continue
                    if acc > 1 and count % 3:
                        continue
                    tg = dict(zip(t, tv))
                    with rec.guard(key + ' logpdf'):
                        got = distribution(rng, lambda: ask(n, tg, given,
                            external), rec=rec)
                        want = density(tabs, external, tg, given, acc)
                        if not near(got, want):
                            rec.fail(key + ' logpdf', 'models %s zero=%d '
                                'accuracy %d: density of %s given %s has '
                                'law %s, expected %s' % (shape, case['zero'],
                                acc, tg, given, show(got), show(want)))
                            return
                        asked(rec, key, tabs, t, given)
    # Several samples are independent draws.
    t = names[-1:]
    for cv in (0, 1):
        given = {names[0]: cv}
        with rec.guard(key + ' N'):
            for N in (1, 2):
                got = distribution(rng, lambda: many(nets_[1], t, given,
                    external, N), rec=rec)
                one = samples(tabs, external, t, given, 1)
                want = {}
                for ks, p in power(one, N):
                    k = 'refused' if 'refused' in ks else tuple(
                        x[0] for x in ks)
                    want[k] = want.get(k, 0.) + p
                if not agree(got, want):
                    rec.fail(key + ' N', 'models %s zero=%d: %d samples of '
                        '%s given %s have law %s, expected %s' % (shape,
                        case['zero'], N, t, given, show(got), show(want)))
                    return
    # A model that needs an input nobody provides cannot be asked.
    if ext:
        for e in ext:
            less = {i: x for i, x in external.items() if i != e}
            users = [o for m in tabs if e in m.inputs for o in m.outputs]
            for t in users:
                rec.eval(2)
                for f in (lambda: nets_[1].simulate(None, [t], None, less),
                        lambda: nets_[1].logpdf(None, {t: 0}, None, less)):
                    if mc.raises(f) is None:
                        rec.fail(key + ' input', 'models %s: %s answered '
                            'without the input %s' % (shape, t, e))
                        return


def ask(n, tg, given, external, rowid=None, **kw):
    e = {}
    r = mc.raises(lambda: e.update(r=n.logpdf(rowid, dict(tg),
        dict(given) if given else None, dict(external) if external else None,
        **kw)))
    if r is not None:
        if not isinstance(r, ValueError):
            raise r
        return 'refused'
    return '%.7g' % math.exp(e['r'])


def many(n, t, given, external, N):
    e = {}
    r = mc.raises(lambda: e.update(r=n.simulate(None, list(t), dict(given),
        dict(external) if external else None, N)))
    if r is not None:
        if not isinstance(r, ValueError):
            raise r
        return 'refused'
    assert len(e['r']) == N
    return tuple(s[t[0]] for s in e['r'])


def asked(rec, key, tabs, t, given):
    """Only models above or at the query are involved."""
    of = {o: m for m in tabs for o in m.outputs}
    live, todo = [], list(t) + list(given)
    while todo:
        x = todo.pop()
        if x in of and of[x] not in live:
            live.append(of[x])
            todo.extend(of[x].inputs)
    for m in tabs:
        rec.eval()
        if m.calls and m not in live:
            rec.fail(key + ' asked', 'a query of %s given %s asked the model '
                'of %s' % (t, given, m.outputs))
        if any(c[0] is not None for c in m.calls):
            rec.fail(key + ' rowid', 'a query of row None asked about row %s'
                % ([c[0] for c in m.calls],))
        m.calls = []


# ------------------------------------------------------------------- states
HOOKS = [
    [([20], [1])],
    [([20], [6])],
    [([20], [6, 1])],
    [([20], [1]), ([30], [20])],
    [([30], [20, 6]), ([20], [1])],
    [([20], []), ([30, 31], [20, 6])],
    [([20], [6, 90])],
]


def state(case, rec):
    zv, miss = case['zv'], [tuple(m) for m in case['miss']]
    outs = [6, 1]
    sp = cc.spec('bC', 3, zv, {v: list(z) + [z[0]] for v, z in zip(zv,
        case['zr'])} if zv[0] != zv[1] else {zv[0]: list(case['zr'][0])
        + [case['zr'][1][0]]}, missing=miss, outputs=outs)
    rng = CRng(1)
    s = cc.build(sp, rng)
    snap = cc.snapshot(s)
    mixes = cc.mixtures(snap)
    hooks = [nets.Table(o, i, rng, seed=2 + case['k'] + j, zero=0)
        for j, (o, i) in enumerate(HOOKS[case['hooks']])]
    for m in hooks:
        s.compose_cgpm(m)
    external = {90: .5} if any(90 in m.inputs for m in hooks) else {}
    names = outs + [o for m in hooks for o in m.outputs]
    rec.state(repr((sp, case['hooks'])))
    quick = case['quick']
    for rowid in (-1, 7, 0):
        views = []
        obs = {}
        if rowid == 0:
            obs = {c: snap['cols'][c][3][0] for c in outs
                if snap['cols'][c][3][0] == snap['cols'][c][3][0]}
        for v, m in mixes.items():
            cols = [c for c in outs if snap['Zv'][c] == v]
            tab = {}
            for vals in itertools.product((0, 1), repeat=len(cols)):
                row = dict(zip(cols, map(float, vals)))
                tab[vals] = math.exp(m.logpdf(row, {}) if rowid != 0 else
                    sum(m.cell(c, x, m.Z[0]) for c, x in row.items()))
            views.append(Fixed(cols, tab))
        parts = views + hooks
        key = 'state %s row %s' % (case['id'], rowid)
        for idx, (t, c) in enumerate(splits(names)):
            if (quick or rowid == 7) and (idx + case['k']) % (3 if len(names) == 4
                    else 10 if len(names) > 4 else 1):
                continue
            for cv in itertools.product((0, 1), repeat=len(c)):
                given = dict(zip(c, cv))
                clash = [x for x in given if x in obs and given[x] != obs[x]]
                full = dict((x, y) for x, y in obs.items() if x not in t)
                full.update(given)
                for m in hooks:
                    m.calls = []
                acc = 2 if idx % 7 == 3 else None
                limit = 100 if quick else 300
                if cost(parts, external, full, t, acc or 1) > limit:
                    acc = None
                kw = {'accuracy': acc} if acc else {}

                def one():
                    e = {}
                    r = mc.raises(lambda: e.update(r=s.simulate(rowid,
                        list(t) if idx % 2 else tuple(t), dict(given) or
                        None, dict(external) or None, **kw)))
                    if r is not None:
                        if not isinstance(r, ValueError):
                            raise r
                        return 'refused'
                    return tuple(float(e['r'][x]) for x in t)
                with rec.guard(key + ' simulate'):
                    got = distribution(rng, one, rec=rec)
                    want = {'refused': 1.} if clash else samples(parts,
                        external, t, full, acc or 1)
                    if not agree(got, want):
                        rec.fail(key + ' simulate', 'views %s rows %s '
                            'missing %s models %s: samples of %s given %s '
                            'have law %s, expected %s' % (zv, case['zr'],
                            miss, HOOKS[case['hooks']], t, given, show(got),
                            show(want)))
                        return
                tgs = [dict(zip(t, tv)) for tv in itertools.product((0, 1),
                    repeat=len(t))]
                for tg in tgs[idx % 2::2 if len(tgs) > 2 else 1]:
                    both = dict(full)
                    both.update(tg)
                    n = cost(parts, external, both, (), acc or 1) * (cost(
                        parts, external, full, (), acc or 1) if full else 1)
                    if n > limit:
                        rec.note('density with too many paths')
                        continue
                    with rec.guard(key + ' logpdf'):
                        got = distribution(rng, lambda: ask(s, tg, given,
                            external, rowid=rowid, **kw), rec=rec)
                        # Observed cells cannot be asked for.
                        want = {'refused': 1.} if clash or set(tg) & set(
                            obs) else density(parts, external, tg, full,
                            acc or 1)
                        if not near(got, want):
                            rec.fail(key + ' logpdf', 'views %s rows %s '
                                'missing %s models %s: density of %s given '
                                '%s has law %s, expected %s' % (zv,
                                case['zr'], miss, HOOKS[case['hooks']], tg,
                                given, show(got), show(want)))
                            return
                if any(m.exact and x[0] != rowid for m in hooks
                        for x in m.calls):
                    rec.fail(key + ' rowid', 'models asked about rows %s'
                        % ([x[0] for m in hooks for x in m.calls],))
                    return
    # An impossible value upstream makes the whole impossible.
    o = hooks[0].outputs[0]
    for c in outs:
        with rec.guard('impossible'):
            got = distribution(rng, lambda: ask(s, {c: .5, o: 0}, {},
                external, rowid=-1), rec=rec)
            if not near(got, {'0': 1.}):
                rec.fail('state impossible value', 'models %s views %s: '
                    'density of %s: %s, expected 0' % (HOOKS[case['hooks']],
                    zv, {c: .5, o: 0}, show(got)))
                return


# ----------------------------------------------------------------- refusals
def refused(case, rec):
    from cgpm.network.importance import ImportanceNetwork
    rng = CRng(1)

    def net(shape, known=False):
        return ImportanceNetwork([nets.Table(o, i, rng) for o, i in shape],
            rng=rng)
    pool = [([0], [1]), ([0], []), ([1], [0]), ([1], []), ([2], [0]),
        ([2], [1]), ([1, 2], [0]), ([1, 2], []), ([0], [2]), ([0, 1], [2]),
        ([], [0]), ([0], [0]), ([3], [2, 9]), ([2], [3])]
    for n in (1, 2, 3):
        for shape in itertools.permutations(pool, n):
            outs = [o for x in shape for o in x[0]]
            bad = len(set(outs)) < len(outs) or any(not x[0] for x in shape)
            if not bad:
                g = {i: set(j for j, y in enumerate(shape)
                    if set(y[0]) & set(x[1])) for i, x in enumerate(shape)}
                left = set(g)
                while left:
                    go = [i for i in left if not g[i] & left]
                    if not go:
                        bad = True
                        break
                    left -= set(go)
            e = mc.raises(net, shape)
            rec.eval()
            rec.trans()
            if bad != (e is not None) or (e is not None and not isinstance(e,
                    ValueError)):
                rec.fail('network refusal', 'network %s: %r, expected %s'
                    % (shape, e, 'ValueError' if bad else 'acceptance'))
                return
    # Attaching.
    sp = cc.spec('bC', 3, [0, 1], {0: [0, 1, 0], 1: [0, 0, 1]},
        outputs=[6, 1])
    s = cc.build(sp, rng)
    z = s.views[0].outputs[0]
    first = [None, ([20], [1]), ([20, 21], []), ([20], [30])]
    for f in first:
        for m in [([6], []), ([1], [6]), ([6, 30], []), ([20], []), ([21],
                [6]), ([30], [20]), ([], [6]), ([30], [6, 20]), ([z], []),
                ([30], [30])]:
            s = cc.build(sp, rng)
            if f:
                s.compose_cgpm(nets.Table(f[0], f[1], rng))
            taken = set([6, 1] + (f[0] if f else [])) | set(
                o for v in s.views.values() for o in v.outputs)
            cyc = bool(f and set(f[1]) & set(m[0]) and set(m[1]) & set(f[0])
                ) or bool(set(m[0]) & set(m[1]))
            bad = bool(set(m[0]) & taken) or not m[0] or cyc
            before = md.state_answers(s)
            flag = s.is_composite()
            e = mc.raises(s.compose_cgpm, nets.Table(m[0], m[1], rng))
            rec.eval()
            rec.trans()
            rec.state(repr((f, m)))
            if bad != (e is not None) or (e is not None and not isinstance(e,
                    ValueError)):
                rec.fail('attach refusal', 'attaching %s to a state with %s: '
                    '%r, expected %s' % (m, f, e, 'ValueError' if bad
                    else 'acceptance'))
                return
            if e is not None:
                d = md.diff(before, md.state_answers(s))
                if d or s.is_composite() != flag:
                    rec.fail('attach refusal changes', 'refused %s to a '
                        'state with %s: %s' % (m, f, d))
                    return


def detach(case, rec):
    sp = cc.spec('bC', 3, case['detach'], {v: [0, 1, 0]
        for v in set(case['detach'])}, outputs=[6, 1], missing=[(0, 1)])
    rng = CRng(1)
    mods = [([20], [1]), ([30, 31], [6]), ([40], [6, 1]), ([50], [20])]
    order = [m for m in itertools.permutations(range(4), 3)] + [
        (0, 1, 2, 3), (2, 1, 0, 3), (1, 0, 3, 2)]
    for picks in order:
        if 3 in picks and (0 not in picks or picks.index(0) > picks.index(3)):
            continue
        if (sum(picks) + (picks[0] if len(picks) > 3 else 0)) % 3 != \
                case['part']:
            continue
        for k, off in enumerate(itertools.permutations(picks)):
            if len(picks) > 3 and k % (12 if case['quick'] else 4) != 10 % (
                    12 if case['quick'] else 4):
                continue
            if len(picks) == 3 and case['quick'] and (k + picks[0]) % 2:
                continue
            if 3 in picks and off.index(3) > off.index(0):
                continue
            s = cc.build(sp, CRng(1))
            base = answers(s, [])
            if s.is_composite():
                rec.fail('detach flag', 'a plain state is composite')
                return
            toks = {}
            seen = {frozenset(): base}
            live = []
            for i in picks:
                o, inp = mods[i]
                toks[i] = s.compose_cgpm(nets.Table(o, inp, s.rng,
                    seed=i + 3))
                live.append(i)
                seen[frozenset(live)] = answers(s, live)
                rec.trans()
            if len(set(toks.values())) < len(toks):
                rec.fail('detach tokens', 'tokens repeat: %s' % (toks,))
                return
            for i in off:
                s.decompose_cgpm(toks[i])
                live.remove(i)
                rec.trans()
                rec.eval()
                got = answers(s, live)
                want = seen.get(frozenset(live))
                if want is None:
                    t = cc.build(sp, CRng(1))
                    for j in live:
                        t.compose_cgpm(nets.Table(mods[j][0], mods[j][1],
                            t.rng, seed=j + 3))
                    want = answers(t, live)
                if got != want:
                    rec.fail('detach answers', 'attached %s, detached up to '
                        '%d leaving %s: %s, expected %s' % (picks, i, live,
                        got, want))
                    return
                if s.is_composite() != bool(live):
                    rec.fail('detach flag', 'models %s attached but '
                        'composite is %r' % (live, s.is_composite()))
                    return
                e = mc.raises(s.simulate, -1, [mods[i][0][0]])
                if e is None:
                    rec.fail('detach gone', 'a detached model still answers')
                    return
            rec.state((tuple(case['detach']), picks, off))


def answers(s, live):
    """Exact laws of a fixed set of queries."""
    out = {}
    names = {0: 20, 1: 30, 2: 40, 3: 50}
    qs = [({6: 1.}, {}), ({1: 0.}, {6: 0.}), ({6: 0., 1: 1.}, {})]
    for i in live:
        qs += [({names[i]: 1}, {}), ({names[i]: 0, 1: 1.}, {6: 1.})]
    for t, c in qs:
        d = distribution(s.rng, lambda: ask(s, t, c, {}, rowid=-1))
        out['p%s|%s' % (t, c)] = {k: round(p, 7) for k, p in d.items()}
        d = distribution(s.rng, lambda: tuple(sorted(
            (k, float(x)) for k, x in s.simulate(-1, list(t), c).items())))
        out['s%s|%s' % (t, c)] = {k: round(p, 7) for k, p in d.items()}
    return out


# ------------------------------------------------- states that keep changing
MODELS = {20: ([20], [1]), 30: ([30, 31], [6]), 50: ([50], [20, 4])}


def live_answers(s, models):
    outs = list(s.outputs)
    qs = [({c: 1.}, {}) for c in outs]
    qs += [({a: 0.}, {b: 1.}) for a, b in itertools.combinations(outs, 2)]
    qs += [({c: 0. for c in outs}, {})]
    for m in sorted(models):
        qs += [({m: 1}, {}), ({m: 0, outs[0]: 1.}, {outs[-1]: 0.})]
    out = {}
    for t, c in qs:
        d = distribution(s.rng, lambda: ask(s, t, c, {}, rowid=-1))
        out['p%s|%s' % (t, c)] = {k: round(p, 7) for k, p in d.items()}
    for t, c in [(outs, {})] + [(outs[:1] + [m], {outs[-1]: 1.})
            for m in models]:
        d = distribution(s.rng, lambda: tuple(sorted((k, float(x))
            for k, x in s.simulate(-1, list(t), c).items())))
        out['s%s|%s' % (t, c)] = {k: round(p, 7) for k, p in d.items()}
    return out


def attach(s, name):
    o, i = MODELS[name]
    return s.compose_cgpm(nets.Table(o, i, s.rng, seed=name))


def renewed(s, models):
    """A new state with the same contents and models."""
    from cgpm.crosscat.state import State
    d = mc_copy(s)
    for token in sorted(models.values(), reverse=True):
        d.decompose_cgpm(token)
    w = State.from_metadata(d.to_metadata(), rng=CRng(1))
    for m in sorted(models):
        attach(w, m)
    return w


def mc_copy(s):
    import copy
    return copy.deepcopy(s)


def live_moves(s, models):
    """(label, state, models) after every edit of the state."""
    def copy():
        return mc_copy(s)
    outs = list(s.outputs)
    for c in outs:
        seen = set()

        def move():
            d = copy()
            d.transition_dims(cols=[c])
            return d
        for _p, d, _c in explore(s.rng, move):
            k = repr(sorted(d.Zv().items()))
            if k not in seen:
                seen.add(k)
                yield 'move %d -> %s' % (c, k), d, models
    for c in outs:
        used = any(c in MODELS[m][1] for m in models)
        if not used and len(outs) > 1:
            d = copy()
            d.unincorporate_dim(c)
            yield 'remove %d' % c, d, models
    if 9 not in outs:
        for v in sorted(s.views) + [max(s.views) + 1]:
            d = copy()
            d.incorporate_dim([1., 0., 1., 1., 0.][:s.n_rows()], [9],
                cctype='bernoulli', v=v)
            yield 'add 9 to %d' % v, d, models
    d = copy()
    d.incorporate(s.n_rows(), {**{c: 1. for c in outs},
        **{v.outputs[0]: 0 for v in d.views.values()}})
    yield 'row', d, models
    if s.n_rows() > 2:
        d = copy()
        d.unincorporate(s.n_rows() - 1)
        yield 'unrow', d, models
    for m in sorted(MODELS):
        if m in models:
            if m == 20 and 50 in models:
                continue
            d = copy()
            d.decompose_cgpm(models[m])
            yield 'detach %d' % m, d, {k: t for k, t in models.items()
                if k != m}
        elif m != 50 or (20 in models and 4 in outs):
            d = copy()
            yield 'attach %d' % m, d, {**models, m: attach(d, m)}


def live(case, rec):
    sp = cc.spec('bCb', 3, case['live'], {v: [0, 1, v % 2]
        for v in set(case['live'])}, outputs=[6, 1, 4])
    s = cc.build(sp, CRng(1))
    models = {}
    for m in case['models']:
        models[m] = attach(s, m)
    seen = set()

    def walk(s, models, path, depth):
        first = live_answers(s, models)
        fresh = renewed(s, models)
        want = live_answers(fresh, models)
        rec.eval(len(want))
        rec.trace()
        if first != want:
            bad = [k for k in want if first.get(k) != want[k]][:2]
            rec.fail('live answers', 'rows and columns %s, models %s, after '
                '%s: %s, a new state with the same contents and models '
                'answers %s' % (case['live'], case['models'], path,
                {k: first.get(k) for k in bad}, {k: want[k] for k in bad}))
            return False
        if depth == 0:
            return True
        for label, d, ms in live_moves(s, models):
            rec.trans()
            rec.outcome(label)
            k = (tuple(path), label)
            rec.state(repr(k))
            if len(path) and label.startswith(('attach', 'detach')) and \
                    case['quick']:
                continue
            if not walk(d, ms, path + [label], depth - 1):
                return False
        return True
    with rec.guard('live answers'):
        walk(s, models, [], case['depth'])


def run_case(case, rec):
    if 'live' in case:
        return live(case, rec)
    if 'net' in case:
        return network(case, rec)
    if 'zv' in case:
        return state(case, rec)
    if 'refused' in case:
        return refused(case, rec)
    return detach(case, rec)
