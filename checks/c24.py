"""Exchanging a model with an external engine loses nothing."""
import builtins
import copy
import csv
import gzip
import itertools
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import types

import numpy as np

import cc
import mc
import ref
from crng import CRng

PID = 'C24'
RULE = ('recording stand-ins for both external engines: every pair of column '
    'x row partitions before and after over small tables (with gapped names, '
    'disordered bookkeeping and permuted labels), all sequences of exchanges '
    'and edits up to the depth, every combination of budgets, constraints and '
    'diagnostics, all refusals; what the engine is shown is decoded and '
    'compared with the model, the model afterwards with what was returned')
ASSUMPTIONS = ['the engines are stand-ins which follow the interfaces used '
    'by the code', 'one path of random draws per edit in the histories']
NAN = float('nan')
CC_HYPERS = {'m': 'mu', 'nu': 'nu', 'r': 'r', 's': 's'}


# ------------------------------------------------------ stand-in: crosscat
LOG = []
PLAN = [None]
DIAG = [None]


class LocalEngine(object):
    def __init__(self, seed=None):
        self.seed = seed

    def analyze(self, M_c, T, X_L, X_D, seed, kernel_list=(), n_steps=1,
            c=(), r=(), max_iterations=-1, max_time=-1,
            do_diagnostics=False, diagnostics_every_N=1, progress=None,
            **kw):
        call = copy.deepcopy({'M_c': M_c, 'T': T, 'X_L': X_L, 'X_D': X_D,
            'kernels': list(kernel_list), 'n_steps': n_steps,
            'max_time': max_time, 'c': list(c), 'r': list(r),
            'diag': do_diagnostics, 'every': diagnostics_every_N,
            'progress': bool(progress)})
        LOG.append(call)
        if progress:
            progress(n_steps, max_time, 0, 0.)
            progress(n_steps, max_time, n_steps, .5)
            progress(n_steps, max_time, n_steps, .5, end=True)
        zv, zr, alpha, valphas = PLAN[0](call)
        new_L, new_D = copy.deepcopy(X_L), [list(z) for z in zr]
        k = max(zv) + 1
        assert len(new_D) == k
        new_L['column_partition'] = {'assignments': list(zv), 'counts':
            [list(zv).count(j) for j in range(k)],
            'hypers': {'alpha': alpha}}
        names = [M_c['idx_to_name'][str(i)] for i in range(len(zv))]
        new_L['view_state'] = [{
            'column_component_suffstats': [
                [{} for _ in set(zr[j])] for z in zv if z == j],
            'column_names': [n for n, z in zip(names, zv) if z == j],
            'row_partition_model': {'counts': [zr[j].count(t)
                for t in sorted(set(zr[j]))],
                'hypers': {'alpha': valphas[j]}}} for j in range(k)]
        if do_diagnostics:
            return new_L, new_D, copy.deepcopy(DIAG[0])
        return new_L, new_D


def neighbours(pairs):
    out = {}
    for a, b in pairs:
        out.setdefault(a, set()).add(b)
        out.setdefault(b, set()).add(a)
    return out


class Legacy(dict):
    def iteritems(self):
        return iter(self.items())


def install():
    c = types.ModuleType('crosscat')
    c.__path__ = []
    le = types.ModuleType('crosscat.LocalEngine')
    le.LocalEngine = LocalEngine
    u = types.ModuleType('crosscat.utils')
    u.__path__ = []
    g = types.ModuleType('crosscat.utils.general_utils')
    g.get_scc_from_tuples = lambda t: Legacy(neighbours(t))
    c.LocalEngine, c.utils, u.general_utils = le, u, g
    lo = types.ModuleType('loom')
    lo.__path__ = []
    subs = {'cleanse': {'force_ascii': force_ascii},
        'tasks': {'transform': transform, 'ingest': ingest,
            'infer_one': infer_one, 'infer': infer},
        'schema_pb2': {'CrossCat': CrossCat},
        'cFormat': {'assignment_stream_load': assignment_stream_load}}
    mods = {'crosscat': c, 'crosscat.LocalEngine': le, 'crosscat.utils': u,
        'crosscat.utils.general_utils': g, 'loom': lo}
    for name, members in subs.items():
        m = types.ModuleType('loom.' + name)
        for k, v in members.items():
            setattr(m, k, v)
        setattr(lo, name, m)
        mods['loom.' + name] = m
    d = types.ModuleType('distributions')
    dio = types.ModuleType('distributions.io')
    ds = types.ModuleType('distributions.io.stream')
    d.__path__ = dio.__path__ = []
    ds.json_load = lambda p: json.load(gzip.open(p, 'rt'))
    ds.open_compressed = gzip.open
    d.io, dio.stream = dio, ds
    mods.update({'distributions': d, 'distributions.io': dio,
        'distributions.io.stream': ds})
    sys.modules.update(mods)


# ---------------------------------------------------------- stand-in: loom
# The data are read when they are ingested, and never again.
def force_ascii(source, dest):
    with open(source) as f, gzip.open(dest, 'wt') as g:
        g.write(f.read())


def transform(results, schema_file, cleansed):
    os.makedirs(os.path.join(results, 'ingest'), exist_ok=True)
    with open(schema_file, newline='') as f:
        rows = list(csv.reader(f))
    tables = []
    for name in sorted(os.listdir(cleansed)):
        with gzip.open(os.path.join(cleansed, name), 'rt', newline='') as f:
            tables.append(list(csv.reader(f)))
    with open(os.path.join(results, 'ingest', 'raw.json'), 'w') as f:
        json.dump({'schema': rows, 'tables': tables}, f)


def ingest(results):
    raw = json.load(open(os.path.join(results, 'ingest', 'raw.json')))
    # Features are sorted by type, then by name.
    feats = sorted((t, n) for n, t in raw['schema'][1:])
    with gzip.open(os.path.join(results, 'ingest', 'encoding.json.gz'),
            'wt') as f:
        json.dump([{'name': n, 'model': t} for t, n in feats], f)


def loom_view(results):
    raw = json.load(open(os.path.join(results, 'ingest', 'raw.json')))
    rows = [r for t in raw['tables'] for r in t[1:]]
    head = raw['tables'][0][0]
    types_ = dict((n, t) for n, t in raw['schema'][1:])
    return {int(n[1:]): (types_.get(n), [
        float(r[i]) if r[i] != '' else NAN for r in rows])
        for i, n in enumerate(head)}


def infer_one(results, seed=0, config=None, **kw):
    seen = loom_view(results)
    feats = [int(f['name'][1:]) for f in json.load(gzip.open(os.path.join(
        results, 'ingest', 'encoding.json.gz'), 'rt'))]
    LOG.append({'data': seen, 'seed': seed, 'results': results,
        'passes': (config or {}).get('schedule', {}).get('extra_passes')})
    zv, zr = PLAN[0]({'outputs': feats, 'seed': seed,
        'n': len(next(iter(seen.values()))[1])})
    d = os.path.join(results, 'samples', 'sample.%d' % seed)
    os.makedirs(d, exist_ok=True)
    kinds = [[i for i, f in enumerate(feats) if zv[f] == k]
        for k in range(len(zr))]
    with gzip.open(os.path.join(d, 'model.pb.gz'), 'wb') as f:
        f.write(json.dumps(kinds).encode())
    order = list(range(len(zr[0])))
    order = order[1::2] + order[::2][::-1]
    with gzip.open(os.path.join(d, 'assign.pbs.gz'), 'wb') as f:
        f.write(json.dumps([[r, [z[r] for z in zr]]
            for r in order]).encode())


def infer(results, sample_count=10, config=None, **kw):
    for s in range(sample_count):
        infer_one(results, seed=s, config=config)


class Kind(object):
    def __init__(self, f):
        self.featureids = f


class CrossCat(object):
    def ParseFromString(self, data):
        self.kinds = [Kind(f) for f in json.loads(data)]


class Assignment(object):
    def __init__(self, rowid, groups):
        self.rowid = rowid
        self.groups = groups

    def groupids(self, k):
        return self.groups[k]


def assignment_stream_load(path):
    return (Assignment(r, g) for r, g in json.loads(
        gzip.open(path, 'rb').read()))


def loomcat():
    from cgpm.crosscat import loomcat as m
    # Files for the csv module are opened in text mode in Python 3.
    if 'open' not in vars(m):
        m.open = lambda p, mode='r': builtins.open(
            p, mode.replace('b', ''), newline='')
    return m


def few_workers():
    from cgpm.utils import parallel_map as m
    for mod in (m, multiprocessing):
        if hasattr(mod, 'cpu_count'):
            mod.cpu_count = lambda: 2


# ----------------------------------------------------------------- oracle
def same(a, b):
    return cc.same_data(a, b)


def decode(call):
    """The model which the engine is shown, by column."""
    bad = []
    M, T, L, D = call['M_c'], call['T'], call['X_L'], call['X_D']
    n = len(M['name_to_idx'])
    names = [M['idx_to_name'][str(i)] for i in range(n)]
    if any(M['name_to_idx'][names[i]] != i for i in range(n)):
        bad.append('names %s %s' % (M['name_to_idx'], M['idx_to_name']))
    outs = [int(x[1:]) for x in names]
    if any(len(row) != n for row in T):
        bad.append('T has rows of other lengths than %d' % n)
    cols = {}
    for i, o in enumerate(outs):
        md = M['column_metadata'][i]
        vals = [row[i] for row in T]
        if md['modeltype'] == 'normal_inverse_gamma':
            h = {k: L['column_hypers'][i][CC_HYPERS[k]] for k in CC_HYPERS}
            cols[o] = ('normal', vals, h)
        else:
            v2c, c2v = md['value_to_code'], md['code_to_value']
            if {str(v): k for k, v in c2v.items()} != dict(v2c):
                bad.append('codes of column %s: %s' % (o, md))
            if sorted(c2v.values()) != list(range(len(c2v))):
                bad.append('codes of column %s are not 0.. : %s' % (o, c2v))
            if L['column_hypers'][i]['K'] != len(c2v):
                bad.append('K of column %s' % o)
            vals = [NAN if x != x else float(v2c[str(int(x))]) for x in vals]
            cols[o] = ('categorical', vals,
                {'alpha': L['column_hypers'][i]['dirichlet_alpha']})
    cp = L['column_partition']
    zv = list(cp['assignments'])
    if list(cp['counts']) != [zv.count(k) for k in range(max(zv) + 1)]:
        bad.append('column counts %s of %s' % (cp['counts'], zv))
    if len(D) != max(zv) + 1 or len(L['view_state']) != len(D):
        bad.append('%d views, %d row partitions' % (max(zv) + 1, len(D)))
    for k, vs in enumerate(L['view_state']):
        mine = sorted(x for x, z in zip(names, zv) if z == k)
        if sorted(vs['column_names']) != mine:
            bad.append('view %d: names %s, columns %s' % (k,
                vs['column_names'], mine))
        z = list(D[k])
        cnt = vs['row_partition_model']['counts']
        if list(cnt) != [z.count(t) for t in range(max(z) + 1)]:
            bad.append('view %d: row counts %s of %s' % (k, cnt, z))
        ss = vs['column_component_suffstats']
        if len(ss) != len(mine) or any(len(s) != len(set(z)) for s in ss):
            bad.append('view %d: suffstats %s' % (k, ss))
    model = {o: (cols[o], zv[i], list(D[zv[i]]),
        L['view_state'][zv[i]]['row_partition_model']['hypers']['alpha'])
        for i, o in enumerate(outs)}
    return outs, model, cp['hypers']['alpha'], bad


def check_seen(rec, key, call, snap, hist=None):
    outs, model, alpha, bad = decode(call)
    if sorted(outs) != sorted(snap['outputs']):
        bad.append('columns %s, model has %s' % (outs, snap['outputs']))
        rec.fail(key + ': shown to the engine', '; '.join(bad), history=hist)
        return
    for o in outs:
        (t, vals, h), z, zr, a = model[o]
        st, sh, sd, svals = snap['cols'][o]
        sz, sa = snap['views'][snap['Zv'][o]]
        if t != st:
            bad.append('type of %s: %s' % (o, t))
        if not same(vals, svals):
            bad.append('data of %s: %s, model has %s' % (o, vals, svals))
        if set(h) != set(sh) or any(not ref.close(h[k], sh[k]) for k in h):
            bad.append('settings of %s: %s, model has %s' % (o, h, sh))
        if ref.canon_partition(zr) != ref.canon_partition(sz):
            bad.append('rows of column %s: %s, model has %s' % (o, zr, sz))
        if not ref.close(a, sa):
            bad.append('concentration of the view of %s: %s, model has %s'
                % (o, a, sa))
    if ref.canon_partition([model[o][1] for o in outs]) != \
            ref.canon_partition([snap['Zv'][o] for o in outs]):
        bad.append('columns %s, model has %s'
            % ([model[o][1] for o in outs], snap['Zv']))
    if not ref.close(alpha, snap['alpha']):
        bad.append('concentration %s, model has %s' % (alpha, snap['alpha']))
    if bad:
        rec.fail(key + ': shown to the engine', '; '.join(bad[:3]),
            history=hist, snapshot=snap)


def check_after(rec, key, state, snap, zv, zr, alpha=None, valphas=None,
        hypers=True, hist=None, queries=True, verify=True):
    """zv: {column: view}; zr: rows of every view; None: not returned."""
    got = cc.snapshot(state)
    bad = []
    outs = snap['outputs']
    if got['outputs'] != outs:
        bad.append('columns %s, were %s' % (got['outputs'], outs))
    else:
        if ref.canon_partition([got['Zv'][o] for o in outs]) != \
                ref.canon_partition([zv[o] for o in outs]):
            bad.append('columns %s, engine returned %s' % (got['Zv'], zv))
        for o in outs:
            z, a = got['views'][got['Zv'][o]]
            if ref.canon_partition(z) != ref.canon_partition(zr[zv[o]]):
                bad.append('rows of column %s: %s, engine returned %s'
                    % (o, z, zr[zv[o]]))
            if valphas is not None and not ref.close(a, valphas[zv[o]]):
                bad.append('concentration of the view of %s: %s, engine '
                    'returned %s' % (o, a, valphas[zv[o]]))
            a, b = got['cols'][o], snap['cols'][o]
            if a[0] != b[0] or a[2] != b[2]:
                bad.append('type of %s: %s, was %s' % (o, a, b))
            if not same(a[3], b[3]):
                bad.append('data of %s: %s, were %s' % (o, a[3], b[3]))
            if hypers and a[1] != b[1]:
                bad.append('settings of %s: %s, were %s' % (o, a[1], b[1]))
        if alpha is not None and not ref.close(got['alpha'], alpha):
            bad.append('concentration %s, expected %s' % (got['alpha'],
                alpha))
    if bad:
        rec.fail(key + ': afterwards', '; '.join(bad[:3]), history=hist)
    elif verify:
        cc.verify(rec, key + ': afterwards', state,
            {o: snap['cols'][o][3] for o in outs}, queries=queries,
            hist=hist)
    rec.state(cc.canon(got))
    return got


# ------------------------------------------------------------------- cases
def shapes(ncols, nrows):
    for zv in ref.partitions(ncols):
        for zr in itertools.product(ref.partitions(nrows),
                repeat=max(zv) + 1):
            yield list(zv), [list(z) for z in zr]


def relabel(zv, zr):
    """The same partition with other (contiguous) labels."""
    k = max(zv) + 1
    return [k - 1 - z for z in zv], [[max(z) - t for t in z]
        for z in zr[::-1]]


NAMES = [[0, 1, 2], [7, 2, 30], [4, 0, 1]]
OUTS = [[0, 1, 2], [6, 1, 4], [12, 3, 100]]


def spec(i, kinds, zv, zr, missing=()):
    names = NAMES[i % 3]
    n = len(zr[0])
    gap = [{0: 0, 1: 1, 2: 2}, {0: 4, 1: 0, 2: 9}][i % 2]
    return cc.spec(kinds, n, [names[z] for z in zv],
        {names[v]: [gap[t] for t in z] for v, z in enumerate(zr)},
        alpha=.9 + .1 * (i % 4), missing=missing,
        outputs=OUTS[i // 2 % 3][:len(kinds)])


def cases(tier):
    quick = tier == 'quick'
    for eng in ('lovecat', 'loom'):
        for j in range(8 if not quick else 4):
            for kinds, n in (('cn', 3), ('nCc', 2)):
                yield {'id': '%s-pairs.%s%d.%d' % (eng, kinds, n, j),
                    'pairs': eng, 'kinds': kinds, 'n': n,
                    'part': (j, 8 if not quick else 4), 'quick': quick}
        for j in range(4):
            yield {'id': '%s-wide.%d' % (eng, j), 'wide': eng,
                'part': (j, 4), 'quick': quick}
        for first in range(len(OPS)):
            yield {'id': '%s-history.%s' % (eng, OPS[first]),
                'history': eng, 'first': first, 'quick': quick}
    yield {'id': 'budgets', 'budgets': 1}
    yield {'id': 'constraints', 'constraints': 1}
    yield {'id': 'diagnostics', 'diagnostics': 1}
    yield {'id': 'refusals', 'refusals': 1}
    yield {'id': 'loom-refusals', 'loomref': 1}
    yield {'id': 'projects', 'projects': 1}
    for mp in (0, 1):
        yield {'id': 'engine.lovecat.%d' % mp, 'engine': 'lovecat', 'mp': mp}
    yield {'id': 'engine.loom', 'engine': 'loom', 'mp': 1}
    yield {'id': 'types', 'types': 1}


def fixed(zv, zr, alpha=.77, valphas=None):
    valphas = valphas or [.35 + .4 * k for k in range(len(zr))]
    return lambda call: (zv, zr, alpha, valphas)


def love_exchange(rec, key, state, zv, zr, hist=None, queries=True,
        direct=True, alpha=.77, verify=True):
    """zv by position.  direct: without the model's own later inference."""
    from cgpm.crosscat import lovecat
    valphas = [.35 + .4 * k for k in range(len(zr))]
    PLAN[0] = fixed(zv, zr, alpha, valphas)
    del LOG[:]
    snap = cc.snapshot(state)
    with rec.guard(key, history=hist):
        if direct:
            lovecat.transition(state, N=1, progress=False)
        else:
            state.transition_lovecat(N=1, progress=False)
        rec.trans()
        if len(LOG) != 1:
            rec.fail(key, 'engine called %d times' % len(LOG))
            return
        check_seen(rec, key, LOG[0], snap, hist)
        names = {n: i for i, n in LOG[0]['M_c']['idx_to_name'].items()}
        by = {o: zv[int(names['c%d' % o])] for o in snap['outputs']}
        check_after(rec, key, state, snap, by, zr,
            alpha if direct else None, valphas if direct else None,
            hypers=direct, hist=hist, queries=queries, verify=verify)


def loom_exchange(rec, key, state, zv, zr, hist=None, queries=True,
        direct=True, N=2, seed=None, verify=True, **kw):
    m = loomcat()
    snap = cc.snapshot(state)
    by = dict(zip(sorted(snap['outputs']), zv))
    PLAN[0] = lambda call: (by, zr)
    del LOG[:]
    with rec.guard(key, history=hist):
        if direct:
            m.transition(state, N=N, seed=seed)
        else:
            state.transition_loom(N=N, seed=seed)
        rec.trans()
        if len(LOG) != 1:
            rec.fail(key, 'engine called %d times' % len(LOG))
            return
        check_loom_seen(rec, key, LOG[0], snap, hist)
        if LOG[0]['passes'] != (1 if N is None else N):
            rec.fail(key + ': passes', '%r, asked for %r'
                % (LOG[0]['passes'], N))
        check_after(rec, key, state, snap, by, zr,
            snap['alpha'] if direct else None, None, hypers=direct,
            hist=hist, queries=queries, verify=verify)


LOOM_TYPES = {'bernoulli': 'boolean', 'categorical': 'categorical',
    'poisson': 'count'}


def check_loom_seen(rec, key, call, snap, hist=None):
    bad = []
    data = call['data']
    if sorted(data) != sorted(snap['outputs']):
        bad.append('columns %s, model has %s' % (sorted(data),
            snap['outputs']))
    else:
        for o, (t, vals) in data.items():
            st, sh, sd, svals = snap['cols'][o]
            if t != LOOM_TYPES.get(st, 'real'):
                bad.append('type of %s: %s, model has %s' % (o, t, st))
            if not same(vals, svals):
                bad.append('data of %s: %s, model has %s' % (o, vals, svals))
    if bad:
        rec.fail(key + ': shown to the engine', '; '.join(bad[:3]),
            history=hist)


EXCHANGE = {'lovecat': love_exchange, 'loom': loom_exchange}


def run_pairs(case, rec):
    ex = EXCHANGE[case['pairs']]
    all_ = list(shapes(len(case['kinds']), case['n']))
    j, parts = case['part']
    pairs = [(a, b) for a in range(len(all_)) for b in range(len(all_))]
    if case['quick']:
        # Every partition before, every one after, and every relation.
        pairs = [(a, b) for a, b in pairs if (a + b) % (2 if
            case['pairs'] == 'lovecat' else 6) == 0]
    for i, (a, b) in enumerate(pairs):
        if i % parts != j:
            continue
        miss = [[], [(0, 0)], [(1, 1)]][i % 3]
        sp = spec(i, case['kinds'], *all_[a], missing=miss)
        state = cc.build(sp, CRng(i))
        zv, zr = all_[b] if i % 2 else relabel(*all_[b])
        ex(rec, 'pair', state, zv, zr, hist=[sp, zv, zr],
            queries=i % 5 == 0, direct=i % 4 != 3)
        rec.trace()


def run_wide(case, rec):
    """Three columns of three rows: every shape before, every one after."""
    ex = EXCHANGE[case['wide']]
    all_ = list(shapes(3, 3))
    j, parts = case['part']
    step = 1 if not case['quick'] else (2 if case['wide'] == 'lovecat'
        else 6)
    for i in range(j, len(all_), parts * step):
        for d in ((1,) if case['quick'] else (1, 7, 40, 111)):
            a, b = all_[i], all_[(i * 3 + d) % len(all_)]
            sp = spec(i + d, 'ncC', *a, missing=[[], [(2, 2)]][i % 2])
            state = cc.build(sp, CRng(i))
            # Disorder the bookkeeping of rows and columns.
            state.transition_view_rows()
            zv, zr = relabel(*b) if i % 2 else b
            ex(rec, 'wide', state, zv, zr, hist=[sp, zv, zr], queries=False)
            rec.trace()


OPS = ['exchange', 'exchange2', 'rows', 'columns', 'inc', 'uninc', 'force',
    'incdim', 'incdim-new', 'unincdim', 'metadata', 'hypers', 'cctype']


def some_shape(k, ncols, nrows):
    zv = [0] + [(k + i) % 2 if ncols > 1 else 0 for i in range(1, ncols)]
    nv = max(zv) + 1
    zr = [[0] + [((k + 1) * (r + v) + v) % 2 for r in range(1, nrows)]
        for v in range(nv)]
    return (zv, zr) if k % 2 else relabel(zv, zr)


def apply(rec, eng, op, state, k, hist):
    """Returns the state, or None if the edit is not enabled."""
    from cgpm.crosscat.state import State
    n, outs = state.n_rows(), list(state.outputs)
    if op.startswith('exchange'):
        zv, zr = some_shape(k + (op == 'exchange2'), len(outs), n)
        EXCHANGE[eng](rec, 'history', state, zv, zr, hist=list(hist),
            direct=op == 'exchange')
    elif op == 'rows':
        state.transition_view_rows()
    elif op == 'columns':
        state.transition_dims()
    elif op == 'inc':
        if n > 5:
            return None
        row = {o: 1. if state.dim_for(o).name() != 'normal' else 2.5 + n
            for o in outs[:-1]}
        row = row or {outs[0]: 1.}
        state.incorporate(n, row)
    elif op == 'uninc':
        if n < 3:
            return None
        state.unincorporate(n - 1)
    elif op == 'force':
        nan = [(r, o) for o in outs for r in range(n)
            if state.X[o][r] != state.X[o][r]]
        if not nan:
            return None
        state.force_cell(nan[0][0], {nan[0][1]: 1.})
    elif op.startswith('incdim'):
        if len(outs) > 4:
            return None
        o = max(outs) + 3 if k % 2 else min(x for x in range(99)
            if x not in outs)
        v = state.Zv(outs[0]) if op == 'incdim' else max(state.views) + 2
        state.incorporate_dim([float((r + k) % 2) for r in range(n)], [o],
            cctype='categorical' if k % 2 else 'normal',
            distargs={'k': 2} if k % 2 else None, v=v)
    elif op == 'unincdim':
        if len(outs) < 2:
            return None
        state.unincorporate_dim(outs[0])
    elif op == 'hypers':
        state.transition_dim_hypers()
        state.transition_crp_alpha()
    elif op == 'cctype':
        cols = [o for o in outs if state.dim_for(o).name() == 'categorical']
        if not cols:
            return None
        state.update_cctype(cols[0], 'normal')
    elif op == 'metadata':
        md = json.loads(json.dumps(state.to_metadata(), default=float))
        state = State.from_metadata(md, rng=state.rng)
    rec.trans()
    return state


def run_history(case, rec):
    eng = case['history']
    depth = 4 if case['quick'] else 5
    sp = cc.spec('ncN' if eng == 'lovecat' else 'cnb', 3, [5, 5, 1],
        {5: [0, 0, 3], 1: [0, 1, 1]}, missing=[(1, 1)], outputs=[4, 0, 9])
    mid = OPS
    for seq in itertools.product(*([[OPS[case['first']]]]
            + [mid] * (depth - 2) + [['exchange']])):
        state = cc.build(sp, CRng(7))
        # An exchange first, so that edits meet a project in use.
        hist = []
        if case['history'] == 'loom':
            hist = ['exchange']
            state = apply(rec, eng, 'exchange', state, 1, hist)
        for k, op in enumerate(seq):
            hist.append(op)
            with rec.guard('history', history=hist):
                state = apply(rec, eng, op, state, k, hist)
            if state is None or rec.fails:
                break
        rec.trace()
        if rec.fails:
            return


# ------------------------------------------------------------ single cases
def base(kinds='ncN', **kw):
    return cc.build(cc.spec(kinds, 3, [5, 5, 1], {5: [0, 0, 3],
        1: [0, 1, 1]}, missing=[(0, 1)], outputs=[4, 0, 9], **kw), CRng(3))


def run_budgets(case, rec):
    from cgpm.crosscat import lovecat
    kernels = [None, ['column_hyperparameters'],
        ['row_partition_assignments', 'column_partition_assignments']]
    plan = fixed([0, 1, 0], [[0, 1, 0], [0, 0, 1]])
    for N, S, ker, rows, cols, prog, direct in itertools.product(
            [None, 1, 7], [None, 2, .5], kernels, [None, [2], [0, 1]],
            [None, [9], [9, 4], [0, 9]], [None, True, False], [0, 1]):
        if direct and (rows or prog):
            continue
        key = 'budget N=%s S=%s kernels=%s rows=%s cols=%s progress=%s' % (
            N, S, ker, rows, cols, prog)
        state = base()
        PLAN[0] = plan
        del LOG[:]
        f = (lambda **k: lovecat.transition(state, **k)) if direct \
            else state.transition_lovecat
        with rec.guard(key):
            f(N=N, S=S, kernels=ker, rowids=rows, cols=cols, progress=prog)
            call = LOG[0]
            rec.trans()
            rec.state(key)
            want = {'kernels': ker or [], 'r': rows or [],
                'c': [[4, 0, 9].index(c) for c in cols or []],
                'diag': False, 'progress': prog is not False}
            bad = ['%s: %r, expected %r' % (k, call[k], want[k])
                for k in want if call[k] != want[k]]
            if N is not None:
                bad += ['n_steps %r' % call['n_steps']] \
                    * (call['n_steps'] != N)
            elif S is None:
                bad += ['n_steps %r' % call['n_steps']] \
                    * (call['n_steps'] != 1)
            else:
                bad += ['n_steps %r' % call['n_steps']] \
                    * (call['n_steps'] < 1000)
            if S is not None:
                bad += ['max_time %r' % call['max_time']] \
                    * (call['max_time'] != S)
            else:
                bad += ['max_time %r' % call['max_time']] \
                    * (call['max_time'] != -1)
            if bad:
                rec.fail(key, '; '.join(bad))
        rec.trace()


def run_constraints(case, rec):
    from cgpm.crosscat.state import State
    from cgpm.crosscat import lovecat
    X = np.array([[.5, 1., 0., 2.], [1.5, 0., 1., -1.], [.2, 1., 1., 0.]])
    for outs in ([0, 1, 2, 3], [6, 2, 9, 0], [3, 2, 1, 0]):
        a, b, c, d = outs
        for Cd, Ci, zv in [
                ([[a, c]], [], [0, 1, 0, 1]),
                ([[c, a, d]], [], [0, 1, 0, 0]),
                ([[a, b], [c, d]], [], [0, 0, 1, 1]),
                ([], [(a, d)], [0, 1, 1, 2]),
                ([], [(a, b), (b, c)], [0, 1, 0, 0]),
                ([[a, b]], [(b, c)], [0, 0, 1, 1]),
                ([[b, d]], [(a, b), (c, d)], [0, 1, 0, 1]),
                ([], [], [0, 1, 0, 1])]:
            for drop in (None, 0, 3):
                key = 'constraints Cd=%s Ci=%s outputs=%s dropped=%s' % (
                    Cd, Ci, outs, drop)
                with rec.guard(key):
                    if drop is not None and any(outs[drop] in x
                            for x in list(Cd) + list(Ci)):
                        continue
                    state = State(X, outputs=list(outs), cctypes=['normal',
                        'categorical', 'categorical', 'normal'],
                        distargs=[None, {'k': 2}, {'k': 2}, None],
                        Zv=dict(zip(outs, zv)), Cd=copy.deepcopy(Cd),
                        Ci=copy.deepcopy(Ci), rng=CRng(4))
                    if drop is not None:
                        state.unincorporate_dim(outs[drop])
                    snap = cc.snapshot(state)
                    idx = {o: i for i, o in enumerate(state.outputs)}
                    new = ref.canon_partition([snap['Zv'][o]
                        for o in state.outputs])
                    zr = [[0, v % 2, 1] for v in range(max(new) + 1)]
                    zr = [list(ref.canon_partition(z)) for z in zr]
                    PLAN[0] = fixed(list(new), zr)
                    del LOG[:]
                    lovecat.transition(state, N=1, progress=False)
                    rec.trans()
                    rec.state(key)
                    check_seen(rec, key, LOG[0], snap)
                    ens = LOG[0]['X_L']['col_ensure']
                    dep = {}
                    for blk in Cd:
                        for o in blk:
                            dep[idx[o]] = {idx[x] for x in blk} - {idx[o]}
                    ind = neighbours([(idx[x], idx[y]) for x, y in Ci])
                    for name, want in (('dependent', dep),
                            ('independent', ind)):
                        got = {int(k): set(v) - {int(k)}
                            for k, v in ens.get(name, {}).items()}
                        if got != want:
                            rec.fail(key, '%s: %s, expected %s (column '
                                'positions)' % (name, got, want))
                    check_after(rec, key, state, snap,
                        dict(zip(state.outputs, new)), zr, .77,
                        queries=False)
                    if state.Cd != Cd or state.Ci != Ci:
                        rec.fail(key, 'constraints changed: %s %s'
                            % (state.Cd, state.Ci))
                rec.trace()


def run_diagnostics(case, rec):
    plan = fixed([0, 1, 0], [[0, 1, 0], [0, 0, 1]])
    for counts in itertools.product([None, 1, 3], repeat=2):
        for every in (1, 2):
            key = 'diagnostics %s every %d' % (list(counts), every)
            with rec.guard(key):
                state = base()
                want = {'logscore': [], 'column_crp_alpha': [],
                    'column_partition': []}
                for j, c in enumerate(counts):
                    PLAN[0] = plan
                    del LOG[:]
                    if c is None:
                        state.transition_lovecat(N=2, progress=False)
                        continue
                    ls = [[-1. - j - i] for i in range(c)]
                    al = [[.5 + j + i] for i in range(c)]
                    asg = [[(i + k + j) % 3 for i in range(c)]
                        for k in range(3)]
                    DIAG[0] = {'logscore': np.array(ls),
                        'column_crp_alpha': np.array(al),
                        'column_partition_assignments':
                            np.array(asg)[:, :, None]}
                    state.transition_lovecat(N=2, progress=False,
                        checkpoint=every)
                    call = LOG[0]
                    if not call['diag'] or call['every'] != every:
                        rec.fail(key, 'engine asked for %s every %s'
                            % (call['diag'], call['every']))
                    want['logscore'] += [x[0] for x in ls]
                    want['column_crp_alpha'] += [x[0] for x in al]
                    want['column_partition'] += [[(o, asg[k][i])
                        for k, o in enumerate(state.outputs)]
                        for i in range(c)]
                for k, w in want.items():
                    got = list(state.diagnostics.get(k, []))
                    if got and k == 'column_partition':
                        got = [[tuple(x) for x in p] for p in got]
                    if got != w:
                        rec.fail(key, '%s: %s, engine returned %s'
                            % (k, got, w))
                rec.trans(2)
                rec.state(key)
            rec.trace()


def untouched(rec, key, state, snap, f, kinds=(ValueError,)):
    before = cc.canon(snap)
    del LOG[:]
    e = mc.raises(f)
    rec.trans()
    rec.state(key)
    if not isinstance(e, kinds):
        rec.fail(key, 'not refused: %r' % (e,))
    elif cc.canon(cc.snapshot(state)) != before:
        rec.fail(key, 'refused, but the model changed')
    elif LOG:
        rec.fail(key, 'refused, but the engine was used')
    rec.trace()


def run_refusals(case, rec):
    from cgpm.crosscat.state import State
    for k in 'bpeglv':
        for pos in range(3):
            kinds = 'nc'
            kinds = kinds[:pos] + k + kinds[pos:]
            state = base(kinds)
            untouched(rec, 'lovecat on %s' % cc.KINDS[k][0], state,
                cc.snapshot(state), lambda: state.transition_lovecat(N=1,
                progress=False))
    X = np.array([[.5, 1., 2.], [1.5, 0., -1.], [.2, 1., 0.]])
    for what in ('lovecat', 'loom'):
        state = State(X, outputs=[4, 0, 9], cctypes=['normal', 'categorical',
            'normal'], distargs=[None, {'k': 2}, None], Zv={4: 0, 0: 0,
            9: 1}, rng=CRng(4))
        state.update_cctype(4, 'linear_regression')
        snap = structure(state)
        f = state.transition_lovecat if what == 'lovecat' \
            else state.transition_loom
        loomcat()
        e = mc.raises(f, N=1)
        rec.trans()
        if not isinstance(e, ValueError):
            rec.fail('%s on a conditional column' % what,
                'not refused: %r' % (e,))
        elif structure(state) != snap:
            rec.fail('%s on a conditional column' % what, 'refused, but the '
                'model changed')
    # Columns that do not exist.
    state = base()
    PLAN[0] = fixed([0, 1, 0], [[0, 1, 0], [0, 0, 1]])
    untouched(rec, 'lovecat on an unknown column', state, cc.snapshot(state),
        lambda: state.transition_lovecat(N=1, cols=[4, 77], progress=False))


def structure(state):
    return ({c: state.Zv(c) for c in state.outputs}, {v: [
        state.views[v].Zr(r) for r in range(state.n_rows())]
        for v in state.views}, {c: list(map(repr, state.X[c]))
        for c in state.outputs}, state.alpha())


def run_loomref(case, rec):
    from cgpm.crosscat.engine import Engine
    loomcat()
    bad = [{'S': 1}, {'N': 2, 'S': 3}, {'kernels': ['alpha']},
        {'kernels': []}, {'progress': True}, {'progress': False},
        {'checkpoint': 2}]
    for k in bad:
        state = base()
        untouched(rec, 'loom %s' % (k,), state, cc.snapshot(state),
            lambda: state.transition_loom(**k))
        if os.path.exists(os.environ['CGPM_LOOM_STORE']) and \
                os.listdir(os.environ['CGPM_LOOM_STORE']):
            rec.fail('loom %s' % (k,), 'refused, but a project was made')
        eng = engine_of(2)
        snaps = [cc.canon(cc.snapshot(s)) for s in eng.states]
        e = mc.raises(eng.transition_loom, **k)
        rec.trans()
        if not isinstance(e, ValueError):
            rec.fail('engine loom %s' % (k,), 'not refused: %r' % (e,))
        elif [cc.canon(cc.snapshot(s)) for s in eng.states] != snaps:
            rec.fail('engine loom %s' % (k,), 'refused, but changed')
    # All budgets and sample numbers.
    for N, seed in itertools.product([None, 1, 5], [None, 0, 3]):
        state = base()
        loom_exchange(rec, 'loom N=%s seed=%s' % (N, seed), state,
            [0, 1, 0], [[0, 1, 0], [0, 0, 1]], N=N, seed=seed)
        if LOG and LOG[0]['seed'] != (seed or 0):
            rec.fail('loom seed', '%s' % LOG[0]['seed'])
        rec.state(('budget', N, seed))


def engine_of(n, kinds='ncN'):
    from cgpm.crosscat.engine import Engine
    sp = cc.spec(kinds, 3, [5, 5, 1], {5: [0, 0, 3], 1: [0, 1, 1]},
        missing=[(0, 1)], outputs=[4, 0, 9])
    cols = cc.data(sp)
    eng = Engine(np.array(cols).T, outputs=[4, 0, 9],
        cctypes=[cc.KINDS[k][0] for k in kinds],
        distargs=[cc.KINDS[k][1] for k in kinds], num_states=n,
        rng=np.random.RandomState(5), multiprocess=0)
    return eng


def run_projects(case, rec):
    """Models exchanged one after the other, or together, keep apart."""
    loomcat()
    for n in (2, 3):
        states = []
        for i in range(n):
            kinds = ['ncN', 'Cpb', 'gln'][i]
            states.append(cc.build(cc.spec(kinds, 3, [5, 5, 1],
                {5: [0, 0, 3], 1: [0, 1, 1]}, outputs=[[4, 0, 9], [1, 2, 3],
                [4, 0, 9]][i]), CRng(i)))
        for seq in itertools.product(range(n), repeat=3):
            sts = [copy.deepcopy(s) for s in states]
            for k, i in enumerate(seq):
                zv, zr = some_shape(k + i, 3, 3)
                loom_exchange(rec, 'models %s, number %d' % (list(seq), k),
                    sts[i], zv, zr, queries=False)
            rec.trace()
            if rec.fails:
                return


def turned(call):
    """Reverse the rows and give every column its own view."""
    zv, zr = call['X_L']['column_partition']['assignments'], call['X_D']
    new = [[max(zr[z]) - t for t in zr[z][::-1]] for z in zv]
    return (list(range(len(zv))), new, .77, [.3 + .2 * i
        for i in range(len(zv))])


def run_engine(case, rec):
    from cgpm.crosscat.engine import Engine
    few_workers()
    if case['engine'] == 'lovecat':
        for n in (1, 2, 3):
            for sel in [None] + [list(s) for r in range(1, n + 1)
                    for s in itertools.permutations(range(n), r)]:
                eng = engine_of(n)
                snaps = [cc.snapshot(s) for s in eng.states]
                PLAN[0] = turned
                key = 'engine of %d, states %s' % (n, sel)
                with rec.guard(key):
                    eng.transition_lovecat(N=1, progress=False, statenos=sel,
                        multiprocess=case['mp'])
                    rec.trans()
                    for i, s in enumerate(eng.states):
                        if sel is not None and i not in sel:
                            if cc.canon(cc.snapshot(s)) != \
                                    cc.canon(snaps[i]):
                                rec.fail(key, 'state %d changed' % i)
                            continue
                        sn = snaps[i]
                        by = {o: k for k, o in enumerate(sn['outputs'])}
                        zr = [sn['views'][sn['Zv'][o]][0][::-1]
                            for o in sn['outputs']]
                        check_after(rec, key + ' state %d' % i, s, sn, by,
                            zr, hypers=False)
                rec.trace()
        return
    m = loomcat()
    for n in (1, 2, 3):
        for pre in ('', 'own', 'add', 'again', 'inc', 'metadata'):
            for N in (None, 1, 4):
                if pre and N == 4:
                    continue
                eng = engine_of(n)
                key = 'loom engine of %d, N=%s, %s' % (n, N, pre)
                with rec.guard(key):
                    plan = engine_plan(0)
                    PLAN[0] = plan
                    if pre == 'own':
                        eng.states[-1].transition_loom(N=1, seed=0)
                    if pre in ('again', 'inc', 'metadata', 'add'):
                        eng.transition_loom(N=1)
                    if pre == 'add':
                        eng.add_state(multiprocess=0)
                    if pre == 'inc':
                        eng.incorporate(3, {4: 1., 0: 2., 9: .25},
                            multiprocess=0)
                    if pre == 'metadata':
                        md = json.loads(json.dumps(eng.to_metadata(),
                            default=float))
                        eng = Engine.from_metadata(md,
                            rng=np.random.RandomState(2))
                    snaps = [cc.snapshot(s) for s in eng.states]
                    del LOG[:]
                    PLAN[0] = engine_plan(1)
                    eng.transition_loom(N=N)
                    rec.trans()
                    if [c['seed'] for c in LOG] != \
                            list(range(eng.num_states())):
                        rec.fail(key, 'samples %s' % [c['seed']
                            for c in LOG])
                        continue
                    for i, s in enumerate(eng.states):
                        sn = snaps[i]
                        check_loom_seen(rec, key, LOG[i], sn)
                        if LOG[i]['passes'] != (1 if N is None else N):
                            rec.fail(key, 'passes %s' % LOG[i]['passes'])
                        by, zr = PLAN[0]({'outputs': sn['outputs'],
                            'seed': i, 'n': sn['n']})
                        check_after(rec, key + ' state %d' % i, s, sn, by,
                            zr, hypers=False)
                rec.trace()


def engine_plan(k):
    def plan(call):
        zv, zr = some_shape(k + call['seed'], len(call['outputs']),
            call['n'])
        return dict(zip(sorted(call['outputs']), zv)), zr
    return plan


def run_types(case, rec):
    """Loom orders columns by type: all orders of types and names."""
    for kinds in itertools.permutations('cpn'):
        for outs in itertools.permutations([2, 10, 31]):
            for miss in ([], [(0, 1), (2, 0)]):
                sp = cc.spec(''.join(kinds), 3, [0, 1, 1],
                    {0: [0, 0, 1], 1: [0, 1, 1]}, outputs=list(outs),
                    missing=miss)
                for zv, zr in (([0, 1, 2], [[0, 1, 2], [0, 0, 1],
                        [0, 0, 0]]), ([1, 0, 1], [[0, 1, 1], [1, 0, 1]])):
                    loom_exchange(rec, 'types %s %s' % (kinds, outs),
                        cc.build(sp, CRng(2)), zv, zr, queries=False)
                rec.trace()
    for kinds in ('bgl', 'evp', 'CNv'):
        for zv, zr in shapes(3, 2):
            sp = cc.spec(kinds, 2, [0, 1, 1], {0: [0, 0], 1: [0, 1]},
                outputs=[100001, 5, 77])
            loom_exchange(rec, 'types %s' % kinds, cc.build(sp, CRng(2)),
                zv, zr, queries=False)
            rec.trace()


RUN = [('pairs', run_pairs), ('wide', run_wide), ('history', run_history),
    ('budgets', run_budgets), ('constraints', run_constraints),
    ('diagnostics', run_diagnostics), ('refusals', run_refusals),
    ('loomref', run_loomref), ('projects', run_projects),
    ('engine', run_engine), ('types', run_types)]


def run_case(case, rec):
    install()
    d = tempfile.mkdtemp(prefix='c24-')
    # The store is made when it is first needed.
    os.environ['CGPM_LOOM_STORE'] = os.path.join(d, 'loom', 'store')
    try:
        for name, f in RUN:
            if name in case:
                f(case, rec)
    finally:
        shutil.rmtree(d, ignore_errors=True)
