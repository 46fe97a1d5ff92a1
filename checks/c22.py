"""Data coding and schema parsing preserve the data."""
import itertools
import math

import numpy as np

import mc
from crng import CRng

PID = 'C22'
RULE = ('all layouts of up to 3 (4) covariates with 0-2 categorical ones of 1-4 '
    'categories, all rows over a value alphabet including invalid codes; all '
    'small data frames of text, number and missing entries under all '
    'schemas; all type strings')
ASSUMPTIONS = ['pandas as installed']
NAN = float('nan')


def cases(tier):
    quick = tier == 'quick'
    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
        for ks in itertools.product([None, 1, 2, 3, 4], repeat=n):
            if sum(k is not None for k in ks) > 2:
                continue
            yield {'id': 'dummy/%s' % (ks,), 'what': 'dummy', 'ks': ks}
    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
        for lead in ('a', 'b', 'NA'):
            yield {'id': 'frame/%d/%s' % (n, lead), 'what': 'frame', 'n': n,
                'lead': lead}
    yield {'id': 'types', 'what': 'types'}
    yield {'id': 'state', 'what': 'state'}


def run_case(case, rec):
    {'dummy': dummy, 'frame': frame, 'types': types, 'state': state}[
        case['what']](case, rec)


def dummy(case, rec):
    from cgpm.utils.data import dummy_code
    ks = list(case['ks'])
    disc = {i: k for i, k in enumerate(ks) if k is not None}
    pools = [[-1.5, 0., 2.] if k is None else
        [float(v) for v in range(-1, k + 2)] + [.5] for k in ks]
    seen = {}
    for x in itertools.product(*pools):
        rec.state((case['id'], x))
        rec.trans()
        rec.trace()
        ok = all(i not in disc or (v == int(v) and 0 <= v < disc[i])
            for i, v in enumerate(x))
        for row in (list(x), [int(v) if v == int(v) else v for v in x]):
            e = mc.raises(dummy_code, list(row), dict(disc))
            rec.eval()
            if not ok:
                if not isinstance(e, (TypeError, ValueError)):
                    rec.fail('dummy invalid %s' % ks, '%s accepted (%r)'
                        % (row, e))
                continue
            if e is not None:
                rec.fail('dummy %s' % ks, '%s refused: %r' % (row, e))
                continue
            arg = list(row)
            code = dummy_code(arg, disc)
            if arg != row:
                rec.fail('dummy argument %s' % ks, 'argument changed')
            want = []
            for i, v in enumerate(row):
                if i in disc:
                    want += [1 if j == v else 0 for j in range(disc[i] - 1)]
                else:
                    want.append(v)
            if list(code) != want:
                rec.fail('dummy %s' % ks, '%s is coded %s, not %s'
                    % (row, code, want))
            other = seen.setdefault(tuple(code), tuple(x))
            if other != tuple(x):
                rec.fail('dummy %s' % ks, '%s and %s have the same code %s'
                    % (other, x, code))
    rec.sample({'categories': ks, 'rows': len(seen)})


def missing(v):
    return v == 'NA' or v != v or v is None


def frame(case, rec):
    import pandas as pd
    from cgpm.utils import data as du
    n = case['n']
    text = ['a', 'b', 'NA', NAN]
    num = [1.5, -2., NAN]
    for rest in itertools.product(text, repeat=n - 1):
        col = [case['lead']] + list(rest)
        for k, ncol in enumerate(itertools.product(num, repeat=n)):
            codes = [[7, 3, 3, 7][(i + k) % 4] for i in range(n)]
            seen = sorted(set(v for v in col if not missing(v)))
            nseen = sorted(set(codes))
            rec.state((tuple(map(repr, col)), tuple(map(repr, ncol)),
                tuple(codes)))
            # Types for the text column and the column of codes.
            for t1, t2 in itertools.product(
                    ['ignore', 'categorical', 'bernoulli', 'categorical(k=2)',
                    'categorical(k=5)'], ['categorical', 'normal']):
                if t1 == 'bernoulli' and len(seen) != 2:
                    continue
                if not seen and t1 != 'ignore':
                    continue
                schema = [('x', t1, 4), ('y', 'normal', 9), ('z', 'ignore',
                    2), ('c', t2, 0)]
                if k % 2:
                    schema = schema[::-1]
                df = pd.DataFrame({'c': codes, 'z': list(range(n)),
                    'x': pd.Series(col, dtype=object), 'y': list(ncol)})
                key = 'schema %s %s' % (t1, t2)
                rec.trans()
                rec.trace()
                with rec.guard(key, column=col):
                    T, outputs, cctypes, distargs, valmap, columns = \
                        du.parse_schema(schema, df)
                    T = np.asarray(T)
                    rec.eval()
                    live = [s for s in schema if s[1] != 'ignore']
                    orig = {'x': col, 'y': ncol, 'c': codes}
                    if list(columns) != [s[0] for s in live] or \
                            list(outputs) != [s[2] for s in live] or \
                            list(cctypes) != [s[1].split('(')[0]
                            for s in live] or T.shape != (n, len(live)):
                        rec.fail(key, 'columns %s outputs %s types %s shape '
                            '%s' % (columns, outputs, cctypes, T.shape))
                        return
                    coded = [s[0] for s in live if s[1] not in ('normal',)]
                    if set(valmap) != set(coded):
                        rec.fail(key, 'value maps for %s, not %s'
                            % (sorted(valmap), coded))
                        return
                    for i, (name, t, _o) in enumerate(live):
                        got = [float(v) for v in T[:, i]]
                        if name in coded:
                            levels = seen if name == 'x' else nseen
                            if sorted(valmap[name]) != levels or sorted(
                                    valmap[name].values()) != \
                                    list(range(len(levels))):
                                rec.fail(key, 'value map %s for %s'
                                    % (valmap[name], levels))
                                return
                            back = {c: u for u, c in valmap[name].items()}
                            dec = [NAN if v != v else back.get(v, 'unknown '
                                'code %s' % v) for v in got]
                        else:
                            dec = got
                        for a, b in zip(dec, orig[name]):
                            if missing(b) != (a != a) or (not missing(b)
                                    and a != b):
                                rec.fail(key, 'column %s: %s decodes to %s'
                                    % (name, list(orig[name]), dec))
                                return
                        kd = (distargs[i] or {}).get('k')
                        want = None
                        if t.startswith('categorical('):
                            want = int(t[-2])
                        elif t == 'categorical':
                            want = len(seen if name == 'x' else nseen)
                        if (kd if kd is None else int(kd)) != want:
                            rec.fail(key, 'column %s of type %s has '
                                'arguments %s' % (name, t, distargs[i]))
                            return
    # More values than the number of categories declared.
    df = pd.DataFrame({'x': ['a', 'b', 'c']})
    e = mc.raises(du.parse_schema, [('x', 'categorical(k=2)', 0)], df)
    if e is None:
        rec.fail('schema overfull', '3 values accepted as categorical(k=2)')
    rec.sample({'column': col, 'levels': seen})


def types(case, rec):
    from cgpm.utils import config as cu
    names = ['normal', 'bernoulli', 'categorical', 'normal_trunc', 'beta']
    args = [None, {'k': 8.}, {'l': -1.5, 'h': 2.}, {'k': 3., 'm': 0.}]

    def text(n, a):
        return n if a is None else '%s(%s)' % (n, ','.join('%s=%s' % (k,
            int(v) if v == int(v) else v) for k, v in a.items()))
    for r in (0, 1, 2, 3):
        for combo in itertools.product(names[:3], repeat=r):
            for aa in itertools.product(args, repeat=r):
                src = [text(n, a) for n, a in zip(combo, aa)]
                rec.state(tuple(src))
                rec.eval()
                rec.trans()
                rec.trace()
                t, d = cu.parse_distargs(src)
                if list(t) != list(combo) or list(d) != list(aa):
                    rec.fail('parse_distargs', '%s parses to %s %s'
                        % (src, t, d))
                    return
    rec.sample({'text': src, 'types': t})
    known = cu.all_cctypes()
    for n in ['bernoulli', 'beta', 'categorical', 'crp', 'exponential',
            'geometric', 'lognormal', 'normal', 'normal_trunc', 'poisson',
            'vonmises', 'linear_regression', 'random_forest']:
        rec.eval()
        if n not in known or not cu.valid_cctype(n):
            rec.fail('cctypes', '%s is not a known type' % n)
        with rec.guard('cctype_class %s' % n):
            if cu.cctype_class(n).name() != n:
                rec.fail('cctype_class %s' % n, 'names itself %s'
                    % cu.cctype_class(n).name())
    for n in ['gaussian', '', 'Normal', None]:
        rec.eval()
        if cu.valid_cctype(n) or mc.raises(cu.cctype_class, n) is None:
            rec.fail('cctypes', '%r is accepted' % (n,))
    # Types for the external engine.
    for n in ['linear_regression', 'random_forest', 'nope']:
        e = mc.raises(cu.loom_stattype, n, {'k': 2})
        if not isinstance(e, ValueError):
            rec.fail('loom type', '%s gives %r' % (n, e))
    for k in (2, 255, 256, 257, 1000):
        want = 'categorical' if k <= 256 else 'unbounded_categorical'
        rec.eval()
        if cu.loom_stattype('categorical', {'k': k}) != want:
            rec.fail('loom type', 'categorical(k=%d) maps to %s' % (k,
                cu.loom_stattype('categorical', {'k': k})))


def state(case, rec):
    """A parsed frame makes a model holding the decoded data."""
    import pandas as pd
    from cgpm.crosscat.state import State
    from cgpm.utils import data as du
    for vals in itertools.product(['u', 'v', 'w', 'NA'], repeat=3):
        if all(missing(v) for v in vals):
            continue
        df = pd.DataFrame({'x': list(vals), 'y': [1., NAN, 2.]})
        T, outputs, cctypes, distargs, valmap, _c = du.parse_schema(
            [('y', 'normal', 3), ('x', 'categorical(k=4)', 8)], df)
        rec.state(vals)
        rec.trans()
        rec.trace()
        with rec.guard('state %s' % (vals,)):
            s = State(np.asarray(T, dtype=float), outputs=outputs,
                cctypes=cctypes, distargs=distargs, rng=CRng(1))
            back = {c: u for u, c in valmap['x'].items()}
            got = ['NA' if v != v else back[v] for v in s.X[8]]
            rec.eval()
            if got != list(vals):
                rec.fail('state %s' % (vals,), 'the model holds %s' % got)
            p = [s.logpdf(-1, {8: v}) for v in range(4)]
            if abs(math.fsum(math.exp(x) for x in p) - 1) > 1e-9:
                rec.fail('state %s' % (vals,), 'categories %s' % p)
    rec.sample({'column': vals})
