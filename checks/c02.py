"""Recording and forgetting observations in a component are exact inverses."""
import copy

import comp
import mc
import ref

PID = 'C02'
RULE = ('all histories of record/forget over rows 0..R-1 and a 3 value '
    'alphabet, merged on the data held; every edge run on the real component')
ASSUMPTIONS = ['values outside the alphabet are not explored',
    'floating point agreement to 1e-7 relative']

KINDS = sorted(comp.SPECS) + ['linreg']


def cases(tier):
    rows = 3 if tier == 'quick' else 4
    for name in KINDS:
        n = 2 if name == 'linreg' else len(comp.configs(name))
        for i in range(n):
            yield {'id': '%s/%d' % (name, i), 'kind': name, 'config': i,
                'rows': rows}


class Prim(object):
    def __init__(self, name, i):
        self.name = name
        self.h, self.p = comp.configs(name)[i]
        self.values = list(comp.SPECS[name][4])
        if name == 'crp':
            self.values = [0, 1, 5]
        if name == 'beta':
            self.values = [.2, .5, 1.]

    def make(self):
        return comp.make(self.name, self.h, self.p)

    def inc(self, m, r, v):
        m.incorporate(r, {0: v})

    def probes(self, m):
        fresh = 10 ** 6
        vals = list(self.values) + ([7] if self.name == 'crp' else [])
        return [m.logpdf(fresh, {0: v}) for v in vals] + [m.logpdf_score()]

    def score(self, data):
        if self.name == 'crp':
            return ref.crp_joint(data, self.h['alpha'])
        if self.name in ref.PRED:
            return ref.marginal(self.name, data, self.h,
                comp.SPECS[self.name][2])
        return None

    def chain(self, m, v):
        """Increase of the joint score when v is recorded."""
        return m.logpdf(10 ** 6, {0: v})


class LinReg(Prim):
    def __init__(self, i):
        self.i = i
        self.name = 'linreg'
        self.values = [(-1., 1., 0), (.5, -.3, 1), (2., 0., 2)]

    def make(self):
        from cgpm.regressions.linreg import LinearRegression
        import numpy as np
        if self.i == 0:
            return LinearRegression([0], [1, 2], distargs={'inputs': {
                'stattypes': ['normal', 'categorical'],
                'statargs': [None, {'k': 3}]}},
                rng=np.random.RandomState(2))
        return LinearRegression([0], [1, 2],
            hypers={'a': 2., 'b': .7},
            distargs={'inputs': {
                'stattypes': ['normal', 'normal'],
                'statargs': [None, None]}},
            rng=np.random.RandomState(2))

    def inc(self, m, r, v):
        m.incorporate(r, {0: v[0]}, {1: v[1], 2: v[2]})

    def probes(self, m):
        return [m.logpdf(10 ** 6, {0: v[0]}, None, {1: v[1], 2: v[2]})
            for v in self.values] + [m.logpdf_score()]

    def chain(self, m, v):
        return m.logpdf(10 ** 6, {0: v[0]}, None, {1: v[1], 2: v[2]})

    def score(self, data):
        return None


def run_case(case, rec):
    name = case['kind']
    fam = LinReg(case['config']) if name == 'linreg' \
        else Prim(name, case['config'])
    R = case['rows']
    # canonical state: assignment row -> value index (None = absent)
    start = (None,) * R
    reps = {start: (fam.make(), [])}
    obs = {start: fam.probes(reps[start][0])}
    rec.state((case['id'], start))
    frontier = [start]
    tol = 1e-7
    sampled = False
    while frontier:
        nxt = []
        for st in frontier:
            m0, hist = reps[st]
            for r in range(R):
                ops = [('forget', r, None)] if st[r] is not None else \
                    [('record', r, j) for j in range(len(fam.values))]
                for op in ops:
                    m = copy.deepcopy(m0)
                    new = list(st)
                    pre = obs[st]
                    if op[0] == 'record':
                        delta = fam.chain(m, fam.values[op[2]])
                        fam.inc(m, r, fam.values[op[2]])
                        new[r] = op[2]
                    else:
                        m.unincorporate(r)
                        new[r] = None
                    new = tuple(new)
                    h2 = hist + [op]
                    rec.trans()
                    rec.trace()
                    got = fam.probes(m)
                    rec.eval(len(got))
                    if rec.state((case['id'], new)):
                        reps[new] = (m, h2)
                        obs[new] = got
                        nxt.append(new)
                        want = fam.score(
                            [fam.values[j] for j in new if j is not None])
                        if want is not None and not ref.close(
                                got[-1], want, tol):
                            rec.fail('%s score' % case['id'],
                                'joint score of data %s is %r, generative '
                                'model says %r' % ([fam.values[j] for j in
                                new if j is not None], got[-1], want),
                                history=h2)
                    elif any(not ref.close(a, b, tol)
                            for a, b in zip(got, obs[new])):
                        rec.fail('%s order' % case['id'],
                            'same data, different answers: after %s got %r, '
                            'after %s got %r' % (h2, got, reps[new][1],
                            obs[new]), history=h2)
                    # Symmetric: permuting row names changes nothing.
                    key = tuple(sorted(
                        (j for j in new if j is not None)))
                    rec.outcome(key)
                    # The recorded value itself is reported back.
                    if op[0] == 'record':
                        if not ref.close(got[-1] - pre[-1], delta, 1e-6):
                            rec.fail('%s chain' % case['id'],
                                'score rose by %r but the density of the '
                                'recorded value was %r' % (
                                got[-1] - pre[-1], delta), history=h2)
                    if not sampled and len(h2) >= 3:
                        sampled = True
                        rec.sample({'component': case['id'], 'history': h2,
                            'answers': got})
        frontier = nxt
    # Exchangeability: same multiset of values, any rows.
    groups = {}
    for st, o in obs.items():
        key = tuple(sorted(j for j in st if j is not None))
        groups.setdefault(key, []).append((st, o))
    for key, lst in groups.items():
        for st, o in lst[1:]:
            rec.eval()
            if any(not ref.close(a, b, tol) for a, b in zip(o, lst[0][1])):
                rec.fail('%s exchangeable' % case['id'],
                    'rows %s and %s hold the same values but answer %r / %r'
                    % (st, lst[0][0], o, lst[0][1]))
