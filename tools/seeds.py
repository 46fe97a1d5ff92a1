BUGS = []


def bug(id, property, edits, needs, what_it_breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
        what_it_breaks=what_it_breaks, demo=demo))


bug('c01-view-deleted-early', 'C01', [('src/crosscat/state.py',
'        delete = self.Nv(v_a) == 1\n        if dim.index in',
'        delete = len(self.views[v_a].dims) == 1\n        if dim.index in')],
'a column moving out of a view of two columns (the moving column has already '
'been taken out of the view object when the size is looked at)',
'the view is deleted although another column still lives in it', '''
from cgpm.crosscat.state import State
def rnd():
    return np.random.RandomState(3)
moved = 0
for seed in range(30):
    s = State(np.array([[0, 1, 0], [1, 1, 0], [0, 0, 1.]]),
        cctypes=['bernoulli']*3, Zv={0: 0, 1: 0, 2: 1}, alpha=1.,
        Zrv={0: [0, 0, 1], 1: [0, 1, 1]}, rng=np.random.RandomState(seed))
    s.transition_dims(cols=[0])
    expect(set(s.views) == set(s.Zv().values()), 'views %s for columns %s'
        % (list(s.views), dict(s.Zv())))
    moved += s.Zv(0) != 0
    s.logpdf_score()
expect(moved > 0, 'no move happened')
''')

bug('c02-poisson-forget', 'C02', [('src/primitives/poisson.py',
'        self.sum_log_fact_x -= gammaln(x+1)\n',
'        self.sum_log_fact_x -= gammaln(x)\n')],
'forgetting an observation of 2 or more',
'the joint score drifts after a row is recorded and forgotten', '''
from cgpm.primitives.poisson import Poisson
p = Poisson([0], [], rng=np.random.RandomState(1))
p.incorporate(0, {0: 1})
a = p.logpdf_score()
p.incorporate(1, {0: 3})
p.unincorporate(1)
expect(close(a, p.logpdf_score()), 'score %s, was %s' % (p.logpdf_score(), a))
''')

bug('c03-exponential-zero', 'C03', [('src/primitives/exponential.py',
"        x = targets[self.outputs[0]]\n        if x < 0:\n",
"        x = targets[self.outputs[0]]\n        if x <= 0:\n")],
'evaluating the density of exactly zero',
'a value that can be recorded has density zero', '''
from cgpm.primitives.exponential import Exponential
p = Exponential([0], [], rng=np.random.RandomState(1))
l = p.logpdf(-1, {0: 0.})
p.incorporate(0, {0: 0.})
expect(close(l, p.logpdf_score()), 'density of 0 is %s, recorded %s' % (l,
    p.logpdf_score()))
''')

bug('c04-zero-samples', 'C04', [('src/utils/general.py',
'        if N is None:\n            return simulate(*args, **kwargs)\n',
'        if not N:\n            return simulate(*args, **kwargs)\n')],
'asking for N=0 samples', 'a single draw is returned instead of no draws', '''
from cgpm.primitives.normal import Normal
p = Normal([0], [], rng=np.random.RandomState(1))
expect(p.simulate(-1, [0], N=0) == [], 'N=0 gives %s' % (p.simulate(-1, [0], N=0),))
expect(isinstance(p.simulate(-1, [0]), dict), 'N=None')
''')

bug('c05-cluster-gap', 'C05', [('src/crosscat/sampling.py',
"""        return _logpdf_row(view, targets, view.Zr(rowid))
    Nk = view.Nk()
    N_rows = len(view.Zr())
    K = view.crp.clusters[0].gibbs_tables(-1)
""",
"""        return _logpdf_row(view, targets, view.Zr(rowid))
    Nk = view.Nk()
    N_rows = len(view.Zr())
    K = range(max(Nk) + 2)
""")], 'row cluster names with a gap, as left behind when a cluster empties',
'empty cluster names count as extra fresh clusters in densities', '''
from cgpm.crosscat.state import State
def build(z):
    return State(np.array([[0], [0], [1.]]), cctypes=['bernoulli'], Zv={0: 0},
        Zrv={0: z}, alpha=1., view_alphas={0: 1.},
        hypers=[{'alpha': 1., 'beta': .3}], rng=np.random.RandomState(1))
a, b = build([0, 0, 1]), build([0, 0, 3])
expect(close(a.logpdf(-1, {0: 1}), b.logpdf(-1, {0: 1})),
    'density depends on cluster names: %s %s' % (a.logpdf(-1, {0: 1}),
    b.logpdf(-1, {0: 1})))
''')

bug('c06-zero-constraint', 'C06', [('src/crosscat/sampling.py',
"""    lp_constraints = [_logpdf_row(view, constraints, k) for k in K]
    if all(np.isinf(lp_constraints)):
        raise ValueError('Zero density constraints: %s' % (constraints,))
    lp_cluster = np.add(lp_crp, lp_constraints)
""",
"""    lp_constraints = [_logpdf_row(view, constraints, k) for k in K] \\
        if any(constraints.values()) else [0.] * len(K)
    if all(np.isinf(lp_constraints)):
        raise ValueError('Zero density constraints: %s' % (constraints,))
    lp_cluster = np.add(lp_crp, lp_constraints)
""")], 'simulating under constraints whose values are all zero',
'a constraint of value 0 is ignored when a cluster is chosen', '''
from cgpm.crosscat.state import State
s = State(np.array([[0, 0], [0, 0], [1, 1], [1, 1.]]),
    cctypes=['bernoulli']*2, Zv={0: 0, 1: 0}, Zrv={0: [0, 0, 1, 1]}, alpha=1.,
    view_alphas={0: .01}, hypers=[{'alpha': .01, 'beta': .01}]*2,
    rng=np.random.RandomState(1))
m = np.mean([x[1] for x in s.simulate(-1, [1], {0: 0}, N=400)])
expect(abs(m - math.exp(s.logpdf(-1, {1: 1}, {0: 0}))) < .1,
    'mean %s, probability %s' % (m, math.exp(s.logpdf(-1, {1: 1}, {0: 0}))))
''')

bug('c07-small-table', 'C07', [('src/primitives/crp.py',
'        p_rowid = p_aux if singleton else self.counts[self.data[rowid]]-1\n',
'        p_rowid = max(self.counts[self.data[rowid]]-1, p_aux)\n')],
'a row of a cluster with fewer other rows than the concentration',
'the row stays in its cluster too often', '''
from cgpm.mixtures.view import View
v = View({0: [nan, nan, nan, nan]}, outputs=[10**7], Zr=[0, 0, 1, 1],
    alpha=5., rng=np.random.RandomState(1))
n0 = 0
for i in range(600):
    v.transition_rows(rows=[0])
    n0 += v.Zr(0) == v.Zr(1)
    v._migrate_row(0, v.Zr(1))
p = 1/8.
expect(abs(n0/600. - p) < .07, 'stays %s of the time, not %s' % (n0/600., p))
''')

bug('c08-stale-partition', 'C08', [('src/crosscat/state.py',
"        reassign = dim.is_collapsed() or not self._dim_is_member(view, dim)\n",
"        reassign = not self._dim_is_member(view, dim)\n")],
'a column whose own view is evaluated after another view',
'the column\'s own view is scored under another view\'s row partition', '''
from cgpm.crosscat.state import State
n = [0, 0, 0]
R = 400
for seed in range(R):
    s = State(np.array([[0, 0, 1], [0, 0, 0], [1, 1, 1], [1, 1, 0.]]),
        cctypes=['bernoulli']*3, Zv={0: 1, 1: 1, 2: 0}, alpha=.001,
        view_alphas={0: 1., 1: 1.},
        Zrv={0: [0, 1, 0, 1], 1: [0, 0, 1, 1]},
        hypers=[{'alpha': .1, 'beta': .1}]*3, rng=np.random.RandomState(seed))
    s.transition_dims(cols=[0])
    n[0] += s.Zv(0) == s.Zv(1)
    n[1] += s.Zv(0) == s.Zv(2)
expect(n[0] > .9*R, 'stays %s moves %s' % (n[0], n[1]))
''')

bug('c09-fresh-cluster-hypers', 'C09', [('src/mixtures/dim.py',
"""            self.clusters[k].set_hypers(self.hypers)
        self.aux_model = self.create_aux_model()
""", """            self.clusters[k].set_hypers(self.hypers)
""")], 'a cluster created after the hyperparameters of its column changed',
'clusters created later use the previous hyperparameters', '''
from cgpm.crosscat.state import State
s = State(np.array([[0], [0], [1.]]), cctypes=['bernoulli'], Zv={0: 0},
    Zrv={0: [0, 0, 0]}, alpha=1., rng=np.random.RandomState(1))
s.transition_dim_hypers()
s.transition_dim_hypers()
h = s.dim_for(0).hypers
s.incorporate(3, {0: 1., s.views[0].outputs[0]: 7})
got = s.dim_for(0).clusters[7].get_hypers()
expect(got == dict(h), 'new cluster has %s, column has %s' % (got, dict(h)))
''')

bug('c10-one-sided-independence', 'C10', [('src/crosscat/state.py',
"        avoid = [a for p in self.Ci if col in p for a in p if a != col]\n",
"        avoid = [b for a, b in self.Ci if a == col]\n")],
'moving the second column of an independence constraint',
'the column may join the view it has to avoid', '''
from cgpm.crosscat.state import State
for seed in range(60):
    s = State(np.array([[0, 0], [1, 1], [1, 1.]]), cctypes=['bernoulli']*2,
        Zv={0: 0, 1: 1}, Ci=[(0, 1)], alpha=1.,
        rng=np.random.RandomState(seed))
    s.transition_dims(cols=[1])
    expect(s.Zv(0) != s.Zv(1), 'independent columns share a view')
''')

bug('c11-integer-alpha', 'C11', [('src/primitives/crp.py',
"        p_aux = self.alpha / float(m)\n",
"        p_aux = self.alpha / m\n")],
'two or more auxiliary tables and a whole-number concentration',
'integer division: auxiliary tables get the wrong probability', '''
from cgpm.primitives.crp import Crp
c = Crp([0], [], hypers={'alpha': 3}, rng=np.random.RandomState(1))
for r, z in enumerate([0, 0, 1, 1]):
    c.incorporate(r, {0: z})
l = c.gibbs_logps(0, m=2)
expect(close(sum(math.exp(x) for x in l), 6.), 'weights %s' % np.exp(l))
''')

bug('c16-self-loop', 'C16', [('src/network/helpers.py',
"        i: list(set(v_to_c[p] for p in c.inputs if p in v_to_c))\n",
"        i: list(set(v_to_c[p] for p in c.inputs\n"
"            if v_to_c.get(p, i) != i))\n")],
'a model one of whose inputs is its own output',
'a cyclic network is accepted', '''
from cgpm.network.importance import ImportanceNetwork
class M(object):
    outputs, inputs = [0, 1], [1]
try:
    ImportanceNetwork([M()])
except ValueError:
    sys.exit(0)
expect(False, 'cyclic network accepted')
''')

bug('c22-last-category', 'C22', [('src/utils/data.py',
"        if val < k-1:\n", "        if 0 < val:\n"),
('src/utils/data.py', "            r[int(val)] = 1\n",
"            r[int(val)-1] = 1\n")],
'rows whose coding is compared with the documented one (last category all '
'zeros)', 'the dropped category is the first and not the last one', '''
from cgpm.utils.data import dummy_code
expect(dummy_code([5., 2], {1: 3}) == [5., 0, 0], dummy_code([5., 2], {1: 3}))
expect(dummy_code([5., 0], {1: 3}) == [5., 1, 0], dummy_code([5., 0], {1: 3}))
''')

bug('c27-cross-compat', 'C27', [('src/utils/validation.py',
"        validate_dependency_constraints(None, Cd2, Ci1)\n", "")],
'two constraint sets that contradict in one direction only',
'contradicting constraints are called compatible', '''
from cgpm.utils import validation as vu
expect(not vu.check_compatible_constraints([], [(0, 1)], [[0, 1]], []),
    'contradiction accepted')
''')

bug('c28-logmean-minus-inf', 'C28', [('src/utils/general.py',
"    return logsumexp(noninfs) - math.log(len(array))\n",
"    return logsumexp(noninfs) - math.log(len(noninfs) or 1)\n")],
'log means over entries of which some are -inf',
'zero terms no longer count in the mean', '''
from cgpm.utils import general as gu
expect(close(gu.logmeanexp([0., -float('inf')]), math.log(.5)),
    gu.logmeanexp([0., -float('inf')]))
''')

bug('c12-view-alpha-index', 'C12', [('src/crosscat/state.py',
"        for v, view in self.views.iteritems():\n"
"            rowids = sorted(view.Zr())\n"
"            metadata['Zrv'].append((v, [view.Zr(i) for i in rowids]))\n"
"            metadata['view_alphas'].append((v, view.alpha()))\n",
"        for i, (v, view) in enumerate(self.views.iteritems()):\n"
"            rowids = sorted(view.Zr())\n"
"            metadata['Zrv'].append((v, [view.Zr(r) for r in rowids]))\n"
"            metadata['view_alphas'].append((i, view.alpha()))\n")],
'a state whose view identifiers are not 0, 1, ... (a view has been deleted)',
'the row concentrations are lost when such a state is saved', '''
from cgpm.crosscat.state import State
s = State(np.array([[0, 1], [1, 1], [0, 0.]]), cctypes=['bernoulli']*2,
    Zv={0: 0, 1: 3}, Zrv={0: [0, 0, 1], 3: [0, 1, 1]},
    view_alphas={0: .5, 3: 7.}, rng=np.random.RandomState(1))
t = State.from_metadata(s.to_metadata(), rng=np.random.RandomState(2))
expect(t.views[3].alpha() == 7., t.views[3].alpha())
''')

bug('c13-populate-in-place', 'C13', [('src/crosscat/state.py',
"        return gu.merged(constraints, data)\n",
"        constraints.update(data)\n        return constraints\n")],
'a query about a recorded row, with constraints, on a state with an attached '
'model', 'the dictionary of constraints of the caller is filled up', '''
from cgpm.crosscat.state import State
from cgpm.regressions.linreg import LinearRegression
s = State(np.array([[0, 1, nan], [1, 1, 2], [0, 0, 1.]]),
    cctypes=['normal']*3, rng=np.random.RandomState(1))
s.compose_cgpm(LinearRegression([7], [1], distargs={'inputs':
    {'stattypes': ['numerical'], 'statargs': [{}]}},
    rng=np.random.RandomState(1)))
c = {2: 3.}
s.simulate(0, [7], c)
expect(c == {2: 3.}, c)
''')

bug('c14-last-row', 'C14', [('src/crosscat/state.py',
"        if self.n_rows() == 1:\n"
"            raise ValueError('Cannot unincorporate last rowid.')\n"
"        # Remove the observation from the dataset.\n"
"        for c in self.outputs:\n"
"            self.X[c].pop()\n",
"        # Remove the observation from the dataset.\n"
"        for c in self.outputs:\n"
"            self.X[c].pop()\n"
"        if self.n_rows() == 0:\n"
"            raise ValueError('Cannot unincorporate last rowid.')\n")],
'forgetting the only row', 'the request is refused but the data is gone', '''
from cgpm.crosscat.state import State
s = State(np.array([[0, 1.]]), cctypes=['normal']*2,
    rng=np.random.RandomState(1))
try:
    s.unincorporate(0)
except ValueError:
    pass
expect(s.n_rows() == 1, 'rows: %s' % s.n_rows())
''')

bug('c15-weight-with-targets', 'C15', [('src/network/importance.py',
"            inputs=cgpm_inputs) if cgpm_constraints else 0\n",
"            inputs=cgpm_inputs) \\\n"
"            if cgpm_constraints and not cgpm_targets else 0\n")],
'a constraint on a model from which something else is sampled, and several '
'importance samples', 'samples are not weighted by that constraint', '''
from cgpm.network.importance import ImportanceNetwork
class A(object):
    outputs, inputs = [0], []
    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
        return {0: rng.randint(2)}
    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        return math.log(.5)
class B(object):
    outputs, inputs = [1, 2], [0]
    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
        return {t: inputs[0] for t in targets}
    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        return math.log(.999 if targets[1] == inputs[0] else .001)
rng = np.random.RandomState(1)
net = ImportanceNetwork([A(), B()], accuracy=20, rng=rng)
draws = [net.simulate(None, [0, 2], {1: 1})[0] for _ in range(40)]
expect(sum(draws) > 35, draws)
''')

bug('c17-similarity-by-column', 'C17', [('src/crosscat/state.py',
"        views = set(self.view_for(c) for c in cols)\n",
"        views = [self.view_for(c) for c in cols]\n")],
'columns which share a view, in a state with several views',
'row similarity counts a view once per column', '''
from cgpm.crosscat.state import State
s = State(np.array([[0, 1, 1], [1, 1, 0], [0, 0, 1.]]),
    cctypes=['bernoulli']*3, Zv={0: 0, 1: 0, 2: 1},
    Zrv={0: [0, 0, 1], 1: [0, 1, 1]}, rng=np.random.RandomState(1))
expect(close(s.row_similarity(0, 1), .5), s.row_similarity(0, 1))
''')

bug('c18-mixed-constraints', 'C18', [('src/crosscat/state.py',
"            const = gu.merged(e_constraints, sample)\n",
"            const = gu.merged(sample)\n")],
'fixed and marginalised constraints in one request',
'the fixed constraints are ignored in the estimate', '''
from cgpm.crosscat.state import State
s = State(np.array([[0, 0, 0, 0], [1, 1, 1, 1], [0, 1, 0, 0.], [1, 0, 1, 0]]),
    cctypes=['bernoulli']*4, Zv={i: 0 for i in range(4)},
    Zrv={0: [0, 1, 0, 1]}, rng=np.random.RandomState(1))
seen = []
old = s.logpdf_bulk
def spy(rowids, targets_list, constraints_list=None, inputs_list=None):
    seen.extend(set(c) for c in constraints_list)
    return old(rowids, targets_list, constraints_list, inputs_list)
s.logpdf_bulk = spy
s.mutual_information([0], [1], {2: 1, 3: None}, T=2, N=2)
expect(all(c == {2, 3} for c in seen), seen)
''')

bug('c19-completion-order', 'C19', [('src/utils/parallel_map.py',
"        fl[i] = fx\n", "        fl.append(fx)\n"),
('src/utils/parallel_map.py', "        fl = [None] * n\n", "        fl = []\n")],
'workers that finish out of order',
'results are returned in the order of completion', '''
import time
from cgpm.utils.parallel_map import parallel_map
def f(x):
    time.sleep([.8, .1, .1][x])
    return x
r = parallel_map(f, [0, 1, 2], parallelism=3)
expect(r == [0, 1, 2], r)
''')

bug('c20-alter-subset', 'C20', [('src/crosscat/engine.py',
"        states = mapper(_alter, args)\n"
"        for s, state in zip(statenos, states):\n",
"        states = mapper(_alter, args)\n"
"        for s, state in enumerate(states):\n")],
'altering a strict subset of the states',
'the altered states replace the wrong ones', '''
from cgpm.crosscat.engine import Engine
e = Engine(np.array([[0, 1], [1, 1], [0, 0.]]), num_states=3,
    cctypes=['bernoulli']*2, rng=np.random.RandomState(1), multiprocess=0)
def mark(s):
    s.marked = True
    return s
before = list(e.states)
e.alter([mark], statenos=[2], multiprocess=0)
expect([getattr(s, 'marked', False) for s in e.states]
    == [False, False, True], e.states)
''')

bug('c21-no-rows', 'C21', [('src/mixtures/view.py',
"        if rows is None:\n            rows = self.Zr().keys()\n",
"        if not rows:\n            rows = self.Zr().keys()\n")],
'a request for an empty selection of rows',
'all rows are reassigned', '''
from cgpm.crosscat.state import State
s = State(np.arange(12).reshape((6, 2)) % 5 * 1., cctypes=['normal']*2,
    rng=np.random.RandomState(1))
before = [dict(s.views[v].Zr()) for v in s.views]
for _ in range(20):
    s.transition(N=1, kernels=['rows'], rowids=[], progress=False)
expect(before == [dict(s.views[v].Zr()) for v in s.views], 'rows moved')
''')

bug('c23-prior-mean', 'C23', [('src/regressions/linreg.py',
"            np.dot(np.transpose(mu), np.dot(V_inv, mu))\n"
"            + np.dot(np.transpose(x), x)\n",
"            np.dot(np.transpose(x), x)\n")],
'a prior mean of the weights which is not zero',
'the marginal and predictive densities are wrong', '''
from cgpm.regressions.linreg import LinearRegression
r = LinearRegression([0], [1], hypers={'mu': [1., 2.]}, distargs={'inputs':
    {'stattypes': ['numerical'], 'statargs': [{}]}},
    rng=np.random.RandomState(1))
a = r.logpdf(-1, {0: 3.}, None, {1: 1.})
# Student-t with 2a degrees of freedom, mean 3, scale^2 = b/a (1 + y V y')
import scipy.stats
b = scipy.stats.t.logpdf(3., 2., loc=3., scale=math.sqrt(3.))
expect(close(a, b), (a, b))
''')

bug('c24-raw-category', 'C24', [('src/crosscat/lovecat.py',
"            return float(lookup[unicode(int(val))])\n",
"            return float(int(val))\n")],
'a categorical column which does not use all its categories',
'the engine is given values which are not codes of the column', '''
from cgpm.crosscat.state import State
from cgpm.crosscat import lovecat
s = State(np.array([[0.], [2.], [2.]]), cctypes=['categorical'],
    distargs=[{'k': 3}], rng=np.random.RandomState(1))
M_c = lovecat._crosscat_M_c(s)
T = lovecat._crosscat_T(s, M_c)
expect(T == [[0.], [1.], [1.]], T)
''')

bug('c25-complete-rows', 'C25', [('src/knn/mvknn.py',
"        X = np.asarray(self.data.values())[:,indexes]\n"
"        return X[~np.any(np.isnan(X), axis=1)]\n",
"        X = np.asarray(self.data.values())\n"
"        return X[~np.any(np.isnan(X), axis=1)][:,indexes]\n")],
'a row with a missing value in a column the request is not about',
'the row is left out of the neighbourhoods', '''
from cgpm.knn.mvknn import MultivariateKnn
k = MultivariateKnn([0, 1, 2], None, K=2, distargs={'outputs': {'stattypes':
    ['numerical']*3, 'statargs': [{}]*3}}, rng=np.random.RandomState(1))
k.incorporate(0, {0: 0., 1: 0.})
k.incorporate(1, {0: 1., 1: 1., 2: 1.})
k.incorporate(2, {0: 9., 1: 9., 2: 9.})
import scipy.stats
a = k.logpdf(-1, {0: .5}, {1: .5})
expect(close(a, scipy.stats.norm.logpdf(.5, .5, .5)), a)
''')

bug('c26-global-shuffle', 'C26', [('src/mixtures/dim.py',
"        self.rng.shuffle(hypers)\n", "        np.random.shuffle(hypers)\n")],
'a column with two or more hyperparameters',
'inference depends on the random generator of the process', '''
from cgpm.crosscat.state import State
def run(seed):
    np.random.seed(seed)
    s = State(np.array([[0.], [2.], [2.5]]), cctypes=['normal'],
        rng=np.random.RandomState(1))
    s.transition_dim_hypers()
    return s.dim_for(0).hypers
expect(all(run(i) == run(0) for i in range(6)), 'hypers differ')
''')

bug('c29-class-index', 'C29', [('src/regressions/forest.py',
"            index = list(regressor.classes_).index(x)\n",
"            index = min(x, len(regressor.classes_) - 1)\n")],
'a forest fitted to data which skips a category',
'the densities of two categories are mixed up', '''
from cgpm.regressions.forest import RandomForest
r = RandomForest([0], [1], distargs={'k': 4, 'inputs': {'stattypes':
    ['numerical']}}, rng=np.random.RandomState(1))
for i, (x, y) in enumerate([(1, 0.), (1, 0.), (3, 5.), (3, 5.), (2, 9.)] * 3):
    r.incorporate(i, {0: x}, {1: y})
r.transition()
p = [math.exp(r.logpdf(-1, {0: x}, None, {1: 0.})) for x in range(4)]
expect(close(sum(p), 1., 1e-6), p)
''')

bug('c30-old-strength', 'C30', [('src/primitives/beta.py',
"        n_samples = 100\n",
"        n_samples = 100\n        strength0 = self.strength\n"),
('src/primitives/beta.py',
"                    self.strength, balance)\n",
"                    strength0, balance)\n")],
'an update of the balance after an accepted move of the strength',
'the balance is drawn given the strength of before', '''
from cgpm.primitives.beta import Beta
from cgpm.utils import sampling as su
b = Beta([0], [], params={'strength': 3., 'balance': .4},
    rng=np.random.RandomState(1))
for i, x in enumerate([.2, .3, .7]):
    b.incorporate(i, {0: x})
targets = []
def fake(x, f, *args, **kw):
    targets.append(f)
    return 8. if len(targets) == 1 else .5
su.mh_sample = fake
b.transition_params()
ref = Beta([0], [], params={'strength': 8., 'balance': .5},
    rng=np.random.RandomState(1))
ref2 = Beta([0], [], params={'strength': 8., 'balance': .2},
    rng=np.random.RandomState(1))
for i, x in enumerate([.2, .3, .7]):
    ref.incorporate(i, {0: x}); ref2.incorporate(i, {0: x})
expect(close(targets[1](.5) - targets[1](.2),
    ref.logpdf_score() - ref2.logpdf_score()), 'ratio')
''')

bug('c15-cached-network', 'C15', [('src/crosscat/state.py',
"        return ImportanceNetwork(self.build_cgpms(), accuracy, rng=self.rng)\n",
"        key = (tuple(sorted(self.views)), tuple(sorted(self.hooked_cgpms)),\n"
"            accuracy)\n"
"        if getattr(self, '_net', (None, None))[0] != key:\n"
"            self._net = (key, ImportanceNetwork(\n"
"                self.build_cgpms(), accuracy, rng=self.rng))\n"
"        return self._net[1]\n")],
'a composed state asked before and after a column moves between views (or '
'is added to one) without the set of views changing',
'queries go to the graph of the columns as they were', '''
from cgpm.crosscat.state import State
from cgpm.regressions.linreg import LinearRegression
X = np.array([[0., 1., 3.], [1., 1., 2.], [2., 0., 5.], [5., 0., 1.]])
s = State(X, cctypes=['normal', 'bernoulli', 'normal'], Zv={0: 0, 1: 1, 2: 0},
    rng=np.random.RandomState(1))
g = LinearRegression([9], [0], distargs={'inputs': {'stattypes': ['normal'],
    'statargs': [{}]}}, rng=np.random.RandomState(2))
for i in range(4):
    g.incorporate(i, {9: X[i, 0] * 2}, {0: X[i, 0]})
s.compose_cgpm(g)
q = ({1: 1, 2: 2.}, {0: 1.})
s.logpdf(-1, *q)
s.incorporate_dim([1., 2., 2., 1.], [4], cctype='normal', v=1)
try:
    a = s.logpdf(-1, {4: 1.}, {0: 1.})
    b = s.simulate(-1, [4, 9])
except Exception as e:
    expect(False, repr(e))
s.decompose_cgpm(list(s.hooked_cgpms)[0])
expect(close(a, s.logpdf(-1, {4: 1.}, {0: 1.})), a)
''')

bug('c25-cached-array', 'C25', [('src/knn/mvknn.py',
"        X = np.asarray(self.data.values())[:,indexes]\n"
"        return X[~np.any(np.isnan(X), axis=1)]\n",
"        key = (self.N, tuple(sorted(self.data)))\n"
"        if getattr(self, '_array', (None, None))[0] != key:\n"
"            self._array = (key, np.asarray(self.data.values()))\n"
"        X = self._array[1][:,indexes]\n"
"        return X[~np.any(np.isnan(X), axis=1)]\n")],
'a row forgotten and recorded again with other values, between two requests',
'the neighbourhoods are those of the forgotten values', '''
from cgpm.knn.mvknn import MultivariateKnn
def build(last):
    k = MultivariateKnn([0, 1], None, K=2, distargs={'outputs': {'stattypes':
        ['numerical']*2, 'statargs': [{}]*2}}, rng=np.random.RandomState(1))
    for i, x in enumerate([0., 1., 9.]):
        k.incorporate(i, {0: x, 1: x})
    for x in last:
        k.logpdf(-1, {0: .5}, {1: .5})
        k.unincorporate(2)
        k.incorporate(2, {0: x, 1: .5})
    return k.logpdf(-1, {0: .5}, {1: .5})
expect(close(build([3., 7.]), build([7.])), 'history matters')
k = MultivariateKnn([0, 1], None, K=2, distargs={'outputs': {'stattypes':
    ['numerical']*2, 'statargs': [{}]*2}}, rng=np.random.RandomState(1))
for i, (x, y) in enumerate([(0., 0.), (1., 1.), (7., .5)]):
    k.incorporate(i, {0: x, 1: y})
expect(close(build([7.]), k.logpdf(-1, {0: .5}, {1: .5})), 'stale rows')
''')

bug('c29-no-refit', 'C29', [('src/regressions/forest.py',
"            if len(self.data.Y) > 0:\n"
"                self.regressor.fit(self.data.Y.values(), self.data.x.values())\n",
"            fitted = (self.N, sorted(self.data.x))\n"
"            if len(self.data.Y) > 0 and getattr(self, '_fit', None) != fitted:\n"
"                self._fit = fitted\n"
"                self.regressor.fit(self.data.Y.values(), self.data.x.values())\n")],
'a row forgotten and recorded again with other values, between transitions',
'the forest still answers for the forgotten values', '''
from cgpm.regressions.forest import RandomForest
r = RandomForest([0], [1], distargs={'k': 2, 'inputs': {'stattypes':
    ['numerical']}}, rng=np.random.RandomState(1))
for i in range(12):
    r.incorporate(i, {0: i % 2}, {1: float(i % 2)})
r.transition()
for i in range(12):
    r.unincorporate(i)
    r.incorporate(i, {0: 1 - i % 2}, {1: float(i % 2)})
r.transition(N=4)
p = [math.exp(r.logpdf(-1, {0: x}, None, {1: 0.})) for x in range(2)]
expect(p[1] > .6, p)
''')

bug('c23-cached-posterior', 'C23', [('src/regressions/linreg.py',
"        an, bn, mun, Vn_inv = LinearRegression.posterior_hypers(\n"
"            self.N, self.data.Y.values(), self.data.x.values(), self.a, self.b,\n"
"            self.mu, self.V)\n"
"        return LinearRegression.sample_parameters(\n",
"        key = (self.N, tuple(self.data.x), self.a, self.b)\n"
"        if getattr(self, '_post', (None, None))[0] != key:\n"
"            self._post = (key, LinearRegression.posterior_hypers(\n"
"                self.N, self.data.Y.values(), self.data.x.values(), self.a,\n"
"                self.b, self.mu, self.V))\n"
"        an, bn, mun, Vn_inv = self._post[1]\n"
"        return LinearRegression.sample_parameters(\n")],
'simulations before and after the last row is forgotten and recorded again '
'with another value',
'draws come from the posterior given the forgotten value', '''
from cgpm.regressions.linreg import LinearRegression
def make(y):
    g = LinearRegression([0], [1], distargs={'inputs': {'stattypes':
        ['normal'], 'statargs': [{}]}}, rng=np.random.RandomState(1))
    g.incorporate(0, {0: 1.}, {1: 1.})
    g.incorporate(1, {0: y}, {1: 2.})
    return g
a, b = make(-30.), make(50.)
a.simulate(-1, [0], None, {1: 1.})
a.unincorporate(1)
a.incorporate(1, {0: 50.}, {1: 2.})
for g in (a, b):
    g.rng = np.random.RandomState(7)
x = [a.simulate(-1, [0], None, {1: 2.})[0] for _ in range(5)]
y = [b.simulate(-1, [0], None, {1: 2.})[0] for _ in range(5)]
expect(np.allclose(x, y), (x, y))
''')

bug('c21-visit-per-column', 'C21', [('src/crosscat/state.py',
"                else set(self.Zv(col) for col in cols)\n"
"        for v in views:\n"
"            self.views[v].transition_rows(rows=rows)\n",
"                else [self.Zv(col) for col in cols]\n"
"        for v in views:\n"
"            self.views[v].transition_rows(rows=rows)\n")],
'a request for row moves naming two columns of one view',
'the rows of the view are visited once per column', '''
from cgpm.crosscat.state import State
from cgpm.mixtures.view import View
s = State(np.array([[0., 1.], [1., 1.], [2., 0.]]), cctypes=['normal',
    'bernoulli'], Zv={0: 0, 1: 0}, rng=np.random.RandomState(1))
n = []
old = View._gibbs_transition_row if hasattr(View, '_gibbs_transition_row') \\
    else None
if old is None:
    sys.exit(0)
def count(self, rowid):
    n.append(rowid)
    return old(self, rowid)
View._gibbs_transition_row = count
s.transition_view_rows(cols=[0, 1])
expect(len(n) in (0, 3), n)
''')

bug('c08-new-view-concentration', 'C08', [('src/crosscat/state.py',
"            View(self.X, outputs=[self.crp_id_view + t], rng=self.rng)\n"
"            for t in t_aux\n",
"            View(self.X, outputs=[self.crp_id_view + t],\n"
"                alpha=self.views[max(self.views)].alpha(), rng=self.rng)\n"
"            for t in t_aux\n")],
'a column moving to a view of its own',
'the concentration of the new view is copied from another view rather than '
'drawn afresh', '''
from cgpm.crosscat.state import State
seen = set()
for seed in range(60):
    s = State(np.array([[0., 1.], [9., 1.], [2., 0.]]), cctypes=['normal',
        'normal'], Zv={0: 0, 1: 0}, view_alphas={0: 1.25}, alpha=30.,
        rng=np.random.RandomState(seed))
    s.transition_dims(cols=[0])
    if s.Zv(0) != s.Zv(1):
        seen.update(float(s.views[s.Zv(c)].alpha()) for c in (0, 1))
expect(not seen or seen != {1.25}, seen)
''')

bug('c17-two-hypotheticals', 'C17', [('src/crosscat/state.py',
"            for rowid in reversed(rowid_hypothetical):\n",
"            for rowid in rowid_hypothetical[:2][::-1]:\n")],
'a relevance query with three or more hypothetical rows',
'a hypothetical row stays in the model after the query', '''
from cgpm.crosscat.state import State
s = State(np.array([[0., 1.], [9., 1.], [2., 0.]]), cctypes=['normal',
    'bernoulli'], Zv={0: 0, 1: 0}, rng=np.random.RandomState(1))
before = s.logpdf_score()
try:
    s.relevance_probability(0, [], 0, [{0: 1.}, {1: 1}, {0: 2., 1: 0}])
except ValueError as e:
    expect(False, repr(e))
expect(close(before, s.logpdf_score()), 'the score changed')
''')

bug('c01-input-types', 'C01', [('src/mixtures/view.py',
"'statargs': [self.dims[i].get_distargs() for i in inputs]",
"'statargs': [self.dims[i].get_distargs() for i in sorted(inputs)]")],
'a column made conditional on inputs given in an order of the caller, one of '
'them categorical',
'the arguments of the inputs are paired with the wrong inputs', '''
from cgpm.crosscat.state import State
X = np.array([[0., 1., 3.], [1., 1., 2.], [2., 0., 5.], [5., 0., 1.]])
p = []
for ins in ([1, 2], [2, 1]):
    s = State(X, cctypes=['normal', 'categorical', 'normal'],
        distargs=[None, {'k': 2}, None], Zv={0: 0, 1: 0, 2: 0},
        Zrv={0: [0] * 4}, rng=np.random.RandomState(1))
    try:
        s.update_cctype(0, 'linear_regression', distargs={'inputs': ins})
        s.dim_for(0).set_hypers({'a': 1., 'b': 1.})
        p.append(s.logpdf(-1, {0: 1.}, {1: 1, 2: 2.}))
    except Exception as e:
        expect(False, repr(e))
expect(close(p[0], p[1]), p)
''')

bug('c27-block-of-three', 'C27', [('src/utils/validation.py',
"        for a,b in it.combinations(block, 2):\n"
"            if not check",
"        for a,b in zip(block, block[1:]):\n"
"            if not check")],
'a dependence block of three columns of which the first and the last carry '
'contradicting row constraints, and the middle one carries none',
'contradicting row constraints are accepted', '''
from cgpm.utils.validation import validate_crp_constrained_input as f
def refused(*a):
    try:
        f(*a)
    except ValueError:
        return True
    return False
expect(refused(3, [[0, 2, 1]], [], {0: [[0, 1]]}, {1: [(0, 1)]}), 'taken')
expect(refused(3, [[0, 1, 2]], [], {0: [[0, 1]]}, {2: [(0, 1)]}), 'taken')
expect(not refused(3, [[0, 1, 2]], [], {0: [[0, 1]]}, {2: [(0, 2)]}), 'no')
''')

bug('c20-compose-third', 'C20', [('src/crosscat/engine.py',
"args = [('compose_cgpm', self.states[s], cgpms[s].to_metadata(),",
"args = [('compose_cgpm', self.states[s], cgpms[s % 2].to_metadata(),")],
'an engine of three or more states, each composed with a model of its own',
'the third state is composed with the model of the first', '''
from cgpm.crosscat.engine import Engine
from cgpm.regressions.linreg import LinearRegression
X = np.array([[0., 1.], [1., 1.], [2., 0.]])
e = Engine(X, num_states=3, cctypes=['normal', 'normal'],
    rng=np.random.RandomState(1), multiprocess=0)
mods = []
for i in range(3):
    m = LinearRegression([9], [0], distargs={'inputs': {'stattypes': [
        'normal'], 'statargs': [None]}}, rng=np.random.RandomState(2))
    for r in range(2):
        m.incorporate(r, {9: 10. * i + r}, {0: 1. * r})
    mods.append(m)
e.compose_cgpm(mods, multiprocess=0)
for i in range(3):
    a = e.get_state(i).logpdf(-1, {9: 4.}, {0: 1.})
    b = mods[i].logpdf(-1, {9: 4.}, None, {0: 1.})
    expect(close(a, b), (i, a, b))
''')

bug('c01-unhooked', 'C01', [('src/crosscat/state.py',
"        del self.hooked_cgpms[token]\n        self._update_is_composite()\n",
"        del self.hooked_cgpms[token]\n"
"        self._composite = len(self.hooked_cgpms) > 0\n")],
'a state with a conditional column, a composed model, and the removal of '
'that model',
'the state no longer uses its network: densities that need the inputs of the '
'conditional column are no longer answered as before', '''
from cgpm.crosscat.state import State
from cgpm.regressions.linreg import LinearRegression
X = np.array([[0., 1.], [1., 1.], [2., 0.]])
s = State(X, cctypes=['normal', 'normal'], Zv={0: 0, 1: 0},
    Zrv={0: [0, 0, 0]}, rng=np.random.RandomState(1))
s.update_cctype(0, 'linear_regression')
a = s.logpdf(-1, {0: 1.}, {1: .5})
m = LinearRegression([9], [1], distargs={'inputs': {'stattypes': ['normal'],
    'statargs': [None]}}, rng=np.random.RandomState(2))
t = s.compose_cgpm(m)
s.decompose_cgpm(t)
expect(s.is_composite(), 'not composite')
try:
    b = s.logpdf(-1, {0: 1.}, {1: .5})
except Exception as e:
    expect(False, repr(e))
expect(close(a, b), (a, b))
''')

bug('c01-input-cycle', 'C01', [('src/mixtures/view.py',
"                if d != col and not self.dims[d].is_conditional()\n",
"                if d != col and self.dims[d].name() != cctype\n")],
'a column made conditional by default in a view with a column which is '
'conditional on it by another kind of regression',
'two columns depend on each other', '''
from cgpm.crosscat.state import State
X = np.array([[0., 1., 3.], [1., 1., 2.], [2., 0., 5.], [5., 0., 1.]])
s = State(X, cctypes=['normal', 'categorical', 'normal'],
    distargs=[None, {'k': 2}, None], Zv={0: 0, 1: 0, 2: 0},
    Zrv={0: [0] * 4}, rng=np.random.RandomState(1))
try:
    s.update_cctype(1, 'random_forest', distargs={'k': 2})
    s.update_cctype(0, 'linear_regression')
except Exception as e:
    expect(False, repr(e))
expect(sorted(s.dim_for(0).inputs[1:]) == [2], s.dim_for(0).inputs)
''')
bug('c24-small-names', 'C24', [('src/crosscat/lovecat.py',
"cols = [state.outputs.index(i) for i in cols]",
"cols = [i if i < len(state.outputs) else state.outputs.index(i)\n"
"            for i in cols]")],
'inference restricted to columns whose names are smaller than the number of '
'columns and are not their positions',
'the engine is asked to work on other columns', '''
import sys, types
asked = []
class LE(object):
    def __init__(self, seed=None):
        pass
    def analyze(self, M_c, T, X_L, X_D, seed, **kw):
        asked.append(list(kw['c']))
        return X_L, X_D
pkg, mod = types.ModuleType('crosscat'), types.ModuleType('LocalEngine')
mod.LocalEngine = LE
pkg.LocalEngine = mod
sys.modules['crosscat'], sys.modules['crosscat.LocalEngine'] = pkg, mod
from cgpm.crosscat.state import State
s = State(np.array([[0., 1., 3.], [1., 1., 2.]]), outputs=[2, 0, 1],
    cctypes=['normal'] * 3, Zv={0: 0, 1: 0, 2: 0}, Zrv={0: [0, 0]},
    rng=np.random.RandomState(1))
s.transition_lovecat(N=1, cols=[0, 2], progress=False)
expect(sorted(asked[0]) == [0, 1], asked)
''')

bug('c06-regression-evidence', 'C06', [('src/mixtures/view.py',
"        constr2 = [merged(constraints, {self.outputs[0]: k}) for k in K]\n",
"        constr2 = [merged({c: constraints[c] for c in constraints\n"
"            if not self.dims[c].is_conditional()}, {self.outputs[0]: k})\n"
"            for k in K]\n")],
'a sample given the value of a regression column and of its inputs, in a '
'view of several clusters',
'the value of the regression says nothing about the cluster', '''
from cgpm.crosscat.state import State
X = np.array([[9., 0., 1.], [9., 0., 1.], [9.5, 1., 1.], [-9., 0., 0.],
    [-9., 1., 0.], [-9.5, 1., 0.]])
s = State(X, cctypes=['normal', 'categorical', 'categorical'],
    distargs=[None, {'k': 2}, {'k': 2}], Zv={0: 0, 1: 0, 2: 0},
    Zrv={0: [0, 0, 0, 1, 1, 1]}, rng=np.random.RandomState(1))
s.update_cctype(0, 'linear_regression', distargs={'inputs': [1]})
s.dim_for(0).set_hypers({'a': 2., 'b': 1.})
for c in (1, 2):
    s.dim_for(c).set_hypers({'alpha': .1})
r = [s.simulate(-1, [2], {0: 9., 1: 0})[2] for _ in range(200)]
p = np.exp(s.logpdf(-1, {2: 1}, {0: 9., 1: 0}))
expect(p > .9, p)
expect(abs(np.mean(r) - p) < .1, (np.mean(r), p))
''')

bug('c05-regression-evidence', 'C05', [('src/mixtures/view.py',
"            lp_constraints = gu.log_normalize(lp_constraints_unorm)\n",
"            if any(self.dims[c].is_conditional() for c in self.dims\n"
"                    if c in targets):\n"
"                lp_constraints_unorm = [network.logpdf(rowid,\n"
"                    {self.outputs[0]: k}) for k in K]\n"
"            lp_constraints = gu.log_normalize(lp_constraints_unorm)\n")],
'the density of a regression column given its inputs, in a view of several '
'clusters',
'the inputs say nothing about the cluster', '''
from cgpm.crosscat.state import State
X = np.array([[9., 1.], [9., 1.], [9.5, 1.], [-9., 0.], [-9., 0.],
    [-9.5, 0.]])
s = State(X, cctypes=['normal', 'categorical'], distargs=[None, {'k': 2}],
    Zv={0: 0, 1: 0}, Zrv={0: [0, 0, 0, 1, 1, 1]},
    rng=np.random.RandomState(1))
s.update_cctype(0, 'linear_regression')
s.dim_for(0).set_hypers({'a': 2., 'b': 1.})
s.dim_for(1).set_hypers({'alpha': .1})
v = s.views[0]
a = v.logpdf(-1, {0: 9.}, {1: 1})
b = v.logpdf(-1, {0: 9., 1: 1}) - v.logpdf(-1, {1: 1})
expect(close(a, b), (a, b))
''')
