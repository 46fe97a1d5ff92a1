MC_SEQ = 'explicit-state exploration of operation sequences on the real objects'
MC_RNG = 'stateless exploration of every random-choice path of the real code'
MC_INP = 'bounded exhaustive enumeration of states and queries of the real code'

prop('C01', 'Edits and inference leave a model equal to one built afresh',
 'After any sequence of adding or removing rows (with or without requested '
 'clusters), columns and cell values, changing a column type, and running '
 'inference kernels, the CrossCat model holds exactly the data the sequence '
 'leaves behind. Its column and row assignments, counts, joint score and '
 'predictive densities are those of a model built directly from that data, '
 'those partitions and those hyperparameters. A requested cluster or view is '
 'the one used.',
 ['histories'], 'all operation sequences to a stated depth over small tables, '
 'all random outcomes of row and column moves, plus single views and single '
 'columns', 'tests run a few fixed edit orders; counts and caches only go '
 'stale after particular orders of inserts, deletes and moves',
 ['crosscat/state.py', 'mixtures/view.py', 'mixtures/dim.py',
  'primitives/crp.py'],
 [('incremental row and column bookkeeping', 'State/View/Dim incorporate, '
   'unincorporate, _migrate_dim, _migrate_row')],
 MC_SEQ, 'Exhaustive within the stated bounds; trusts the independent '
 'reference densities and the Python 2 to 3 source translation.')

prop('C02', 'Recording and forgetting observations are exact inverses',
 'For every component distribution and the linear regression, the joint '
 'score and every predictive density depend only on the multiset of recorded '
 'observations, not on the order in which they were recorded or on '
 'observations recorded and later forgotten. Recording a value raises the '
 'joint score by exactly the density reported for it beforehand, and the '
 'joint score is the marginal likelihood of the documented generative model.',
 ['histories'], 'all histories of recording and forgetting over 3 (4) rows '
 'and 3 values per component type and hyperparameter setting',
 'tests check one insertion order of random data per type; sufficient '
 'statistics may drift only for particular interleavings',
 ['primitives/bernoulli.py', 'primitives/beta.py', 'primitives/categorical.py',
  'primitives/crp.py', 'primitives/exponential.py', 'primitives/geometric.py',
  'primitives/lognormal.py', 'primitives/normal.py',
  'primitives/normal_trunc.py', 'primitives/poisson.py',
  'primitives/vonmises.py', 'regressions/linreg.py'],
 [('sufficient statistics', 'incorporate/unincorporate/logpdf_score of each '
   'primitive')],
 MC_SEQ, 'Complete state graph of each component over the alphabet.')

prop('C03', 'Component densities are proper and match what is accepted',
 'For every component distribution and any recorded data, the reported '
 'density is that of the documented generative model: it has total mass one, '
 'is zero off the support and is never undefined. A value can be recorded '
 'exactly when its density is positive, and a refused value raises '
 'ValueError and leaves the component unchanged.',
 ['inputs', 'histories'], 'all data histories to a stated size x boundary and '
 'interior values per component type', 'tests integrate one configuration '
 'per type; the error shows only for particular data, hyperparameters or '
 'boundary values',
 ['primitives/bernoulli.py', 'primitives/beta.py', 'primitives/categorical.py',
  'primitives/crp.py', 'primitives/exponential.py', 'primitives/geometric.py',
  'primitives/lognormal.py', 'primitives/normal.py',
  'primitives/normal_trunc.py', 'primitives/poisson.py',
  'primitives/vonmises.py'],
 [('posterior predictive', 'logpdf / calc_predictive_logp of each primitive')],
 MC_INP, 'Sums exact; integrals by quadrature to 2e-4.')

prop('C04', 'Simulating a component draws from its reported density',
 'For every component distribution and any recorded data, the distribution '
 'of a simulated value for a new row is the one whose density the component '
 'reports; asking for N samples returns a list of N independent draws (none '
 'for N=0), and no N returns a single draw. A recorded row simulates its '
 'recorded value, and simulating changes nothing.',
 ['inputs', 'histories'], 'all data histories to a stated size; all '
 'random-choice paths of simulate', 'tests compare a few thousand random '
 'samples by a statistical test with wide tolerance',
 ['primitives/distribution.py', 'primitives/bernoulli.py',
  'primitives/beta.py', 'primitives/categorical.py', 'primitives/crp.py',
  'primitives/exponential.py', 'primitives/geometric.py',
  'primitives/lognormal.py', 'primitives/normal.py',
  'primitives/normal_trunc.py', 'primitives/poisson.py',
  'primitives/vonmises.py', 'utils/general.py'],
 [('sampling', 'simulate of each primitive, utils.general.simulate_many')],
 MC_RNG, 'Finite choices exact; continuous draws discretised to quantile '
 'midpoints, distribution functions compared to 0.035.')

prop('C05', 'CrossCat conditional densities are those of its mixture',
 'For any column partition, row partitions, missing cells and any '
 'disjoint targets and constraints, the density a CrossCat model (or one of '
 'its views, with the latent row cluster as a variable) reports is that of '
 'the mixture its partitions define, so chain rule, Bayes rule, '
 'marginalisation and normalisation hold. For an observed row the missing '
 'cells are those of its own cluster, and bulk evaluation equals one by one.',
 ['inputs', 'configurations'], 'all column and row partitions of small '
 'tables x all target/constraint choices over a value alphabet',
 'tests check a handful of queries on one random state',
 ['crosscat/sampling.py', 'crosscat/state.py', 'mixtures/view.py',
  'utils/validation.py'],
 [('marginalisation over clusters', 'sampling.view_logpdf, View.logpdf')],
 MC_INP, 'Every query in bounds evaluated on the real model against an '
 'independent mixture.')

prop('C06', 'CrossCat simulation is exact and samples are independent',
 'For any column partition, row partitions, missing cells, targets and '
 'constraints, a sample from a CrossCat model (or a view, with the latent '
 'row cluster exposed) follows exactly the conditional distribution given by '
 'its density, each requested target appears exactly once, and N samples are '
 'N independent ones. Simulating changes neither data nor partitions.',
 ['inputs', 'configurations'], 'all partitions of small finite-valued tables '
 'x all targets/constraints; all random-choice paths for one and two samples',
 'tests use statistical tests on marginals and cannot see dependence between '
 'successive samples', ['crosscat/sampling.py', 'crosscat/state.py',
 'mixtures/view.py', 'network/importance.py'],
 [('cluster then row sampling', 'sampling.view_simulate, View.simulate')],
 MC_RNG, 'Exact distributions for finite-valued columns.')

prop('C07', 'Row reassignment is a Gibbs step for the joint score',
 'Reassigning one row of a view moves it to each existing or a new cluster '
 'with probability proportional to the exponential of the joint score of the '
 'result, leaves every other row and every other view alone, and only '
 'the listed rows and views move. Hence a sweep leaves the posterior over '
 'row partitions invariant and can reach every partition; for components '
 'that carry parameters, redrawing rows leaves the joint law of partition '
 'and parameters invariant.',
 ['histories', 'configurations'], 'all row partitions of up to 4 rows x '
 'component types; all random outcomes of one row, two rows and a full sweep',
 'tests only run the chain; a wrong conditional still runs and still mixes',
 ['mixtures/view.py', 'primitives/crp.py', 'mixtures/dim.py'],
 [('row Gibbs kernel', 'View._gibbs_transition_row')], MC_RNG,
 'Exact transition probabilities within bounds.')

prop('C08', 'Column reassignment is a Gibbs step for the joint score',
 'Reassigning a column moves it to each existing view, or to a fresh view '
 'drawn from the prior, with probability proportional to the prior '
 'of the partition times the marginal likelihood of the column under that '
 'view\'s row partition, whatever names or order the views have. No other '
 'column, view or hyperparameter changes.',
 ['histories', 'configurations'], 'all column partitions of 3 to 4 columns, '
 'several view namings and views left behind by edits; all random outcomes '
 'including all fresh views over 3 rows',
 'tests only run the chain; mismatched views still run',
 ['crosscat/state.py', 'primitives/crp.py', 'mixtures/view.py'],
 [('column Gibbs kernel', 'State._gibbs_transition_dim')], MC_RNG,
 'Exact transition probabilities within bounds, collapsed components.')

prop('C09', 'Hyperparameter inference is grid Gibbs on the joint score',
 'Inferring column hyperparameters, a view concentration or the column '
 'concentration changes one setting at a time to a grid point with '
 'probability proportional to the exponential of the joint score at that '
 'point; nothing else about the model changes, and every cluster, including '
 'ones created later, uses the new setting.',
 ['histories', 'configurations'], 'all random outcomes (orders and draws) '
 'over reduced grids for each component type and row partition',
 'tests check that hyperparameters lie on the grid, not their distribution',
 ['mixtures/dim.py', 'mixtures/view.py', 'crosscat/state.py'],
 [('grid Gibbs', 'Dim.transition_hypers')], MC_RNG,
 'Exact transition probabilities over grids cut to 2-3 points.')

prop('C10', 'Column dependence and independence constraints always hold',
 'A model given columns that must be dependent or must be independent starts '
 'with a column partition that respects all of them, never leaves it under '
 'any sequence of inference moves it accepts, and rejects contradictory or '
 'malformed constraints with ValueError. The prior over partitions is the '
 'documented constrained process, and its score agrees with it.',
 ['histories', 'configurations'], 'all constraint sets over up to 4 columns; '
 'all random outcomes of initialisation and column moves',
 'tests run one or two constraint sets with a few seeds',
 ['crosscat/state.py', 'utils/general.py', 'utils/validation.py'],
 [('constraint enforcement', 'simulate_crp_constrained*, '
   '_gibbs_transition_dim, validate_*')], MC_RNG,
 'Exact; bounded number of columns.')

prop('C11', 'Chinese restaurant process functions agree with each other',
 'Drawing partitions, scoring partitions, predicting the next assignment and '
 'proposing Gibbs reassignments all follow one Chinese restaurant process: '
 'drawn partitions have the scored probability, scores sum to one over all '
 'partitions, sequential predictions multiply to the score, and Gibbs '
 'probabilities with any number of auxiliary tables are its conditionals. '
 'The same holds for the process with columns tied together.',
 ['inputs', 'configurations'], 'all partitions of up to 5 customers, table '
 'names with gaps, several concentrations; all random-choice paths',
 'tests compare one value per function', ['primitives/crp.py',
 'utils/general.py'], [('crp', 'Crp, logp_crp*, simulate_crp*')], MC_RNG,
 'Exact within bounds.')

prop('C12', 'Saving and loading a model preserves all its answers',
 'Saving a fitted model to its metadata (also through JSON text or a pickle '
 'file) and loading it gives a model with the same data, partitions, '
 'hyperparameters, score and conditional densities, for CrossCat states, '
 'views, engines, regressions, nearest neighbours, kernel density and factor '
 'models. Loading does not change the metadata, and saving does not change '
 'the model.',
 ['histories', 'configurations'], 'models reached by all short edit '
 'histories, all partitions of small tables, every model type',
 'tests round trip one freshly built model per type', ['crosscat/state.py',
 'crosscat/engine.py', 'mixtures/view.py', 'regressions/linreg.py',
 'regressions/ols.py', 'regressions/forest.py', 'knn/mvknn.py',
 'kde/mvkde.py', 'factor/factor.py'],
 [('metadata', 'to_metadata/from_metadata of each class')], MC_SEQ,
 'Every answer in a fixed query set compared before and after.')

prop('C13', 'Queries never change the model or their arguments',
 'Simulating, evaluating densities, dependence, similarity, relevance, mutual '
 'information, scores and saving leave the data, partitions, hyperparameters '
 'and every later density of a model unchanged, in any order and number, and '
 'do not modify the dictionaries and lists passed in. Data given to a model '
 'is copied: changing the caller\'s data afterwards, or the model\'s, does not '
 'affect the other.',
 ['histories'], 'all sequences of two queries from the whole query alphabet '
 'on several states', 'tests never look at the model again after a query',
 ['crosscat/state.py', 'mixtures/view.py', 'mixtures/relevance.py',
  'network/importance.py'], [('read-only queries', 'State and View query '
  'methods')], MC_SEQ, 'Exhaustive over ordered pairs of queries.')

prop('C14', 'Invalid requests raise ValueError and change nothing',
 'A request that is invalid (overlapping or repeated targets, unknown '
 'columns in a new row, constraining or querying observed cells, '
 'non-contiguous rows, missing values as observations, out of support '
 'values, columns of wrong length, existing or unknown columns, impossible '
 'constraints) raises ValueError. The model afterwards '
 'answers every query as before and accepts the corrected request.',
 ['inputs', 'histories'], 'every invalid request of the alphabet in every '
 'state of a family, followed by the corrected request',
 'tests assert that an exception is raised for some, not what it leaves '
 'behind', ['crosscat/state.py', 'mixtures/view.py', 'crosscat/sampling.py',
 'mixtures/dim.py'], [('validation', 'State._validate_cgpm_query, '
 'incorporate*, View')], MC_SEQ, 'Exhaustive over the request alphabet.')

prop('C15', 'Composed models answer with the law of the whole network',
 'For any acyclic network of models, conditional samples and densities follow '
 'the joint distribution the network defines: exactly when constraints can '
 'be evaluated in order, and otherwise as the documented importance estimate '
 'with the given accuracy. Inputs are passed to '
 'exactly the models that need them, cyclic or duplicate compositions are '
 'rejected, and detaching a model restores the answers before it was '
 'attached.',
 ['configurations', 'inputs'], 'all small acyclic networks of finite-valued '
 'models x all targets/constraints; all random-choice paths',
 'tests compose two or three fixed networks and sample',
 ['network/importance.py', 'network/helpers.py', 'crosscat/state.py'],
 [('likelihood weighting', 'ImportanceNetwork')], MC_RNG,
 'Exact distribution of samples and estimates for finite-valued models.')

prop('C16', 'Network structure helpers are correct on every graph',
 'For every network of models, sorting, ancestors, descendants, connected '
 'components, extraneous inputs and the inputs a query requires are those of '
 'the network\'s directed graph; cycles, shared outputs and models without '
 'outputs are rejected with ValueError.',
 ['configurations'], 'all directed graphs on up to 4 single-output nodes and '
 'all small multi-output ones, with and without external inputs',
 'tests use a handful of graphs', ['network/helpers.py',
 'network/importance.py'], [('graph helpers', 'network.helpers')], MC_INP,
 'Complete enumeration of graphs within bounds.')

prop('C17', 'Dependence, similarity and relevance match the partitions',
 'Dependence probability, row similarity and relevance are computed from the '
 'model\'s current partitions: symmetric where documented, one on the '
 'diagonal, consistent between pairwise and single forms, and equal to the '
 'probability the mixture gives to rows sharing a cluster. With models '
 'attached, two variables are dependent exactly when a view or a model is '
 'at or above both of them.',
 ['configurations', 'inputs'], 'all column and row partitions of small '
 'tables x all row and column subsets; all small compositions',
 'tests check ranges and one state', ['crosscat/state.py',
 'mixtures/relevance.py', 'mixtures/view.py', 'crosscat/engine.py'],
 [('dependence/similarity/relevance', 'State.*, mixtures.relevance')],
 MC_INP, 'Exact within bounds.')

prop('C18', 'Mutual information estimates the right quantity',
 'Mutual information of two variable sets, given fixed and marginalised '
 'constraints, is the average of the log density ratio over samples from the '
 'model\'s own conditional, so its expectation is the true conditional mutual '
 'information; identical sets give the entropy, independent views '
 'contribute zero, overlapping requests are rejected, and the query does not '
 'depend on the order of its arguments.',
 ['inputs', 'configurations'], 'small finite-valued states x all target and '
 'constraint choices; all random-choice paths with one or two samples',
 'tests allow wide Monte Carlo tolerances', ['crosscat/state.py'],
 [('estimator', 'State.mutual_information')], MC_RNG,
 'Exact expectation over all sample paths.')

prop('C19', 'Parallel evaluation equals serial evaluation',
 'Applying a function over a list in parallel returns exactly the list the '
 'serial map returns, in order, for any scheduling of the workers, any number '
 'of items and any worker count. If the function raises for some item the '
 'caller sees an error, and no worker process or pipe is left behind.',
 ['schedules', 'fault_sequences'], 'all interleavings of worker results and '
 'failures for up to 3 workers and 5 items', 'tests see the schedules the '
 'operating system happens to produce', ['utils/parallel_map.py'],
 [('job dispatch', 'parallel_map')],
 'stateless model checking of the real code under a controlled scheduler',
 'Processes and pipes are replaced by a deterministic scheduler; the real '
 'dispatch loop runs.')

prop('C20', 'An engine is its ensemble of states',
 'Every engine operation has the effect of applying it to each (selected) '
 'state: edits reach all states, queries return one answer per selected '
 'state in order, likelihood weighted answers combine states by their '
 'probability of the constraints, and adding or dropping states keeps the '
 'rest. Every operation on the same engine gives the same answers with or '
 'without multiprocessing, and an edit or transition the same states.',
 ['histories', 'configurations'], 'all short operation sequences on engines '
 'of 1 to 3 states, all state subsets, all resampling outcomes',
 'tests run single operations and check shapes', ['crosscat/engine.py'],
 [('fan out and combine', 'Engine')], MC_SEQ,
 'Compared with states driven one by one; multiprocess runs with real '
 'processes on fixed schedules, see C19 for all schedules.')

prop('C21', 'Inference runs exactly the requested amount of work',
 'Transitions run the requested kernels in the documented order the requested number of '
 'iterations, or stop once the time limit has passed, whichever is first, on '
 'exactly the requested columns, rows and views; iteration counts and '
 'checkpoints are recorded exactly, and a limit of zero does nothing. '
 'Columns and views outside the model are rejected.',
 ['schedules', 'configurations'], 'all combinations of iteration limits, '
 'time limits, kernel subsets, checkpoints and clock behaviours in bounds',
 'tests cannot control the clock', ['crosscat/state.py'],
 [('transition loop', 'State._transition_generic')],
 'exhaustive exploration of clock behaviours, budgets and random choices on '
 'the real loop', 'The simulated clock advances while kernels run, over every '
 'assignment of running times within bounds; the laws of kernels restricted to '
 'parts of the model, and of their sequences, are compared exactly.')

prop('C22', 'Data coding and schema parsing preserve the data',
 'Dummy coding categorical inputs is one-to-one on valid rows, leaves other '
 'values in place and order, and rejects codes outside the declared '
 'categories with an error; value maps and schemas applied to data frames '
 'decode back to the original data with missing values kept; type and argument strings '
 'parse to the types they name.',
 ['inputs'], 'all small categorical layouts and rows; all small data frames '
 'and schemas', 'tests use single examples', ['utils/data.py',
 'utils/config.py'], [('coding', 'utils.data, utils.config')], MC_INP,
 'Complete enumeration within bounds.')

prop('C23', 'Gaussian models obey the laws of the normal distribution',
 'Multivariate normal densities, marginals and conditionals, the linear '
 'regression\'s predictive and marginal likelihood, and the factor model\'s '
 'conditionals over observed and latent variables are those of the Gaussian '
 'they describe, for any split of variables and any missing cells, and '
 'simulated values have that mean and covariance.',
 ['inputs', 'configurations'], 'all splits of up to 4 variables, all data '
 'orders over small alphabets, all random-choice paths on a grid',
 'tests use random data with statistical tolerances', ['utils/mvnormal.py',
 'factor/factor.py', 'regressions/linreg.py'],
 [('gaussian algebra', 'mvnormal, FactorAnalysis, LinearRegression')],
 MC_INP, 'Closed forms compared to independent linear algebra at 1e-6.')

prop('C24', 'Exchanging a model with an external engine loses nothing',
 'Handing a CrossCat model to an external inference engine and taking the '
 'result back changes only the partitions and settings the engine returned: '
 'the data, partitions, counts and column meanings seen by the engine are '
 'those of the model, and the model afterwards has exactly the returned '
 'partitions with consistent bookkeeping.',
 ['configurations', 'histories'], 'all partitions before and after over small '
 'tables, exchanged with a recording stand-in for the engine',
 'the engine is not installed, so these paths have no tests here',
 ['crosscat/lovecat.py', 'crosscat/state.py'],
 [('conversion', 'lovecat._crosscat_*, _update_state')], MC_INP,
 'The engine is a stand-in that returns each possible result.')

prop('C25', 'Nearest neighbour and kernel models follow their definitions',
 'Nearest neighbour and kernel density models answer from exactly the '
 'rows currently recorded: densities and samples follow their documented '
 'neighbourhood and kernel mixtures for any targets, constraints and missing '
 'values, and forgetting a row restores the previous answers. Requests with '
 'unknown or overlapping variables are rejected.',
 ['inputs', 'histories'], 'all small data sets and target/constraint splits; '
 'record and forget histories', 'tests check shapes and wide tolerances',
 ['knn/mvknn.py', 'kde/mvkde.py'], [('neighbours and kernels',
 'MultivariateKnn, MultivariateKde')], MC_INP, 'Bounded data sets.')

prop('C26', 'Results are reproducible from the given source of randomness',
 'Two runs of the same operations from the same seed give identical results '
 'for every model type and operation, whatever the state of the process '
 'wide random generator and without disturbing it; continuous draws change '
 'with the seed and from one request to the next.',
 ['histories'], 'all operations of the alphabet, in pairs, under two global '
 'generator states', 'tests fix the global seed as well',
 ['crosscat/state.py', 'crosscat/engine.py', 'mixtures/view.py',
  'mixtures/dim.py', 'utils/general.py'], [('rng threading', 'rng arguments')],
 MC_SEQ, 'Exhaustive over the operation alphabet and ordered pairs.')

prop('C27', 'Partition and constraint validation accept exactly valid input',
 'Validation of dependence and independence constraints, of partitions '
 'against them, and of constraint compatibility accepts exactly the inputs '
 'that satisfy the documented rules, and splitting queries by partition puts '
 'every variable in exactly its own block with its value.',
 ['inputs'], 'all constraint sets and partitions over up to 4 customers',
 'tests use a dozen examples', ['utils/validation.py', 'utils/general.py'],
 [('validation', 'utils.validation')], MC_INP, 'Complete within bounds.')

prop('C28', 'Log space arithmetic is exact and draws are faithful',
 'Log sums, log means, weighted log means and normalisation give the '
 'mathematical value without overflow, underflow or spurious undefined '
 'results for every combination of ordinary, huge, tiny and infinite '
 'entries, and draws from log or plain weights have exactly the normalised '
 'probabilities.',
 ['inputs'], 'all vectors up to length 4 over an alphabet of ordinary, '
 'extreme and infinite values; all random-choice paths of draws',
 'tests check selected vectors', ['utils/general.py'],
 [('log arithmetic', 'utils.general')], MC_INP, 'Complete within bounds.')

prop('C29', 'Regression and toy models honour the model contract',
 'Random forest, least squares, the example conditional models and the '
 'synthetic two-dimensional models give densities that are proper over the '
 'target and those of their stated law, simulate from that same law (least '
 'squares: its prediction), treat recorded rows, sample counts and the order '
 'of inputs as documented, forget rows exactly; the regressions refuse bad '
 'targets, inputs or values with an error that leaves them unchanged.',
 ['histories', 'inputs'], 'all short record/forget/fit histories and all '
 'inputs over a small alphabet; all random-choice paths of simulate',
 'tests run one data set each', ['regressions/forest.py',
 'regressions/ols.py', 'dummy/fourway.py', 'dummy/piecewise.py',
 'dummy/twoway.py', 'dummy/trollnormal.py', 'dummy/barebones.py',
 'uncorrelated/directed.py', 'uncorrelated/undirected.py'],
 [('contract', 'CGpm subclasses')], MC_SEQ, 'Bounded histories and inputs; '
 'continuous draws on a quantile grid.')

prop('C30', 'Parameter samplers target the stated posterior',
 'A move of mh_sample or slice_sample leaves the law of its target density '
 'invariant, whatever the start, the step and the domain (unbounded, half '
 'bounded, bounded), never leaves the domain and never evaluates the target '
 'outside it; the samples returned are every lag-th point of the chain after '
 'burn points, num_samples of them; mh_sample widens its step when more than '
 '40 % of the proposals of a window were accepted and narrows it below 20 %. '
 'rejection_sample returns independent draws of the normalized target and '
 'refuses an envelope below the target. The parameter update of uncollapsed '
 'components (beta, truncated normal) accepts each proposal as the ratio of '
 'the joint scores of prior and data says, updates every parameter of every '
 'cluster of a column given its own rows, and fresh parameters come from the '
 'stated prior.',
 ['inputs', 'configurations'], 'all proposal and acceptance outcomes, on a '
 'grid of equally likely values, of one move from every start on a grid; all '
 'histories of choices up to a depth; all data sets of up to 3 values over a '
 'small alphabet', 'tests look at sample '
 'histograms', ['utils/sampling.py', 'primitives/beta.py',
 'primitives/normal_trunc.py', 'mixtures/dim.py'], [('mh and slice',
 'utils.sampling')], MC_RNG,
 'Acceptance decisions exact; proposals on a grid.')

NOT_APPLICABLE = []
