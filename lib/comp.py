"""Small alphabets for the univariate component distributions."""
import importlib
import math

SPECS = {
    # name: (module, class, distargs, list of hypers, values, bad values)
    'bernoulli': ('bernoulli', 'Bernoulli', None,
        [{'alpha': 1., 'beta': 1.}, {'alpha': .5, 'beta': 2.}],
        [0, 1], [-1, 2, .5]),
    'categorical': ('categorical', 'Categorical', {'k': 3},
        [{'alpha': 1.}, {'alpha': .4}], [0, 1, 2], [3, -1, .5]),
    'poisson': ('poisson', 'Poisson', None,
        [{'a': 1., 'b': 1.}, {'a': 2., 'b': .5}], [0, 1, 4], [-1, 1.5]),
    'geometric': ('geometric', 'Geometric', None,
        [{'a': 1., 'b': 1.}, {'a': 2., 'b': .5}], [0, 1, 4], [-1, 1.5]),
    'exponential': ('exponential', 'Exponential', None,
        [{'a': 1., 'b': 1.}, {'a': 2.5, 'b': .5}], [0., .7, 3.], [-.1]),
    'lognormal': ('lognormal', 'Lognormal', None,
        [{'m': 1., 'r': 1., 's': 1., 'nu': 1.},
         {'m': .3, 'r': 2., 's': .5, 'nu': 3.}], [.4, 1., 5.], [0., -1.]),
    'normal': ('normal', 'Normal', None,
        [{'m': 0., 'r': 1., 's': 1., 'nu': 1.},
         {'m': -1., 'r': .5, 's': 2., 'nu': 3.}], [-1.5, 0., 2.], []),
    'vonmises': ('vonmises', 'Vonmises', None,
        [{'a': 1., 'b': math.pi, 'k': 1.5}, {'a': .5, 'b': 1., 'k': 3.}],
        [0., 1., 5.], [-.1, 7.]),
    'beta': ('beta', 'Beta', None, [{}], [.2, .5, .9], [-.5, 1.5]),
    'normal_trunc': ('normal_trunc', 'NormalTrunc', {'l': -1., 'h': 3.},
        [{}], [-.5, 0., 2.5], [-1.5, 3.5]),
    'crp': ('crp', 'Crp', None, [{'alpha': 1.}, {'alpha': .3}],
        [0, 1, 2], []),
}
COLLAPSED = [n for n in SPECS if n not in ('beta', 'normal_trunc')]
DISCRETE = ['bernoulli', 'categorical', 'poisson', 'geometric', 'crp']
PARAMS = {'beta': [{'strength': 2., 'balance': .5},
                   {'strength': 5., 'balance': .2}],
    'normal_trunc': [{'mu': 1., 'sigma': 1.}, {'mu': 2.5, 'sigma': .7}]}


def make(name, hypers=None, params=None, rng=None, output=0):
    mod, cls, distargs, hs, _v, _b = SPECS[name]
    klass = getattr(importlib.import_module('cgpm.primitives.' + mod), cls)
    kw = {}
    if params is not None:
        kw['params'] = dict(params)
    if rng is None:
        import numpy as np
        rng = np.random.RandomState(3)
    return klass(outputs=[output], inputs=[],
        hypers=dict(hypers if hypers is not None else hs[0]),
        distargs=dict(distargs) if distargs else None, rng=rng, **kw)


def configs(name):
    """(hypers, params) pairs."""
    if name in PARAMS:
        return [({}, p) for p in PARAMS[name]]
    return [(h, None) for h in SPECS[name][3]]
