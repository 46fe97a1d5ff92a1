"""Finite-valued models with known tables, to be composed into networks."""
import itertools
import math

import numpy as np


def _cgpm():
    from cgpm.cgpm import CGpm
    return CGpm


class Misuse(Exception):
    """The network passed a model something it must not."""


class Table(object):
    """A model whose outputs take the values 0..n-1, with probabilities given
    by a fixed integer formula of the outputs and inputs.

    exact: the model must be given exactly its inputs."""

    def __init__(self, outputs, inputs, rng, seed=1, n=2, zero=0,
            allow=(), exact=True):
        self.outputs, self.inputs = list(outputs), list(inputs)
        self.rng, self.seed, self.n = rng, seed, n
        self.zero = zero
        self.calls = []
        self.allow = set(allow)
        self.exact = exact

    # ---------------------------------------------------------------- law
    def weight(self, out, inp):
        s = self.seed
        for i, x in enumerate(out):
            s += (3 * i + 2) * int(x) * (s + 1)
        for j, x in enumerate(inp):
            s += (2 * j + 3) * (int(round(2 * x)) + 1) * (len(out) + 1)
            s += int(out[0]) * int(round(2 * x)) * (j + 1)
        w = s % 5
        if self.zero and sum(out) and s % self.zero == 0:
            return 0
        return w + 1

    def table(self, inp):
        vals = list(itertools.product(range(self.n),
            repeat=len(self.outputs)))
        ws = [self.weight(v, inp) for v in vals]
        t = float(sum(ws))
        return {v: w / t for v, w in zip(vals, ws)}

    def prob(self, targets, given, inputs):
        """P(targets, given | inputs) as a marginal."""
        want = dict(given or {})
        want.update(targets)
        inp = tuple(inputs[i] for i in self.inputs)
        return math.fsum(p for v, p in self.table(inp).items()
            if all(float(v[self.outputs.index(c)]) == float(x)
                for c, x in want.items()))

    # ------------------------------------------------------------- checks
    def _check(self, rowid, names, constraints, inputs):
        self.calls.append((rowid, sorted(names), sorted(constraints or {}),
            sorted(inputs or {})))
        bad = [c for c in list(names) + list(constraints or {})
            if c not in self.outputs]
        if bad:
            raise Misuse('model of %s asked about %s' % (self.outputs, bad))
        if set(names) & set(constraints or {}):
            raise Misuse('model of %s asked about what it is given'
                % self.outputs)
        got = set(inputs or {})
        if got != set(self.inputs):
            raise Misuse('model of %s with inputs %s was given inputs %s'
                % (self.outputs, self.inputs, sorted(got)))

    # -------------------------------------------------------------- model
    def incorporate(self, rowid, observation, inputs=None):
        return

    def unincorporate(self, rowid):
        return

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        self._check(rowid, targets, constraints, inputs)
        p = self.prob(targets, constraints, inputs or {})
        q = self.prob({}, constraints, inputs or {})
        return math.log(p / q) if p > 0 else -float('inf')

    def simulate(self, rowid, targets, constraints=None, inputs=None,
            N=None):
        self._check(rowid, targets, constraints, inputs)
        inp = tuple((inputs or {})[i] for i in self.inputs)
        live = [(v, p) for v, p in sorted(self.table(inp).items())
            if all(float(v[self.outputs.index(c)]) == float(x)
                for c, x in (constraints or {}).items())]
        t = math.fsum(p for v, p in live)
        if t <= 0:
            raise ValueError('impossible: %s' % (constraints,))

        def one():
            j = self.rng.choice(len(live), p=[p / t for v, p in live])
            return {c: live[j][0][self.outputs.index(c)] for c in targets}
        return one() if N is None else [one() for _ in range(N)]

    def logpdf_score(self):
        return 0.

    def transition(self, **kw):
        return

    def to_metadata(self):
        return {'factory': ('nets', 'Table'), 'outputs': self.outputs,
            'inputs': self.inputs, 'seed': self.seed, 'n': self.n,
            'zero': self.zero}

    @classmethod
    def from_metadata(cls, md, rng=None):
        return cls(md['outputs'], md['inputs'], rng, md['seed'], md['n'],
            md['zero'])


def joint(models, external, order=None):
    """{assignment (tuple of (var, value)): probability} of a network."""
    left = list(models)
    dist = {(): 1.}
    known = set(external)
    while left:
        for m in left:
            if all(i in known for i in m.inputs):
                break
        else:
            raise ValueError('cyclic or missing inputs')
        left.remove(m)
        new = {}
        for a, p in dist.items():
            d = dict(a)
            d.update(external)
            inp = tuple(d[i] for i in m.inputs)
            for v, w in m.table(inp).items():
                k = a + tuple(zip(m.outputs, v))
                new[k] = new.get(k, 0.) + p * w
        dist = new
        known.update(m.outputs)
    return dist


class Fixed(object):
    """A model whose law is a given table (of no inputs)."""

    def __init__(self, outputs, table):
        self.outputs, self.inputs = list(outputs), []
        self._table = table

    def table(self, inp):
        return self._table


# ------------------------------------------------------------ the reference
def required(models, external, clamp, wanted):
    of = {o: m for m in models for o in m.outputs}
    todo = list(wanted) + list(clamp)
    active = []
    while todo:
        x = todo.pop()
        if x in external or x not in of or of[x] in active:
            continue
        active.append(of[x])
        todo.extend(of[x].inputs)
    need = set(i for m in active for i in m.inputs if i in of)
    return active, need | set(wanted)


def cost(models, external, clamp, wanted, acc):
    """About how many paths a weighted sample has."""
    active, need = required(models, external, clamp, wanted)
    out = 1
    for m in active:
        free = [o for o in m.outputs if o in need and o not in clamp]
        out *= 2 ** len(free) * (3 if free and isinstance(m, Fixed) else 1)
    return out ** acc


def law(models, external, clamp, wanted):
    """Law of one weighted sample: {(wanted values, weight): probability}."""
    of = {o: m for m in models for o in m.outputs}
    active, need = required(models, external, clamp, wanted)
    order, known = [], set(external) | (set(clamp) - set(of))
    left = list(active)
    while left:
        m = [m for m in left if all(i in known for i in m.inputs)][0]
        left.remove(m)
        order.append(m)
        known |= set(m.outputs)
    dist = {((), 1.): 1.}
    for m in order:
        new = {}
        keep = [o for o in m.outputs if o in need and o not in clamp]
        for (a, w), p in dist.items():
            if w == 0:
                new[a, w] = new.get((a, w), 0.) + p
                continue
            d = dict(external)
            d.update(a)
            d.update(clamp)
            tab = m.table(tuple(d[i] for i in m.inputs))
            live = {v: q for v, q in tab.items() if q > 0 and all(
                float(clamp[o]) == float(v[i])
                for i, o in enumerate(m.outputs) if o in clamp)}
            t = math.fsum(live.values())
            if t <= 0:
                k = (a, 0.)
                new[k] = new.get(k, 0.) + p
                continue
            for v, q in live.items():
                e = tuple((o, v[m.outputs.index(o)]) for o in keep)
                k = (a + e, w * t)
                new[k] = new.get(k, 0.) + p * q / t
        dist = new
    out = {}
    for (a, w), p in dist.items():
        d = dict(a)
        # A discarded sample: its values never matter.
        k = (tuple(d[x] for x in wanted) if w > 0 else None, w)
        out[k] = out.get(k, 0.) + p
    return out


def weights(models, external, clamp):
    out = {}
    for (_a, w), p in law(models, external, clamp, ()).items():
        k = float('%.10g' % w)
        out[k] = out.get(k, 0.) + p
    return out


def power(dist, n):
    for combo in itertools.product(dist.items(), repeat=n):
        yield [k for k, _p in combo], math.prod(p for _k, p in combo)


def density(models, external, targets, given, acc):
    """Law of the estimated density (or 'refused')."""
    out = {}
    both = dict(given)
    both.update(targets)
    J = list(power(weights(models, external, both), acc))
    M = list(power(weights(models, external, given), acc)) if given \
        else [([1.], 1.)]
    for ms, q in M:
        for js, p in J:
            b = math.fsum(ms) / len(ms)
            k = 'refused' if b == 0 else ['%.7g' % (
                math.fsum(js) / len(js) / b)][0]
            out[k] = out.get(k, 0.) + p * q
    return out


def samples(models, external, targets, given, acc):
    """Law of one sample (or 'refused')."""
    out = {}
    for ks, p in power(law(models, external, given, tuple(targets)), acc):
        t = math.fsum(w for _a, w in ks)
        if t == 0:
            out['refused'] = out.get('refused', 0.) + p
            continue
        for a, w in ks:
            if w > 0:
                out[a] = out.get(a, 0.) + p * w / t
    return out
