"""Network structure helpers are correct on every graph."""
import itertools

import mc
import ref
from crng import CRng

PID = 'C16'
RULE = ('all directed graphs (self-loops included up to 3 nodes) on up to 4 '
    '(5 in part, thorough tier) single-output models and all input choices '
    'of small sets of multi-output models, under several variable namings '
    'and with inputs from outside; all target and constraint subsets')
ASSUMPTIONS = ['graph closures computed independently by fixed points']


class Stub(object):
    """A model as the helpers see it: outputs and inputs."""

    def __init__(self, outputs, inputs):
        self.outputs = list(outputs)
        self.inputs = list(inputs)


NAMES = [[0, 1, 2, 3, 4], [7, -3, 12, 5, 40]]


def cases(tier):
    quick = tier == 'quick'
    for n in (1, 2, 3):
        edges = [(a, b) for a in range(n) for b in range(n)]
        total = 2 ** len(edges)
        for lo in range(0, total, 128):
            yield {'id': 'loops/%d/%d' % (n, lo), 'n': n, 'loops': True,
                'lo': lo, 'hi': min(lo + 128, total), 'names': 1}
    total = 2 ** 12
    for lo in range(0, total, 256):
        yield {'id': 'graph/4/%d' % lo, 'n': 4, 'loops': False, 'lo': lo,
            'hi': lo + 256, 'names': (lo // 256) % 2}
    # Several outputs per model.
    for sizes in ([2, 1, 2], [1, 3, 1], [2, 2], [1, 2, 1, 1]):
        if quick and len(sizes) > 3:
            continue
        yield {'id': 'multi/%s' % sizes, 'sizes': sizes}
    if not quick:
        for lo in range(0, 2 ** 10, 32):
            yield {'id': 'dag/5/%d' % lo, 'n': 5, 'dag': True, 'lo': lo,
                'hi': lo + 32, 'names': 1}
    # A model with four parents, above every graph of them.
    for names in (0, 1):
        yield {'id': 'wide/%d' % names, 'n': 5, 'dag': True, 'wide': True,
            'lo': 0, 'hi': 2 ** 10, 'names': names}
    yield {'id': 'invalid', 'invalid': True}
    yield {'id': 'sorting', 'sorting': True}


def run_case(case, rec):
    if case.get('invalid'):
        return invalid(case, rec)
    if case.get('sorting'):
        return sorting(case, rec)
    if 'sizes' in case:
        return multi(case, rec)
    n = case['n']
    names = NAMES[case['names']]
    if case.get('dag'):
        edges = [(a, b) for a in range(n) for b in range(a + 1, n)]
    else:
        edges = [(a, b) for a in range(n) for b in range(n)
            if case['loops'] or a != b]
    for mask in range(case['lo'], case['hi']):
        chosen = [e for i, e in enumerate(edges) if mask >> i & 1]
        if case.get('wide') and sum(b == n - 1 for _a, b in chosen) < n - 1:
            continue
        cg = []
        order = list(range(n))
        if mask % 2:
            order = order[::-1]
        for b in order:
            ins = [names[a] for a, c in chosen if c == b]
            # Some inputs come from outside the network.
            if (mask + b) % 3 == 0:
                ins = ins + [100 + b % 2]
            cg.append(Stub([names[b]], ins))
        check(rec, case, cg, mask)


def multi(case, rec):
    sizes = case['sizes']
    outs, nxt = [], 3
    for k in sizes:
        outs.append([nxt + 2 * j for j in range(k)])
        nxt += 2 * k + 1
    opts = []
    for i in range(len(sizes)):
        pool = [v for j, o in enumerate(outs) if j != i for v in o]
        opts.append([list(s) for r in range(min(3, len(pool) + 1))
            for s in itertools.combinations(pool, r)])
    for k, combo in enumerate(itertools.product(*opts)):
        if len(sizes) > 3 and k % 5:
            continue
        cg = [Stub(o, ins + ([50 + i % 2] if (k + i) % 2 else []))
            for i, (o, ins) in enumerate(zip(outs, combo))]
        check(rec, case, cg, k, few=True)


def closure(start, step):
    seen, todo = set(), list(start)
    while todo:
        v = todo.pop()
        if v not in seen:
            seen.add(v)
            todo.extend(step(v))
    return seen


def check(rec, case, cg, k, few=False):
    from cgpm.network import helpers as hu
    from cgpm.network.importance import ImportanceNetwork
    desc = [(c.outputs, c.inputs) for c in cg]
    rec.state(repr(desc))
    owner = {v: i for i, c in enumerate(cg) for v in c.outputs}
    known = set(owner)
    parents = {i: set(owner[v] for v in c.inputs if v in owner)
        for i, c in enumerate(cg)}
    cyclic = any(i in closure(parents[i], lambda j: parents[j])
        for i in parents)

    def bad(what, msg):
        rec.fail('%s %s' % (what, desc), '%s on %s: %s' % (what, desc, msg))
    v_to_c = hu.retrieve_variable_to_cgpm(cg)
    rec.eval()
    rec.trans()
    rec.trace()
    if dict(v_to_c) != owner:
        bad('retrieve_variable_to_cgpm', v_to_c)
        return
    adj = hu.retrieve_adjacency_list(cg, v_to_c)
    if {i: sorted(x) for i, x in adj.items()} != \
            {i: sorted(x) for i, x in parents.items()}:
        bad('retrieve_adjacency_list', adj)
        return
    M = hu.retrieve_adjacency_matrix(cg, v_to_c)
    if M.shape != (len(cg), len(cg)) or any(bool(M[a, b]) !=
            (a in parents[b]) for a in range(len(cg))
            for b in range(len(cg))):
        bad('retrieve_adjacency_matrix', M.tolist())
    ext = [v for c in cg for v in c.inputs if v not in owner]
    if sorted(hu.retrieve_extraneous_inputs(cg, v_to_c)) != sorted(ext):
        bad('retrieve_extraneous_inputs',
            hu.retrieve_extraneous_inputs(cg, v_to_c))
    lab = [int(x) for x in hu.retrieve_weakly_connected_components(cg)]
    comp = [min(closure([i], lambda j: parents[j] | set(
        q for q in parents if j in parents[q]))) for i in range(len(cg))]
    rec.eval()
    if ref.canon_partition(lab) != ref.canon_partition(comp):
        bad('retrieve_weakly_connected_components', lab)
    # Order, or refusal.
    e = mc.raises(hu.topological_sort, adj)
    e2 = mc.raises(ImportanceNetwork, cg, rng=CRng(1))
    rec.eval(2)
    if cyclic:
        rec.outcome('cyclic')
        if not isinstance(e, ValueError) or not isinstance(e2, ValueError):
            bad('cycle', 'accepted (%r, %r)' % (e, e2))
        return
    if e is not None or e2 is not None:
        bad('acyclic', 'refused with %r, %r' % (e, e2))
        return
    topo = hu.topological_sort(adj)
    if sorted(topo) != list(range(len(cg))) or any(topo.index(p) >
            topo.index(i) for i in parents for p in parents[i]):
        bad('topological_sort', topo)
    rec.outcome(tuple(topo))
    # Ancestors and descendants of each variable.
    for v in owner:
        up = closure(cg[owner[v]].inputs,
            lambda u: cg[owner[u]].inputs if u in owner else [])
        got = set(hu.retrieve_ancestors(cg, v))
        down = closure([o for c in cg if v in c.inputs for o in c.outputs],
            lambda u: [o for c in cg if u in c.inputs for o in c.outputs])
        got2 = set(hu.retrieve_descendents(cg, v))
        rec.eval(2)
        if got != up:
            bad('retrieve_ancestors', '%s has %s, not %s' % (v, sorted(got),
                sorted(up)))
        if got2 != down:
            bad('retrieve_descendents', '%s has %s, not %s' % (v,
                sorted(got2), sorted(down)))
    for f in (hu.retrieve_ancestors, hu.retrieve_descendents):
        e = mc.raises(f, cg, 9999)
        if not isinstance(e, ValueError):
            bad(f.__name__, 'unknown variable: %r' % (e,))
    # Inputs needed by every query.
    net = ImportanceNetwork(cg, rng=CRng(1))
    vs = sorted(owner)
    for roles in itertools.product((0, 1, 2), repeat=len(vs)):
        if few and sum(r != 0 for r in roles) > 3:
            continue
        T = [v for v, r in zip(vs, roles) if r == 1]
        C = {v: 0 for v, r in zip(vs, roles) if r == 2}

        def step(u):
            return cg[owner[u]].inputs if u in owner else []
        need = closure(T + list(C), step)
        want = sorted(need & known - set(T) - set(C))
        got = sorted(net.retrieve_required_inputs(list(T), dict(C)))
        got2 = sorted(hu.retrieve_required_inputs(cg, topo, list(T), dict(C),
            list(ext)))
        rec.eval(2)
        if got != want or got2 != want:
            bad('retrieve_required_inputs', 'targets %s, constraints %s: %s, '
                '%s, not %s' % (T, sorted(C), got, got2, want))
            return
    if k % 100 == 7:
        rec.sample({'graph': desc, 'order': topo})


def invalid(case, rec):
    from cgpm.network import helpers as hu
    from cgpm.network.importance import ImportanceNetwork
    pool = [0, 1, 2]
    subsets = [list(s) for r in range(4) for s in
        itertools.combinations(pool, r)]
    for outs in itertools.product(subsets, repeat=3):
        cg = [Stub(o, []) for o in outs]
        rec.state(repr(outs))
        ok = all(outs) and all(not set(a) & set(b) for a, b in
            itertools.combinations(outs, 2))
        for f in (lambda: hu.validate_cgpms(cg),
                lambda: ImportanceNetwork(cg, rng=CRng(1))):
            e = mc.raises(f)
            rec.eval()
            rec.trans()
            rec.trace()
            if ok and e is not None:
                rec.fail('valid %s' % (outs,), 'refused: %r' % (e,))
            if not ok and not isinstance(e, ValueError):
                rec.fail('invalid %s' % (outs,), 'outputs %s accepted (%r)'
                    % (outs, e))
    rec.sample({'outputs': [[0], [1], [0, 2]], 'verdict': 'ValueError'})


def sorting(case, rec):
    """topological_sort on graphs given as lists or dictionaries, with edges
    to nodes that are not in the graph."""
    from cgpm.network.helpers import topological_sort
    nodes = [10, 5, 8]
    pool = [10, 5, 8, 99]
    subsets = [list(s) for r in range(5) for s in
        itertools.combinations(pool, r)]
    for edges in itertools.product(subsets, repeat=3):
        for order in itertools.permutations(range(3)):
            g = [(nodes[i], list(edges[i])) for i in order]
            par = {a: [x for x in b if x in nodes] for a, b in g}
            cyclic = any(a in closure(par[a], lambda x: par[x]) for a in par)
            rec.state(repr(g))
            for form in (g, dict(g)):
                before = repr(form)
                e = mc.raises(topological_sort, form)
                rec.eval()
                rec.trans()
                rec.trace()
                if repr(form) != before:
                    rec.fail('sort argument', 'changed its argument %s'
                        % before)
                if cyclic:
                    if not isinstance(e, ValueError):
                        rec.fail('sort %s' % g, 'cyclic graph: %r' % (e,))
                    continue
                if e is not None:
                    rec.fail('sort %s' % g, 'acyclic graph: %r' % (e,))
                    continue
                s = topological_sort(form)
                if sorted(s) != sorted(nodes) or any(s.index(p) > s.index(a)
                        for a in par for p in par[a]):
                    rec.fail('sort %s' % g, 'order %s' % (s,))
