"""Partition and constraint validation accept exactly valid input."""
import itertools

import mc
import ref

PID = 'C27'
RULE = ('all lists of up to 2 dependence blocks (with repeats, single '
    'customers and customers out of range) x up to 2 independence tuples of '
    'length 1-3 over 2-4 customers; all partitions; all pairs of constraint '
    'sets; all ways to split queries and evidence over all assignments of 4 '
    'variables')
ASSUMPTIONS = ['non-negative customers, non-empty blocks']


def block_pool(n, reps=True):
    out = []
    for r in range(1, n + 2):
        out.extend(list(c) for c in itertools.combinations(range(n + 1), r))
    if reps:
        out.extend([[0, 0], [1, 0, 1]])
        out.extend([[n, 0], [1, 0]])
    return out


def pair_pool(n):
    return list(itertools.product(range(n + 1), repeat=2)) + \
        [(0,), (1,), (n,), (0, 1, 2), (n - 1, 0, 1)]


def cases(tier):
    quick = tier == 'quick'
    for n in (2, 3, 4):
        pool = block_pool(n)
        yield {'id': 'validate/%d/none' % n, 'what': 'validate', 'n': n,
            'first': None}
        for i in range(len(pool)):
            yield {'id': 'validate/%d/%s' % (n, pool[i]), 'n': n,
                'what': 'validate', 'first': pool[i],
                'pairs2': not quick or n < 4}
    for n in (2, 3, 4) if quick else (2, 3, 4, 5):
        yield {'id': 'partition/%d' % n, 'what': 'partition', 'n': n}
    yield {'id': 'compatible', 'what': 'compatible'}
    yield {'id': 'customers', 'what': 'customers'}
    for i in range(5):
        yield {'id': 'block/%d' % i, 'what': 'block', 'first': i}
    for z in ref.partitions(4):
        yield {'id': 'split/%s' % z, 'what': 'split', 'Z': z}


def valid(n, Cd, Ci):
    flat = [c for b in Cd for c in b]
    return all(len(b) > 1 for b in Cd) and len(set(flat)) == len(flat) and \
        (n is None or all(c < n for c in flat)) and \
        all(len(p) == 2 and p[0] != p[1] for p in Ci) and \
        (n is None or all(c < n for p in Ci for c in p)) and \
        not any(p[0] in b and p[1] in b for p in Ci for b in Cd)


def run_case(case, rec):
    {'validate': validate, 'partition': partition, 'split': split,
        'compatible': compatible, 'customers': customers,
        'block': block}[case['what']](
        case, rec)


def verdict(rec, key, f, ok):
    e = mc.raises(f)
    rec.eval()
    rec.trans()
    rec.trace()
    rec.outcome((ok, type(e).__name__, str(e)[:20]))
    if ok and (e is not None or f() is not True):
        rec.fail(key, 'valid constraints refused: %r' % (e,))
    if not ok and not isinstance(e, ValueError):
        rec.fail(key, 'invalid constraints: %r instead of ValueError' % (e,))


def validate(case, rec):
    from cgpm.utils import validation as vu
    n = case['n']
    pool, pairs = block_pool(n), pair_pool(n)
    seconds = [None] + pool if case['first'] is not None else [None]
    for b2 in seconds:
        Cd = [b for b in (case['first'], b2) if b is not None]
        for p1 in [None] + pairs:
            for p2 in [None] + (pairs if p1 is not None and b2 is None
                    and case.get('pairs2') else []):
                Ci = [p for p in (p1, p2) if p is not None]
                rec.state((n, repr(Cd), repr(Ci)))
                for k in (n, None):
                    verdict(rec, 'dependency %s %s %s' % (k, Cd, Ci),
                        lambda: vu.validate_dependency_constraints(k, Cd,
                        Ci), valid(k, Cd, Ci))
                verdict(rec, 'input %s %s %s' % (n, Cd, Ci),
                    lambda: vu.validate_crp_constrained_input(n, Cd, Ci, {},
                    {}), valid(n, Cd, Ci))
    rec.sample({'customers': n, 'dependent': Cd, 'independent': Ci,
        'valid': valid(n, Cd, Ci)})


def partition(case, rec):
    from cgpm.utils import validation as vu
    n = case['n']
    all_pairs = list(itertools.combinations(range(n), 2))
    all_Ci = [list(s) for r in range(min(len(all_pairs), 3) + 1)
        for s in itertools.combinations(all_pairs, r)]
    for p in ref.partitions(n):
        Cd = [[i for i in range(n) if p[i] == b] for b in range(max(p) + 1)]
        Cd = [b for b in Cd if len(b) > 1]
        for Ci in all_Ci:
            if not valid(n, Cd, Ci):
                continue
            for flip in (False, True):
                ci = [q[::-1] for q in Ci] if flip else Ci
                for z in ref.partitions(n):
                    want = all(len(set(z[c] for c in b)) == 1 for b in Cd) \
                        and all(z[a] != z[b] for a, b in ci)
                    lab = [3 * x + 1 for x in z]
                    rec.state((n, repr(Cd), repr(ci), tuple(z)))
                    for form in (lab, dict(enumerate(lab))):
                        got = vu.validate_crp_constrained_partition(form, Cd,
                            ci, {}, {})
                        rec.eval()
                        rec.trans()
                        if bool(got) != want:
                            rec.fail('partition %s %s %s' % (z, Cd, ci),
                                'verdict %r, should be %r' % (got, want))
    rec.trace()


def sets(n):
    """Valid or not, small constraint sets over n rows."""
    blocks = [[]] + [[list(c)] for r in (2, 3) for c in
        itertools.combinations(range(n), r)]
    pairs = [[]] + [[c] for c in itertools.permutations(range(n), 2)]
    return blocks, pairs


def compatible(case, rec):
    from cgpm.utils import validation as vu
    blocks, pairs = sets(3)
    for Cd1, Ci1, Cd2, Ci2 in itertools.product(blocks, pairs, blocks,
            pairs):
        want = all(valid(None, d, i) for d in (Cd1, Cd2)
            for i in (Ci1, Ci2))
        got = vu.check_compatible_constraints(Cd1, Ci1, Cd2, Ci2)
        rec.state((repr(Cd1), repr(Ci1), repr(Cd2), repr(Ci2)))
        rec.eval()
        rec.trans()
        rec.trace()
        if got is not want:
            rec.fail('compatible %s %s %s %s' % (Cd1, Ci1, Cd2, Ci2),
                'verdict %r, should be %r' % (got, want))
    rec.sample({'first': [[[0, 1]], []], 'second': [[], [(1, 0)]],
        'compatible': False})


def customers(case, rec):
    """Two columns, their constraint and their row constraints."""
    from cgpm.utils import validation as vu
    blocks, pairs = sets(3)
    small = [(d, i) for d in blocks[:3] for i in pairs[:4]]
    for Ci in ([], [(0, 1)], [(1, 0)], [(0, 2)], [(2, 1), (1, 0)]):
        for (Da, Ia), (Db, Ib) in itertools.product(small, repeat=2):
            for has in itertools.product((0, 1), repeat=4):
                Rd, Ri = {}, {}
                if has[0]:
                    Rd[0] = Da
                if has[1]:
                    Ri[0] = Ia
                if has[2]:
                    Rd[1] = Db
                if has[3]:
                    Ri[1] = Ib
                want = (0, 1) not in Ci and (1, 0) not in Ci
                if want and (has[0] or has[1]) and (has[2] or has[3]):
                    ds = [Rd.get(0, []), Rd.get(1, [])]
                    iis = [Ri.get(0, []), Ri.get(1, [])]
                    want = all(valid(None, d, i) for d in ds for i in iis)
                for a, b in ((0, 1), (1, 0)):
                    got = vu.check_compatible_customers([], Ci, Ri, Rd, a, b)
                    rec.eval()
                    rec.trans()
                    if bool(got) != want:
                        rec.fail('customers %s %s %s' % (Ci, Rd, Ri),
                            'columns %s, %s: verdict %r, should be %r'
                            % (a, b, got, want))
                # As part of a whole specification.
                if not Ci:
                    ok = want and all(valid(None, Rd[c], Ri.get(c, []))
                        for c in Rd)
                    verdict(rec, 'rows %s %s' % (Rd, Ri), lambda:
                        vu.validate_crp_constrained_input(3, [[0, 1]], [],
                        Rd, Ri), ok)
            rec.state((repr(Ci), repr((Da, Ia, Db, Ib))))


def block(case, rec):
    """Three columns that must be together, each with row constraints."""
    from cgpm.utils import validation as vu
    # Constraints of one column on the rows: nothing, a block, a pair.
    pool = [(None, None), ([[0, 1]], None), (None, [(0, 1)]),
        (None, [(1, 2), (1, 0)]), ([[1, 2]], [(0, 1)])]
    assert len(pool) == 5
    others = [c for c in range(4)]
    for cols in itertools.permutations(others, 3):
        for rest in itertools.product(pool, repeat=2):
            Rd, Ri = {}, {}
            for c, (d, i) in zip(cols, (pool[case['first']],) + rest):
                if d is not None:
                    Rd[c] = d
                if i is not None:
                    Ri[c] = i
            named = [c for c in cols if c in Rd or c in Ri]
            ok = all(valid(None, Rd.get(a, []), Ri.get(b, []))
                for a in named for b in named)
            rec.state(repr((cols, sorted(Rd.items()), sorted(Ri.items()))))
            for Cd in ([list(cols)], [list(cols[::-1])]):
                verdict(rec, 'block %s %s %s' % (Cd, Rd, Ri), lambda:
                    vu.validate_crp_constrained_input(4, Cd, [], Rd, Ri), ok)
            # Apart, only each column by itself matters.
            free = all(valid(None, Rd[c], Ri.get(c, [])) for c in Rd)
            verdict(rec, 'block apart %s %s' % (Rd, Ri), lambda:
                vu.validate_crp_constrained_input(4, [], [], Rd, Ri), free)
    rec.sample({'block': list(cols), 'rows dependent': Rd,
        'rows independent': Ri, 'valid': ok})


def split(case, rec):
    from cgpm.utils import validation as vu
    vars_ = [3, 0, 8, 5]
    names = [7, 2, 9, 0]
    Z = {v: names[z] for v, z in zip(vars_, case['Z'])}
    rec.state(repr(Z))
    for roles in itertools.product((0, 1, 2), repeat=4):
        q = [v for v, r in zip(vars_, roles) if r == 1]
        ev = {v: 10. + v for v, r in zip(vars_, roles) if r == 2}
        qd = {v: -1. * v for v in q}
        wl = {k: [v for v in q if Z[v] == k] for k in set(Z[v] for v in q)}
        wd = {k: {v: qd[v] for v in vs} for k, vs in wl.items()}
        we = {k: {v: ev[v] for v in ev if Z[v] == k}
            for k in set(Z[v] for v in ev)}
        got = [vu.partition_list(Z, q), vu.partition_dict(Z, qd),
            vu.partition_query_evidence(Z, list(q), ev),
            vu.partition_query_evidence(Z, dict(qd), ev),
            vu.partition_query_evidence(Z, list(q), None)]
        want = [wl, wd, (wl, we), (wd, we), (wl, {})]
        rec.eval(5)
        rec.trans()
        rec.trace()

        def norm(x):
            if isinstance(x, tuple):
                return tuple(norm(y) for y in x)
            return {k: sorted(v) if isinstance(v, list) else v
                for k, v in x.items()}
        for g, w in zip(got, want):
            if norm(g) != norm(w):
                rec.fail('split %s' % (Z,), 'query %s evidence %s: %s, '
                    'should be %s' % (q, ev, g, w))
                return
    rec.sample({'assignment': Z, 'query': [3, 8], 'blocks':
        vu.partition_list(Z, [3, 8])})
