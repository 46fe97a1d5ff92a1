"""Chinese restaurant process functions agree with each other."""
import itertools
import math

import mc
import ref
from crng import CRng, distribution

PID = 'C11'
RULE = ('all partitions of up to 5 (6) customers with contiguous and gapped '
    'table names and in several recording orders x concentrations x numbers '
    'of auxiliary tables; all random-choice paths of the samplers')
ASSUMPTIONS = ['concentrations are floats']
ALPHAS = (.3, 1, 3, 4.5)


def cases(tier):
    quick = tier == 'quick'
    top = 6 if quick else 7
    for n in range(0, top + 1):
        for i, z in enumerate(ref.partitions(n)):
            yield {'id': 'crp/%s' % z, 'what': 'crp', 'Z': z}
    for n in range(1, top + 1):
        yield {'id': 'draw/%d' % n, 'what': 'draw', 'n': n}
    for n in range(2, top + 1):
        yield {'id': 'tied/%d' % n, 'what': 'tied', 'n': n}


def blocks(n):
    for p in ref.partitions(n):
        out = [[i for i in range(n) if p[i] == b] for b in range(max(p) + 1)]
        yield [b for b in out if len(b) > 1]


def block_joint(zv, Cd, a):
    eff, seen = [], set()
    for b in Cd:
        eff.append(zv[b[0]])
        seen.update(b)
    eff.extend(z for i, z in enumerate(zv) if i not in seen)
    return ref.crp_joint(eff, a)


def run_case(case, rec):
    {'crp': crp, 'draw': draw, 'tied': tied}[case['what']](case, rec)


def crp(case, rec):
    from cgpm.primitives.crp import Crp
    from cgpm.utils import general as gu
    Z0 = case['Z']
    n = len(Z0)
    for names in ([0, 1, 2, 3, 4, 5, 6], [7, 2, 4, 0, 9, 12, 1]):
        Z = [names[z] for z in Z0]
        for order in ([list(range(n)), list(range(n))[::-1]] if n else [[]]):
            for alpha in ALPHAS:
                key = 'n=%d alpha=%s' % (n, alpha)
                rng = CRng(1)
                c = Crp([3], [], hypers={'alpha': alpha}, rng=rng)
                acc = 0.
                for r in order:
                    acc += c.logpdf(r, {3: Z[r]})
                    c.incorporate(r, {3: Z[r]})
                    rec.trans()
                rec.state((tuple(Z), tuple(order), alpha))
                joint = ref.crp_joint([Z[r] for r in order], alpha)
                want = {'score': joint, 'sequence of predictions': joint}
                got = {'score': c.logpdf_score(),
                    'sequence of predictions': acc}
                counts = {k: Z.count(k) for k in set(Z)}
                Nk = [Z.count(k) for k in sorted(set(Z))]
                if n:
                    got['logp_crp'] = gu.logp_crp(n, Nk, alpha)
                    want['logp_crp'] = joint
                    a2 = 1.9
                    got['logp_crp_unorm'] = \
                        gu.logp_crp_unorm(n, len(Nk), alpha) \
                        - gu.logp_crp_unorm(n, len(Nk), a2)
                    want['logp_crp_unorm'] = joint - ref.crp_joint(Z, a2)
                fresh = max(Z) + 1 if Z else 0
                for t in sorted(set(Z)) + [fresh]:
                    got['prediction of %s' % t] = c.logpdf(-1, {3: t})
                    want['prediction of %s' % t] = ref.crp_pred(t, Z, alpha)
                for r in range(n):
                    for t in sorted(set(Z)) + [fresh]:
                        got['row %d at %s' % (r, t)] = c.logpdf(r, {3: t})
                        want['row %d at %s' % (r, t)] = \
                            0. if Z[r] == t else -math.inf
                for k in want:
                    rec.eval()
                    if not ref.close(got[k], want[k]):
                        rec.fail('%s %s' % (k.split(' ')[0], key), '%s of '
                            '%s: %r, the process says %r' % (k, Z, got[k],
                            want[k]))
                # Sampling the next customer, and recorded ones.
                d = distribution(rng, lambda: c.simulate(-1, [3]),
                    lambda s: int(s[3]), rec=rec)
                for t in set(d) | set(counts) | {fresh}:
                    w = math.exp(ref.crp_pred(t, Z, alpha)) \
                        if t in counts or t == fresh else 0.
                    if abs(d.get(t, 0.) - w) > 1e-9:
                        rec.fail('simulate %s' % key, 'next customer of %s '
                            'sits at %s with probability %r, the process '
                            'says %r' % (Z, t, d.get(t, 0.), w))
                for r in range(n):
                    d = distribution(rng, lambda: c.simulate(r, [3]),
                        lambda s: int(s[3]), rec=rec)
                    if d != {Z[r]: 1.}:
                        rec.fail('simulate row %s' % key, 'row %d of %s '
                            'simulates %s' % (r, Z, d))
                if n:
                    gibbs(c, Z, alpha, key, rec, gu)
                # Leaving restores the process.
                for r in order[:1]:
                    before = (c.logpdf_score(), dict(c.counts))
                    c.unincorporate(r)
                    rest = [Z[q] for q in range(n) if q != r]
                    if not ref.close(c.logpdf_score(),
                            ref.crp_joint(rest, alpha)):
                        rec.fail('unincorporate %s' % key, 'score after '
                            'removing row %d of %s: %r' % (r, Z,
                            c.logpdf_score()))
                    c.incorporate(r, {3: Z[r]})
                    if not ref.close(c.logpdf_score(), before[0]) or \
                            dict(c.counts) != before[1]:
                        rec.fail('unincorporate %s' % key, 'removing and '
                            'recording row %d of %s again changes the '
                            'process' % (r, Z))
    if Z0 == [0, 1, 0]:
        rec.sample({'partition': Z0, 'log probability':
            {a: ref.crp_joint(Z0, a) for a in ALPHAS}})


def gibbs(c, Z, alpha, key, rec, gu):
    n = len(Z)
    for r in range(n):
        for m in (1, 2, 3):
            others = [Z[q] for q in range(n) if q != r]
            tables = [int(t) for t in c.gibbs_tables(r, m=m)]
            w = [math.exp(x) for x in c.gibbs_logps(r, m=m)]
            tot = math.fsum(w)
            den = n - 1 + alpha
            rec.eval()
            bad = None
            if len(tables) != len(w) or len(set(tables)) != len(tables):
                bad = 'tables %s, weights %s' % (tables, w)
            elif not set(others) <= set(tables) or Z[r] not in tables:
                bad = 'tables %s leave out an occupied one' % tables
            elif sum(t not in others for t in tables) != m:
                bad = '%d auxiliary tables in %s' % (sum(t not in others
                    for t in tables), tables)
            else:
                for t, x in zip(tables, w):
                    want = others.count(t) / den if t in others \
                        else alpha / m / den
                    if abs(x / tot - want) > 1e-9:
                        bad = 'table %s has probability %r, the process ' \
                            'says %r' % (t, x / tot, want)
                        break
            if bad:
                rec.fail('gibbs %s m=%d' % (key, m), 'row %d of %s: %s'
                    % (r, Z, bad))
            # The stand-alone functions.
            counts = {k: Z.count(k) for k in set(Z)}
            canon = ref.canon_partition(Z)
            forms = [(counts, Z), ([canon.count(k) for k in
                range(max(canon) + 1)], list(canon))]
            for Nk, ZZ in forms:
                lp = gu.logp_crp_gibbs(Nk, ZZ, r, alpha, m)
                K = sorted(Nk) if isinstance(Nk, dict) else range(len(Nk))
                oth = [ZZ[q] for q in range(n) if q != r]
                want = [oth.count(k) if k in oth else alpha / m for k in K]
                want += [alpha / m] * (m - (1 if ZZ[r] not in oth else 0))
                s = math.fsum(math.exp(x) for x in lp)
                rec.eval()
                if len(lp) != len(want) or any(abs(math.exp(x) / s
                        - y / den) > 1e-9 for x, y in zip(lp, want)):
                    rec.fail('logp_crp_gibbs %s m=%d' % (key, m),
                        'customer %d of %s: %s, the process says %s'
                        % (r, ZZ, [math.exp(x) / s for x in lp],
                        [y / den for y in want]))
    for m in (1, 2, 3):
        Nk = [Z.count(k) for k in sorted(set(Z))]
        lp = gu.logp_crp_fresh(n, list(Nk), alpha, m=m)
        want = [math.log(x / (n + alpha)) for x in Nk] \
            + [math.log(alpha / m / (n + alpha))] * m
        rec.eval()
        if len(lp) != len(want) or any(not ref.close(x, y)
                for x, y in zip(lp, want)):
            rec.fail('logp_crp_fresh %s m=%d' % (key, m), '%s: %s, the '
                'process says %s' % (Nk, list(lp), want))
        # A new customer, at its tables.
        t = [int(x) for x in c.gibbs_tables(-1, m=m)]
        rec.eval()
        if len(set(t)) != len(t) or len(t) != len(Nk) + m \
                or not set(Z) <= set(t):
            rec.fail('gibbs_tables new %s m=%d' % (key, m), '%s proposes %s'
                % (Z, t))


def draw(case, rec):
    from cgpm.utils import general as gu
    n = case['n']
    rng = CRng(1)
    rec.state(case['id'])
    for alpha in ALPHAS:
        for what, f in [('simulate_crp', lambda: gu.simulate_crp(n, alpha,
                rng=rng)),
                ('simulate_crp_constrained', lambda:
                gu.simulate_crp_constrained(n, alpha, [], [], {}, {},
                rng=rng)), ('Crp', lambda: seat(n, alpha, rng))]:
            got = distribution(rng, f, lambda z: ref.canon_partition(
                [int(x) for x in z]), rec=rec)
            for z in ref.partitions(n):
                want = math.exp(ref.crp_joint(z, alpha))
                rec.eval()
                if abs(got.get(tuple(z), 0.) - want) > 1e-9:
                    rec.fail('%s n=%d' % (what, n), 'alpha %s: partition %s '
                        'is drawn with probability %r, its score says %r'
                        % (alpha, z, got.get(tuple(z), 0.), want))
                    break
            if abs(math.fsum(got.values()) - 1) > 1e-9:
                rec.fail('%s n=%d' % (what, n), 'total probability %r'
                    % math.fsum(got.values()))
    rec.sample({'case': case['id'], 'distribution': {str(k): v for k, v in
        list(got.items())[:8]}})


def seat(n, alpha, rng):
    from cgpm.primitives.crp import Crp
    c = Crp([0], [], hypers={'alpha': alpha}, rng=rng)
    out = []
    for r in range(n):
        s = c.simulate(r, [0])
        c.incorporate(r, s)
        out.append(s[0])
    return out


def tied(case, rec):
    from cgpm.utils import general as gu
    n = case['n']
    rng = CRng(1)
    for Cd in blocks(n):
        for order in (Cd, [b[::-1] for b in Cd[::-1]]):
            for alpha in (.5, 2.):
                key = 'tied %s' % (order,)
                rec.state((n, repr(order), alpha))
                got = distribution(rng, lambda:
                    gu.simulate_crp_constrained_dependent(n, alpha,
                    [list(b) for b in order], rng=rng),
                    lambda z: ref.canon_partition([int(x) for x in z]),
                    rec=rec)
                scores = {}
                for z in ref.partitions(n):
                    ok = all(len(set(z[c] for c in b)) == 1 for b in Cd)
                    want = math.exp(block_joint(z, Cd, alpha)) if ok else 0.
                    Z = {c: 5 * x + 2 for c, x in enumerate(z)}
                    lp = gu.logp_crp_constrained_dependent(Z, alpha, order)
                    rec.eval(2)
                    if abs(math.exp(lp) - want) > 1e-9:
                        rec.fail(key, 'partition %s has score %r, the '
                            'process says %r' % (z, math.exp(lp), want))
                        return
                    if abs(got.get(tuple(z), 0.) - want) > 1e-9:
                        rec.fail(key, 'partition %s is drawn with '
                            'probability %r, the process says %r' % (z,
                            got.get(tuple(z), 0.), want))
                        return
