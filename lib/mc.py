"""Driver shared by all checks: cases, exhaustive exploration, evidence.

A check module (checks/cNN.py) defines
    PID, LEVEL_RULE (how cases are made), ASSUMPTIONS
    cases(tier)           -> iterable of JSON-able case descriptions
    run_case(case, rec)   -> explores the case exhaustively against the real
                             code; reports through rec.
run(PID) fans the cases out over worker processes, merges the counters,
sorts violations into known findings and new ones, and writes evidence.
"""

import concurrent.futures as cf
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# A case that needs more processor time than this is reported as not
# terminating (the slowest case on the unchanged tree needs well under half
# of it); the second limit is wall time, for a case that sleeps.
CASE_CPU_S = {'quick': 240, 'thorough': 500}
CASE_WALL_S = {'quick': 600, 'thorough': 800}
# With a violation in hand, give the answer rather than go on exploring.
REPORT_AFTER_S = 660


def jsonable(x, depth=0):
    import numpy as np
    if depth > 8:
        return repr(x)
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float('inf') else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v, depth + 1) for v in x), key=repr)
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1)
    return repr(x)


class Timeout(BaseException):
    pass


class Rec(object):
    """What one case covered and what it found."""

    def __init__(self, case):
        self.case = case
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.evaluations = 0
        self.traces = 0
        self.samples = []
        self.fails = []
        self.notes = {}

    def state(self, key):
        """Count a distinct (canonical) state; True if it is new."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def outcome(self, key):
        self.outcomes.add(
            hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def trans(self, n=1):
        self.transitions += n

    def eval(self, n=1):
        self.evaluations += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def fail(self, key, msg, **data):
        """Report a violation; key identifies the failing input or history."""
        if len(self.fails) < 50:
            self.fails.append({
                'key': str(key), 'msg': str(msg), 'case': jsonable(self.case),
                'data': jsonable(data)})

    @contextlib.contextmanager
    def guard(self, key, **data):
        """The code under test must not raise inside this block."""
        try:
            yield
        except Exception as e:
            self.fail('%s: unexpected %s' % (key, type(e).__name__),
                'unexpected exception: %r' % (e,),
                trace=traceback.format_exc()[-1800:], **data)


def raises(f, *a, **k):
    """The exception that f raises, or None."""
    try:
        f(*a, **k)
    except Exception as e:
        return e
    return None


def _alarm(signum, frame):
    raise Timeout()


NO_TERMINATION = 'no-termination'
_MODULE = None
_TIER = 'quick'


def _work(case):
    rec = Rec(case)
    old = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.alarm(CASE_WALL_S[_TIER])
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S[_TIER])
    try:
        import numpy as np
        np.random.seed(12345)
        _MODULE.run_case(case, rec)
    except Timeout:
        rec.fail(NO_TERMINATION, 'case did not finish in %d s'
            % CASE_CPU_S[_TIER])
    except Exception as e:
        rec.fail('unexpected %s: %s' % (type(e).__name__, case.get('id', '')),
            'unexpected exception: %r' % (e,),
            trace=traceback.format_exc()[-2500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        sys.stdout, sys.stderr = old
    return (rec.states, rec.outcomes, rec.transitions, rec.evaluations,
        rec.traces, rec.samples, rec.fails, rec.notes)


def load_known(pid):
    path = os.path.join(HERE, 'known_findings.jsonl')
    known = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            d = json.loads(line)
            if d.get('status') == 'known' and d['property'] == pid:
                known[d['key']] = d
    return known


def run(module, tier, seed, replay=None, serial=False):
    global _MODULE, _TIER
    _MODULE, _TIER = module, tier
    pid = module.PID
    t0 = time.time()
    states, outcomes = set(), set()
    trans = evals = traces = 0
    samples, fails, notes = [], [], {}
    n_cases = 0
    if replay is not None:
        case_list = [json.load(open(replay))['case']]
    else:
        case_list = list(module.cases(tier))
    exhaustive = True

    def absorb(r):
        nonlocal trans, evals, traces, n_cases
        n_cases += 1
        states.update(r[0])
        outcomes.update(r[1])
        trans += r[2]
        evals += r[3]
        traces += r[4]
        if len(samples) < 6:
            samples.extend(r[5][:2])
        fails.extend(r[6])
        for k, v in r[7].items():
            notes[k] = notes.get(k, 0) + v

    workers = min(8, os.cpu_count() or 1, max(1, len(case_list)))
    known = load_known(pid)

    def settled():
        bad = [f for f in fails if f['key'] not in known]
        return bad and (time.time() - t0 > REPORT_AFTER_S
            or any(f['key'] == NO_TERMINATION for f in bad))

    if serial or workers == 1:
        for c in case_list:
            absorb(_work(c))
            if settled():
                exhaustive = False
                break
    else:
        ctx = multiprocessing.get_context('fork')
        done = 0
        try:
            with cf.ProcessPoolExecutor(workers, mp_context=ctx) as ex:
                futures = [ex.submit(_work, c) for c in case_list]
                for f in cf.as_completed(futures):
                    absorb(f.result())
                    done += 1
                    if settled() and done < len(futures):
                        exhaustive = False
                        processes = list(ex._processes.values())
                        ex.shutdown(wait=False, cancel_futures=True)
                        for p in processes:
                            p.kill()
                        break
        except cf.process.BrokenProcessPool:
            fails.append({'key': 'worker-died', 'msg':
                'a process exploring the code under test died',
                'case': {}, 'data': {'done': done}})
    seen_known, new = set(), []
    for f in fails:
        if f['key'] in known:
            seen_known.add(f['key'])
        else:
            new.append(f)
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]['what']))
    rdir = os.path.join(HERE, 'evidence', 'replay')
    printed = set()
    for i, f in enumerate(new):
        if f['key'] in printed or len(printed) >= 10:
            continue
        printed.add(f['key'])
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s_%02d.json' % (pid, len(printed)))
        if replay is None:
            with open(path, 'w') as fh:
                json.dump(dict(f, property=pid,
                    rerun='./check %s --replay %s' % (pid, path)), fh,
                    indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  [%s] %s' % (f['key'], f['msg'][:600]))
    wall = time.time() - t0
    if replay is None:
        evidence = {
            'property': pid, 'tier': tier, 'seed': seed,
            'level': 'model_checking',
            'coverage': {
                'states': len(states),
                'transitions': trans,
                'traces_validated_against_impl': traces,
                'evaluations': evals,
                'distinct_outcomes': len(outcomes),
                'cases': n_cases,
                'rule': module.RULE,
                'samples': samples or [jsonable(c) for c in case_list[:3]],
                'exhaustive': exhaustive,
                'notes': notes,
            },
            'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
            'wall_s': round(wall, 2),
            'violations': len(new),
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
            json.dump(evidence, fh, indent=1)
    print('%s %s: cases=%d states=%d transitions=%d evaluations=%d traces=%d '
        'outcomes=%d violations=%d known=%d wall=%.1fs' % (
            pid, tier, n_cases, len(states), trans, evals, traces,
            len(outcomes), len(new), len(seen_known), wall))
    return 1 if new else 0
