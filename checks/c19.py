"""Parallel evaluation equals serial evaluation."""
import gc
import itertools
import json
import multiprocessing
import os
import select
import signal
import time

import mc
import sched

PID = 'C19'
RULE = ('the real dispatch loop with stand-ins for processes and pipes under '
    'every interleaving of their operations (up to commutation) for up to 3 '
    'workers and 4 items, pipes unbounded and rendezvous, every placement of '
    'one or two failures and kinds of failure; and real worker processes '
    'under every order in which items can complete, up to 3 workers and 5 '
    'items')
ASSUMPTIONS = ['workers are not killed from outside',
    'in the interleavings, pipe operations are atomic']
RESULTS = {
    'square': lambda i: i * i,
    'none': lambda i: None,
    'false': lambda i: [False, 0, '', []][i % 4],
    'nested': lambda i: {'i': [i, (i, None)], 'x': float(i)},
    'big': lambda i: 'x' * (300000 + i),
    'error-value': lambda i: ValueError(i),
    'tuple': lambda i: (i, False, 'x'),
}
ITEMS = {
    'range': lambda n: list(range(n)),
    'none': lambda n: [None] * n,
    'same': lambda n: [7] * n,
    'mixed': lambda n: [None, 0, '', (1, 2), {'a': [3]}, None][:n],
}
FAILS = ('raise', 'exit', 'interrupt', 'generator', 'lock', 'lambda',
    'reduce')


class Bad(object):
    def __reduce__(self):
        raise KeyError('cannot be pickled')


class Own(Exception):
    """An exception of the caller's making."""

    def __init__(self, a, b):
        Exception.__init__(self, a, b)


def fail(kind, i):
    if kind == 'raise':
        raise ValueError('item %d' % i)
    if kind == 'own':
        raise Own(1, i)
    if kind == 'exit':
        raise SystemExit(3)
    if kind == 'interrupt':
        raise KeyboardInterrupt()
    if kind == 'generator':
        return (x for x in [i])
    if kind == 'lock':
        import threading
        return threading.Lock()
    if kind == 'lambda':
        return lambda: i
    return Bad()


def cases(tier):
    quick = tier == 'quick'
    k = 0
    # Interleavings of the dispatch loop.
    shapes = [(1, 0), (1, 1), (1, 3), (2, 0), (2, 1), (2, 2), (2, 3), (3, 0),
        (3, 2), (3, 3)]
    if not quick:
        shapes += [(2, 4), (3, 4), (1, 6)]
    for w, n in shapes:
        for cap in (None, 0):
            k += 1
            yield {'id': 'inter %d workers %d items' % (w, n), 'w': w,
                'n': n, 'cap': cap, 'bad': {}, 'kind': k}
            for r in (1, 2):
                for where in itertools.combinations(range(n), r):
                    for f in FAILS if r == 1 else FAILS[:1]:
                        k += 1
                        if quick and (n > 2 or w > 2) and k % 5:
                            continue
                        if w == 3 and n > 3 and cap == 0 and k % 3:
                            continue
                        yield {'id': 'inter %d workers %d items' % (w, n),
                            'w': w, 'n': n, 'cap': cap, 'kind': k,
                            'bad': {str(x): f for x in where}}
    # Real processes.
    shapes = [(1, 0), (1, 2), (2, 0), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1),
        (3, 3), (3, 4)]
    if not quick:
        shapes += [(1, 5), (2, 5), (3, 5), (4, 5), (2, 6), (3, 6)]
    for w, n in shapes:
        for j, (r, it) in enumerate(itertools.product(RESULTS, ITEMS)):
            if (w, n) != (2, 3) and (quick and (j + n) % 13 or
                    not quick and n > 3 and (j + n) % 5):
                continue
            if (w, n) == (2, 3) and quick and j % 2:
                continue
            yield {'id': 'real %d workers %d items %s %s' % (w, n, r, it),
                'real': [r, it], 'w': w, 'n': n, 'bad': {}}
        for where in range(n):
            for j, f in enumerate(FAILS + ('own',)):
                k += 1
                if quick and (n > 2 or w > 2) and (k % 4):
                    continue
                yield {'id': 'real %d workers %d items %s' % (w, n, f),
                    'real': ['square', 'range'], 'w': w, 'n': n,
                    'bad': {str(where): f}}
    yield {'id': 'default', 'default': 1}


# ------------------------------------------------------------ interleavings
def module():
    from cgpm.utils import parallel_map as m
    return m


class FakeMp(object):
    def __init__(self, world):
        self.world = world
        self.Process, self.Pipe = world.Process, world.Pipe

    def __getattr__(self, name):
        if name == 'cpu_count':
            return multiprocessing.cpu_count
        raise sched.Unsupported('multiprocessing.%s' % name)


def inter(case, rec):
    m = module()
    n, bad = case['n'], {int(k): f for k, f in case['bad'].items()}
    kind = list(RESULTS)[case['kind'] % len(RESULTS)]
    items = ITEMS[list(ITEMS)[case['kind'] % len(ITEMS)]](n)
    g = m.__dict__
    saved = dict(g)
    outcomes = set()
    unmodelled = False
    try:
        # The nth call need not be the nth item, so items carry positions
        # unless they are all alike and none fails.
        if bad or kind not in ('none',):
            items = [(i, x) for i, x in enumerate(items)]

            def f(x):
                return fail(bad[x[0]], x[0]) if x[0] in bad \
                    else RESULTS[kind](x[0])
        else:
            def f(x):
                return None

        def setup(world):
            for name, v in (('Process', world.Process), ('Pipe', world.Pipe),
                    ('os', sched.FakeOs(world)),
                    ('multiprocessing', FakeMp(world))):
                if name in saved:
                    g[name] = v
            return lambda: m.parallel_map(f, list(items), case['w'])
        want = None if bad else [RESULTS[kind](i) for i in range(n)]
        key = case['id']
        count = 0
        for world, main in sched.interleavings(setup, capacity=case['cap']):
            count += 1
            rec.trace()
            rec.trans(world.steps)
            rec.eval()
            if isinstance(main.error, sched.Unsupported):
                rec.note('not modelled: %s' % main.error)
                unmodelled = True
                break
            what = 'parallel_map over %s with %d workers, failures %s, ' \
                'schedule %s' % (items, case['w'], bad, world.nodes)
            if world.deadlock:
                rec.fail('%s hangs' % key, '%s: nobody can move' % what)
                return
            if bad:
                rec.outcome((sorted(bad), type(main.error).__name__))
                if main.error is None or isinstance(main.error, (
                        KeyboardInterrupt, SystemExit)) and not set(
                        bad.values()) & {'exit', 'interrupt'}:
                    rec.fail('%s failure lost' % key, '%s: the caller saw '
                        '%r' % (what, main.error or main.result))
                    return
            else:
                rec.outcome(str(world.nodes)[:200])
                got = main.result if main.error is None else main.error
                if main.error is not None or repr(got) != repr(want):
                    rec.fail('%s result' % key, '%s: %.300r, expected %.300r'
                        % (what, got, want))
                    return
            if world.alive:
                rec.fail('%s workers' % key, '%s: workers %s still run'
                    % (what, world.alive))
                return
            open_ = [e for e in world.ends if not e.closed] + [
                fd for fd, e in world.fds.items() if e[2]]
            if open_:
                rec.fail('%s pipes' % key, '%s: %d pipe ends stay open'
                    % (what, len(open_)))
                return
            left = [p for p in world.procs if p.task is not None
                and not p.joined]
            if left:
                rec.fail('%s joined' % key, '%s: %d workers were not waited '
                    'for' % (what, len(left)))
                return
        if not unmodelled:
            rec.state((case['w'], n, case['cap'], sorted(bad.items())))
    finally:
        for name in ('Process', 'Pipe', 'os', 'multiprocessing'):
            if name in saved:
                g[name] = saved[name]


# ----------------------------------------------------------- real processes
class Hang(BaseException):
    pass


def _hang(signum, frame):
    raise Hang()


def fds():
    return set(os.listdir('/proc/self/fd'))


def children():
    pid = os.getpid()
    out = []
    for t in os.listdir('/proc/%d/task' % pid):
        try:
            with open('/proc/%d/task/%s/children' % (pid, t)) as f:
                out += [int(x) for x in f.read().split()]
        except OSError:
            pass
    return set(out)


def controller(ann, rel, ctl, w, n, bad, prefix):
    """Releases the waiting items in the order of prefix, then the lowest;
    writes the choices it had."""
    waiting, done, trace, calls = [], 0, [], [0] * n
    stop = False
    while True:
        # Wait until as many items wait as can.
        t0 = time.time()
        while len(waiting) < min(w, n - done) and not stop:
            r, _w, _x = select.select([ann, ctl], [], [], 2.)
            if ctl in r:
                stop = True
            elif ann in r:
                i = os.read(ann, 1)[0]
                calls[i] += 1
                waiting.append(i)
            elif waiting and time.time() - t0 > 2.:
                break
        if stop or not waiting:
            break
        opts = sorted(waiting)
        k = len(trace)
        j = prefix[k] if k < len(prefix) else 0
        if j >= len(opts):
            j = 0
        trace.append([j, len(opts)])
        i = opts[j]
        waiting.remove(i)
        done += 1
        os.write(rel[i], b'x')
        if i in bad:
            # The caller is about to give up; leave the rest waiting.
            select.select([ctl], [], [], 15.)
            break
    # Extra calls.
    while select.select([ann], [], [], 0)[0]:
        b = os.read(ann, 1)
        if not b:
            break
        calls[b[0]] += 1
        os.write(rel[b[0]], b'x')
    return trace, calls


def one_run(case, prefix, rec):
    m = module()
    w, n = case['w'], case['n']
    bad = {int(k): f for k, f in case['bad'].items()}
    result, items = RESULTS[case['real'][0]], ITEMS[case['real'][1]](n)
    xs = [(i, x) for i, x in enumerate(items)]
    ann_r, ann_w = os.pipe()
    rel = [os.pipe() for _ in range(n)]
    ctl_r, ctl_w = os.pipe()
    out_r, out_w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            os.close(ctl_w)
            os.close(out_r)
            r = controller(ann_r, [x[1] for x in rel], ctl_r, w, n, bad,
                prefix)
            os.write(out_w, json.dumps(r).encode())
        finally:
            os._exit(0)
    os.close(ctl_r)
    os.close(out_w)

    def f(x):
        i = x[0]
        os.write(ann_w, bytes([i]))
        os.read(rel[i][0], 1)
        return fail(bad[i], i) if i in bad else result(i)
    before, kids = fds(), children()
    old = signal.signal(signal.SIGALRM, _hang)
    left = signal.alarm(20)
    got = err = None
    hung = False
    try:
        got = m.parallel_map(f, list(xs), w)
    except Hang:
        hung = True
    except BaseException as e:
        err = repr(e)
        e.__traceback__ = None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        signal.alarm(max(left - 1, 30))
    # Process objects keep a descriptor of their own for as long as they live.
    gc.collect()
    after, kids2 = fds(), children()
    os.close(ctl_w)
    text = b''
    while True:
        b = os.read(out_r, 65536)
        if not b:
            break
        text += b
    os.waitpid(pid, 0)
    for c in children() - kids:
        try:
            os.kill(c, signal.SIGKILL)
            os.waitpid(c, 0)
        except OSError:
            pass
    for fd in [ann_r, ann_w, out_r] + [x for p in rel for x in p]:
        os.close(fd)
    trace, calls = json.loads(text) if text else ([], [])
    rec.trace()
    rec.trans(len(trace) + 1)
    rec.eval()
    key = case['id']
    what = 'parallel_map over %d items with %d workers, failures %s, items ' \
        'completing in the order of choices %s' % (n, w, bad, trace)
    if hung:
        rec.fail('%s hangs' % key, '%s: no answer' % what)
        return None
    if bad:
        if err is None:
            rec.fail('%s failure lost' % key, '%s: returned %.200r' % (what,
                got))
            return None
    else:
        want = [result(i) for i in range(n)]
        if err is not None or repr(got) != repr(want):
            rec.fail('%s result' % key, '%s: %.300r, expected %.300r' % (what,
                err or got, want))
            return None
        if calls != [1] * n:
            rec.fail('%s calls' % key, '%s: calls per item %s' % (what,
                calls))
            return None
    if kids2 - kids:
        rec.fail('%s workers' % key, '%s: %d worker processes left' % (what,
            len(kids2 - kids)))
        return None
    if after - before:
        rec.fail('%s pipes' % key, '%s: descriptors left open: %s' % (what,
            sorted(after - before)))
        return None
    return trace


def real(case, rec):
    prefix = []
    while True:
        trace = one_run(case, prefix, rec)
        if trace is None:
            return
        rec.outcome((case['w'], case['n'], str(trace)))
        rec.state((case['w'], case['n'], str(trace), str(case['bad'])))
        trace = [list(t) for t in trace]
        while trace and trace[-1][0] + 1 >= trace[-1][1]:
            trace.pop()
        if not trace:
            return
        prefix = [j for j, _k in trace[:-1]] + [trace[-1][0] + 1]


def default(case, rec):
    m = module()
    for n in (0, 1, 5, 9):
        before, kids = fds(), children()
        got = m.parallel_map(lambda x: [x], list(range(n)))
        rec.eval()
        rec.trace()
        if got != [[x] for x in range(n)] or fds() - before \
                or children() - kids:
            rec.fail('default', 'over %d items: %r, descriptors %s, '
                'processes %s' % (n, got, fds() - before, children() - kids))
            return
    rec.state('default')


def run_case(case, rec):
    if 'default' in case:
        default(case, rec)
    elif 'real' in case:
        real(case, rec)
    else:
        inter(case, rec)
