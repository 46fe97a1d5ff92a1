"""A controlled scheduler for code that talks through processes and pipes.

World replaces Process, Pipe and os.pipe/read/write/close/getpid with
stand-ins whose every visible operation is a scheduling point; the tasks are
threads of which exactly one runs at a time.  interleavings(fn) runs fn under
every schedule, up to the commutation of operations on different objects
(sleep sets), and yields one World per complete run; a run in which nobody can
move has deadlock=True.
"""
import os
import pickle
import threading


class Kill(BaseException):
    """Ends a task that the run leaves behind."""


class Unsupported(Exception):
    """The code uses something the stand-ins do not model."""


class Task(object):
    def __init__(self, world, tid, fn):
        self.world, self.tid, self.fn = world, tid, fn
        self.op = None              # (objects, enabled, name)
        self.go = threading.Event()
        self.done = False
        self.killed = False
        self.error = None
        self.thread = threading.Thread(target=self.run, daemon=True)

    def run(self):
        self.go.wait()
        self.go.clear()
        try:
            if not self.killed:
                self.world.local.task = self
                self.result = self.fn()
        except Kill:
            pass
        except BaseException as e:
            self.error = e
        self.done = True
        self.op = None
        self.world.back.set()


class World(object):

    def __init__(self, prefix, capacity=None):
        self.tasks = []
        self.prefix = prefix        # [(tid)] choices to replay
        self.nodes = []             # [(ops {tid: op}, choice)]
        self.back = threading.Event()
        self.local = threading.local()
        self.capacity = capacity    # None: unbounded pipes; 0: rendezvous
        self.fds = {}
        self.nextfd = 1000
        self.ends = []
        self.procs = []
        self.steps = 0
        self.deadlock = False
        self.redundant = False

    # ------------------------------------------------------------ running
    def spawn(self, fn):
        t = Task(self, len(self.tasks), fn)
        self.tasks.append(t)
        t.op = (('task', t.tid),), (lambda: True), 'begin'
        t.thread.start()
        return t

    def visible(self, objs, enabled, name):
        """The current task stops before an operation on objs."""
        t = self.local.task
        if t.killed:
            raise Kill()
        t.op = tuple(objs), enabled, name
        self.back.set()
        t.go.wait()
        t.go.clear()
        if t.killed:
            raise Kill()
        t.op = None

    def resume(self, t):
        self.back.clear()
        t.go.set()
        self.back.wait()

    def run(self, fn, sleeps):
        """sleeps: function (depth, ops, prefix choice) -> chosen tid/None."""
        main = self.spawn(fn)
        while not main.done:
            ops = {t.tid: t.op for t in self.tasks if not t.done
                and not t.killed and t.op is not None and t.op[1]()}
            if not ops:
                self.deadlock = True
                break
            tid = sleeps(len(self.nodes), ops)
            if tid is None:
                self.redundant = True
                break
            self.nodes.append(tid)
            self.steps += 1
            self.resume(self.tasks[tid])
        # What is left over.
        self.alive = [t.tid for t in self.tasks[1:] if not t.done
            and not t.killed]
        for t in self.tasks:
            if not t.done:
                t.killed = True
                self.resume(t)
        return main

    # ------------------------------------------------------------- pieces
    def Process(self, group=None, target=None, name=None, args=(),
            kwargs=None, daemon=None):
        return FakeProcess(self, target, args, kwargs or {})

    def Pipe(self, duplex=True):
        if duplex:
            raise Unsupported('duplex pipes')
        ch = Channel(self)
        r, w = End(self, ch, 'r'), End(self, ch, 'w')
        self.ends += [r, w]
        return r, w


class Channel(object):
    count = 0

    def __init__(self, world):
        world.nextfd += 1
        self.id = ('pipe', world.nextfd)
        self.items = []
        self.waiting = 0            # readers waiting (for rendezvous)
        self.closed = False


class End(object):

    def __init__(self, world, ch, side):
        self.world, self.ch, self.side = world, ch, side
        self.closed = False

    def send(self, obj):
        if self.closed:
            raise OSError('handle is closed')
        if self.side != 'w':
            raise OSError('connection is read-only')
        data = pickle.dumps(obj)
        ch, w = self.ch, self.world
        cap = w.capacity
        w.visible([ch.id], lambda: cap is None or len(ch.items) < max(cap,
            1), 'send')
        ch.items.append(data)
        if cap == 0:
            # A big message: the writer waits until it is taken.
            n = ch.sent = getattr(ch, 'sent', 0) + 1
            w.visible([ch.id], lambda: ch.sent - len(ch.items) >= n, 'sent')

    def recv(self):
        if self.closed:
            raise OSError('handle is closed')
        if self.side != 'r':
            raise OSError('connection is write-only')
        ch = self.ch
        self.world.visible([ch.id], lambda: len(ch.items) > 0, 'recv')
        return pickle.loads(ch.items.pop(0))

    def poll(self, timeout=0):
        raise Unsupported('poll')

    def fileno(self):
        raise Unsupported('fileno')

    def close(self):
        if self.world.local.task.tid == 0:
            self.closed = True


class FakeProcess(object):

    def __init__(self, world, target, args, kwargs):
        self.world = world
        self.call = target, args, kwargs
        self.task = None
        self.joined = False
        self.terminated = False
        self.daemon = False
        self.pid = None
        world.procs.append(self)

    def start(self):
        target, args, kwargs = self.call
        assert self.task is None, 'cannot start a process twice'
        self.task = self.world.spawn(lambda: target(*args, **kwargs))
        self.pid = 5000 + self.task.tid

    def is_alive(self):
        t = self.task
        if t is None:
            return False
        self.world.visible([('task', t.tid)], lambda: True, 'alive')
        live = not (t.done or t.killed)
        self.joined = self.joined or not live
        return live

    def terminate(self):
        t = self.task
        if t is None:
            raise AttributeError('not started')
        self.world.visible([('task', t.tid)], lambda: True, 'terminate')
        self.terminated = True
        if not t.done:
            t.killed = True

    kill = terminate

    def join(self, timeout=None):
        t = self.task
        assert t is not None, 'can only join a started process'
        if timeout is not None:
            raise Unsupported('join with timeout')
        self.world.visible([('task', t.tid)], lambda: t.done or t.killed,
            'join')
        self.joined = True

    @property
    def exitcode(self):
        t = self.task
        if t is None or not (t.done or t.killed):
            return None
        return 1 if t.error or t.killed else 0


class FakeOs(object):
    """The os module with pipes inside the world."""

    def __init__(self, world):
        self.world = world

    def __getattr__(self, name):
        if name in ('fork', 'kill', 'waitpid', 'fdopen', 'dup', '_exit'):
            raise Unsupported('os.%s' % name)
        return getattr(os, name)

    def pipe(self):
        w = self.world
        ch = Channel(w)
        ch.bytes = b''
        r, wr = w.nextfd + 1, w.nextfd + 2
        w.nextfd += 2
        w.fds[r], w.fds[wr] = [ch, 'r', True], [ch, 'w', True]
        return r, wr

    def _get(self, fd, side):
        if fd not in self.world.fds:
            raise Unsupported('a real descriptor')
        ch, s, is_open = self.world.fds[fd]
        if s != side or not is_open:
            raise OSError(9, 'Bad file descriptor')
        return ch

    def read(self, fd, n):
        ch = self._get(fd, 'r')
        self.world.visible([ch.id], lambda: len(ch.bytes) > 0, 'read')
        out, ch.bytes = ch.bytes[:n], ch.bytes[n:]
        return out

    def write(self, fd, data):
        ch = self._get(fd, 'w')
        self.world.visible([ch.id], lambda: True, 'write')
        ch.bytes += data
        return len(data)

    def close(self, fd):
        if fd not in self.world.fds:
            return os.close(fd)
        e = self.world.fds[fd]
        if self.world.local.task.tid == 0:
            if not e[2]:
                raise OSError(9, 'Bad file descriptor')
            e[2] = False


def independent(tid, op, uid, uop):
    """Operations of different tasks commute if they share no object and
    neither is about the other's task."""
    a = set(op[0]) | {('task', tid)}
    b = set(uop[0]) | {('task', uid)}
    return not a & b


def interleavings(setup, limit=10 ** 6, capacity=None):
    """setup(world) -> fn to run; yields (world, main task) per run."""
    # Each node of the stack: [choice, ops, sleep set, done set].
    stack = []
    count = 0
    while True:
        world = World(None, capacity)

        def choose(depth, ops):
            if depth < len(stack):
                return stack[depth][0]
            if depth == 0:
                sleep = {}
            else:
                c, pops, psleep, pdone = stack[depth - 1]
                sleep = {u: o for u, o in list(psleep.items()) + [(d,
                    pops[d]) for d in pdone]
                    if u != c and independent(c, pops[c], u, o)}
            live = [t for t in sorted(ops) if t not in sleep]
            if not live:
                return None
            stack.append([live[0], ops, sleep, []])
            return live[0]
        main = world.run(setup(world), choose)
        count += 1
        if not world.redundant:
            yield world, main
        while stack:
            node = stack[-1]
            node[3].append(node[0])
            rest = [t for t in sorted(node[1]) if t not in node[3]
                and t not in node[2]]
            if rest:
                node[0] = rest[0]
                break
            stack.pop()
        if not stack:
            return
        if count >= limit:
            raise RuntimeError('more than %d schedules' % limit)
