"""C18: histories of a Python parsing context under every order of its workers.

The real context.py, listener.py and corelib.py run on a model of `multiprocessing` (processes are threads under a
controlled scheduler that work on a copy of the objects, as fork() gives them; queues are asynchronous) and of the native library
(named shared memory and semaphores, the three kinds of runners as far as the context can tell). Executions are
explored depth first by replay; a state is what every thread has observed so far together with the shared objects.

A case is   <history> : letters in order   S<n> start with n workers, Pa Pb Pc Pd parse an input, T stop,
A attach another listener (while stopped), N another context (while stopped)
"""
import copy
import ctypes
import hashlib
import importlib
import itertools
import json
import logging
import mmap
import os
import pickle
import re
import struct
import sys
import threading
import time
import types

sys.dont_write_bytecode = True
argv = sys.argv[1:]


def opt(name, default=None):
    return argv[argv.index(name) + 1] if name in argv else default


OUT, CUR, REPLAY = opt('--out'), opt('--cur'), opt('--replay')
THOROUGH = opt('--tier') == 'thorough'
SHARD, NSHARDS = map(int, opt('--shard', '0/1').split('/'))
DEADLINE = int(os.environ.get('MC_DEADLINE', '0'))
stats = {'cases': 0, 'states': 0, 'transitions': 0, 'validated': 0, 'extra': {}, 'samples': [], 'known_hit': []}
cur = None
if CUR:
    fd = os.open(CUR, os.O_RDWR | os.O_CREAT, 0o600)
    os.ftruncate(fd, 16 + 65536)
    cur = mmap.mmap(fd, 16 + 65536)


def write_out(**kw):
    if OUT:
        with open(OUT + '.tmp', 'w') as f:
            json.dump(dict(stats, **kw), f)
        os.rename(OUT + '.tmp', OUT)


def tick():
    if cur:
        cur[0:8] = struct.pack('<Q', struct.unpack('<Q', cur[0:8])[0] + 1)


def begin(text):
    stats['cases'] += 1
    if cur:
        b = text.encode('latin-1')[:65000]
        cur[16:16 + len(b)] = b
        cur[8:16] = struct.pack('<Q', len(b))
    tick()


def violation(case, what):
    sys.stderr.write('case: %s\nviolation: %s\n' % (case, what))
    write_out(violation=what, case=case)
    os._exit(3)


# ---------------------------------------------------------------- scheduler
class Abort(BaseException):
    pass


class Thread:
    """A thread of the model, run by a thread of this process whenever the scheduler says so."""

    def __init__(self, world, name, proc, body):
        self.world, self.name, self.proc = world, name, proc
        self.lock = threading.Lock()
        self.lock.acquire()
        self.enabled, self.label, self.eager = (lambda: True), 'begin', True
        self.history = b''
        self.finished = False
        self.body = body
        self.sent = []               # (object, pickled): what was put into queues since the last step
        world.threads.append(self)
        self.real = threading.Thread(target=self.main, daemon=True)
        self.real.start()

    def main(self):
        local.thread = self
        self.lock.acquire()
        try:
            if not self.world.aborted:
                self.observe('begin')
                self.body()
        except Abort:
            pass
        except SystemExit:
            pass
        except BaseException as e:
            if not self.world.aborted:
                self.world.fail('%s: %s' % (self.name, describe(e)))
        self.finished = True
        self.body = None
        self.world.control.release()

    def observe(self, text):
        self.history = hashlib.blake2b(self.history + b'\0' + text.encode(), digest_size=12).digest()


def describe(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    at = [f for f in tb if 'centaurus' in f.filename] or list(tb)
    return '%s: %s%s' % (type(e).__name__, e, ' (%s, in %s)' % (os.path.basename(at[-1].filename), at[-1].name) if at else '')


local = threading.local()
world = None


def me():
    return getattr(local, 'thread', None)


def check_sent(t):
    for obj, data in t.sent:
        if pickle.dumps(obj) != data:
            t.world.fail('%s changes what it has put into a queue, which may not have been sent yet' % t.name)
    t.sent = []


def point(label, enabled=None, eager=False):
    """Lets other threads run; returns when this one is chosen. `eager`: it commutes with whatever others may do first."""
    t = me()
    w = t.world
    if w.aborted:
        raise Abort()
    check_sent(t)
    t.label, t.enabled, t.eager = label, enabled or (lambda: True), eager
    w.control.release()
    t.lock.acquire()
    if w.aborted:
        raise Abort()
    t.observe(label)


class World:
    def __init__(self):
        self.threads = []
        self.control = threading.Lock()
        self.control.acquire()
        self.aborted = False
        self.failure = None
        self.queues = []
        self.processes = []
        self.segments = {}           # name -> Segment that is linked
        self.all_segments = []
        self.next_pid = 1000
        self.handles, self.names = {}, {}
        self.parsed = []
        self.objects = 0

    def fail(self, what):
        if self.failure is None:
            self.failure = what

    def run(self, t):
        t.lock.release()
        self.control.acquire()
        if t.finished and t.sent:
            check_sent(t)

    def transitions(self):
        r = []
        for i, t in enumerate(self.threads):
            if not t.finished and t.enabled():
                if t.eager and not NO_EAGER:
                    return [('t', i)]
                r.append(('t', i))
        for i, q in enumerate(self.queues):
            for p in sorted(q.pending):
                if q.pending[p]:
                    if not q.shared and not NO_EAGER:
                        return [('q', i, p)]
                    r.append(('q', i, p))
        return r

    def perform(self, c):
        if c[0] == 't':
            self.run(self.threads[c[1]])
        else:
            q = self.queues[c[1]]
            q.items.append(q.pending[c[2]].pop(0))

    def key(self):
        h = hashlib.blake2b(digest_size=16)
        h.update(repr(sorted((t.name, t.history, t.finished) for t in self.threads)).encode())
        for q in self.queues:
            h.update(repr((q.items, sorted(x for x in q.pending.items() if x[1]))).encode())
        for p in self.processes:
            h.update(repr((p.number, p.attached)).encode())
        for s in self.all_segments:
            h.update(repr(s.state()).encode())
        return h.digest()

    def end(self):
        self.aborted = True
        for t in self.threads:
            while not t.finished:
                t.lock.release()
                self.control.acquire()
        for t in self.threads:
            t.real.join()


NO_EAGER = False
SHARED_QUEUES = set()


# ---------------------------------------------------------------- multiprocessing
class Handle:
    """Something that a forked process shares with its parent"""

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class Empty(Exception):
    pass


class Queue(Handle):
    def __init__(self, maxsize=0):
        self.w = me().world
        self.number = len(self.w.queues)
        self.w.queues.append(self)
        self.items, self.pending = [], {}
        self.shared = self.number in SHARED_QUEUES
        self.producers, self.consumers = set(), set()

    def put(self, obj, block=True, timeout=None):
        t = me()
        if self.w.aborted:
            raise Abort()
        if t is None or t.world is not self.w:
            raise RuntimeError('a queue is used outside the model')
        data = pickle.dumps(obj)
        t.sent.append((obj, data))
        self.producers.add(t.proc.number)
        if len(self.producers) > 1 and not self.shared:
            self.shared = True
            SHARED_QUEUES.add(self.number)
            self.w.restart = True
        self.pending.setdefault(t.proc.number, []).append(data)

    put_nowait = put

    def get(self, block=True, timeout=None):
        t = me()
        self.consumers.add(t.proc.number)
        if not block or timeout is not None:
            point('poll %d' % self.number)
            if not self.items:
                t.observe('empty')
                import queue
                raise queue.Empty()
        else:
            point('get %d' % self.number, lambda: bool(self.items), eager=len(self.consumers) == 1)
        data = self.items.pop(0)
        t.observe(repr(data))
        return pickle.loads(data)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        point('empty %d' % self.number)
        r = not self.items
        me().observe(repr(r))
        return r

    def qsize(self):
        point('qsize %d' % self.number)
        r = len(self.items)
        me().observe(repr(r))
        return r

    def full(self):
        return False

    def close(self):
        pass

    join_thread = cancel_join_thread = close


class JoinableQueue(Queue):
    def __init__(self, maxsize=0):
        super().__init__(maxsize)
        self.unfinished = 0

    def put(self, obj, block=True, timeout=None):
        super().put(obj)
        self.unfinished += 1

    def task_done(self):
        point('task_done %d' % self.number)
        self.unfinished -= 1

    def join(self):
        point('join queue %d' % self.number, lambda: self.unfinished <= 0)


class Semaphore(Handle):
    def __init__(self, value=1):
        self.value, self.w = value, me().world
        self.w.all_segments.append(self)

    def state(self):
        return self.value

    def acquire(self, block=True, timeout=None):
        if not block or timeout is not None:
            point('try')
            if self.value <= 0:
                me().observe('no')
                return False
        else:
            point('acquire', lambda: self.value > 0)
        self.value -= 1
        return True

    def release(self, n=1):
        point('release')
        self.value += n

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Lock(Semaphore):
    def __init__(self):
        super().__init__(1)


class Event(Handle):
    def __init__(self):
        self.flag, self.w = False, me().world
        self.w.all_segments.append(self)

    def state(self):
        return self.flag

    def set(self):
        point('set event')
        self.flag = True

    def clear(self):
        point('clear event')
        self.flag = False

    def is_set(self):
        point('look at event')
        me().observe(repr(self.flag))
        return self.flag

    def wait(self, timeout=None):
        if timeout is None:
            point('wait for event', lambda: self.flag)
            return True
        return self.is_set()


class Barrier(Handle):
    def __init__(self, parties, action=None, timeout=None):
        self.parties, self.arrived, self.w = parties, 0, me().world
        self.w.all_segments.append(self)

    def state(self):
        return self.arrived

    def wait(self, timeout=None):
        point('arrive at barrier')
        goal = (self.arrived // self.parties + 1) * self.parties
        self.arrived += 1
        point('barrier', lambda: self.arrived >= goal)
        return 0


class Connection(Handle):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def send(self, obj):
        self.b.put(obj)

    def recv(self):
        return self.a.get()

    def poll(self, timeout=0):
        return not self.a.empty()

    def close(self):
        pass


def Pipe(duplex=True):
    x, y = Queue(), Queue()
    return Connection(x, y), Connection(y, x)


class Value(Handle):
    def __init__(self, kind, value=0, lock=True):
        self.v, self.w, self.lock = value, me().world, Lock()
        self.w.all_segments.append(self)

    def state(self):
        return self.v

    def get_lock(self):
        return self.lock

    @property
    def value(self):
        point('read value')
        me().observe(repr(self.v))
        return self.v

    @value.setter
    def value(self, v):
        point('write value')
        self.v = v


class ProcessState:
    def __init__(self, w):
        self.number = len(w.processes)
        self.pid = w.next_pid
        w.next_pid += 1
        self.attached = []           # (kind, path) of the runners it has made
        self.thread = None
        self.roots = ()              # what the code under test can reach in it
        w.processes.append(self)


class Process(Handle):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs)
        self.name, self.daemon, self._state = name or 'Process', daemon, None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        assert self._state is None, 'cannot start a process twice'
        w = me().world
        point('start process')
        st = self._state = ProcessState(w)
        if type(self) is Process:
            child = None
            target, args, kwargs = copy.deepcopy((self._target, self._args, self._kwargs))
            body = (lambda: target(*args, **kwargs)) if target else (lambda: None)
        else:
            child = object.__new__(type(self))
            child.__dict__.update(copy.deepcopy(self.__dict__, {id(self): child}))
            body, args = child.run, ()
        st.roots = (child, body, self._target and target, args if type(self) is Process else ())
        st.thread = Thread(w, 'process %d' % st.number, st, body)

    def _over(self):
        return self._state.thread.finished and not any(q.pending.get(self._state.number) for q in world.queues)

    def join(self, timeout=None):
        assert self._state is not None, 'can only join a started process'
        if timeout is not None:
            point('join with a time limit')
            me().observe(repr(self._over()))
            return
        point('join', self._over, eager=True)

    def is_alive(self):
        if self._state is None:
            return False
        point('is_alive')
        r = not self._over()
        me().observe(repr(r))
        return r

    @property
    def exitcode(self):
        return None if self.is_alive() else 0

    @property
    def pid(self):
        return self._state.pid if self._state else None

    ident = pid

    def close(self):
        pass

    def terminate(self):
        me().world.fail('a worker process is killed')

    kill = terminate


def fake_multiprocessing():
    m = types.ModuleType('multiprocessing')
    m.__path__ = []
    for n in ('Queue', 'JoinableQueue', 'Process', 'Semaphore', 'Lock', 'Event', 'Barrier', 'Pipe', 'Value'):
        setattr(m, n, globals()[n])
    m.SimpleQueue = Queue
    m.BoundedSemaphore = Semaphore
    m.RLock = Lock
    m.get_context = lambda method=None: m
    m.set_start_method = lambda *a, **k: None
    m.get_start_method = lambda *a, **k: 'fork'
    m.cpu_count = lambda: 4
    m.active_children = lambda: []
    m.current_process = lambda: types.SimpleNamespace(name='Process', pid=os.getpid(), daemon=False)
    return m


# ---------------------------------------------------------------- the native library
INPUTS = {                      # path -> pieces, one leaf in each chunk; is the root's value None?
    '/in/a': (['a0'], False),
    '/in/b': (['b0', 'b1'], False),
    '/in/c': (['c0', 'c1', 'c2'], False),
    '/in/d': (['d0', 'd1'], True),
}
WINDOWS = {p: ctypes.create_string_buffer(''.join(v[0]).encode()) for p, v in INPUTS.items()}


class Segment:
    """The shared memory and the semaphore of one parse"""

    def __init__(self, bank_size, bank_num):
        self.bank_size, self.bank_num = bank_size, bank_num
        self.banks = [None] * bank_num        # (chunk, 'full' | 'taken' | 'ready' | 'merging')
        self.tokens = 0
        self.over = False

    def state(self):
        return (self.banks, self.tokens, self.over)


class Runner:
    def __init__(self, w, kind, path, seg, pid, proc):
        self.w, self.kind, self.path, self.seg, self.pid, self.proc = w, kind, path, seg, pid, proc
        self.native = None
        self.listener = self.transfer = None
        self.alive = True


class SymbolEntry(ctypes.Structure):
    _fields_ = [('id', ctypes.c_int), ('start', ctypes.c_long), ('end', ctypes.c_long)]


def call_reduction(r, id, start, end, shift, n):
    sym = SymbolEntry(id, start, end)
    values = (ctypes.c_long * 2)(shift, 0)
    f = r.listener
    v = f(ctypes.cast(ctypes.pointer(sym), f.argtypes[0]), values, n)
    if r.w.aborted:
        raise Abort()
    return v


def call_transfer(r, a, b):
    r.transfer(a, b)
    if r.w.aborted:
        raise Abort()


def free_banks(s):
    return [i for i, b in enumerate(s.banks) if b is None]


def stage1(r):
    s = r.seg
    n = len(INPUTS[r.path][0])
    for c in range(n):
        point('fill', lambda: bool(free_banks(s)), eager=True)
        s.banks[free_banks(s)[0]] = (c, 'full')
        s.tokens += 1
    point('finish', lambda: len(free_banks(s)) == s.bank_num, eager=True)
    s.over = True
    s.tokens += s.bank_num


def stage2(r):
    s = r.seg
    while True:
        point('wait for a chunk', lambda: s.tokens > 0)
        s.tokens -= 1
        point('take', lambda: s.over or any(b and b[1] == 'full' for b in s.banks))
        full = [i for i, b in enumerate(s.banks) if b and b[1] == 'full']
        if not full:
            me().observe('over')
            return
        i = full[0]
        c = s.banks[i][0]
        me().observe('chunk %d' % c)
        s.banks[i] = (c, 'taken')
        call_transfer(r, -1, c)
        # Positions are those of the parser's input; a worker reads them from its own
        pieces, null = INPUTS[r.path]
        at = 2 * c
        call_reduction(r, 2, at, at + 2, 0, 0)
        if r.seg.chunks == 1:
            call_reduction(r, 1, 0, at + 2, 0, 1)
        call_transfer(r, i, -1)
        point('hand over', eager=True)
        s.banks[i] = (c, 'ready')


def stage3(r):
    s = r.seg
    n = 0
    while True:
        point('merge', lambda: s.over or (n, 'ready') in s.banks, eager=True)
        if (n, 'ready') not in s.banks:
            me().observe('over')
            return
        i = s.banks.index((n, 'ready'))
        s.banks[i] = (n, 'merging')
        call_transfer(r, i, n)
        if n == s.chunks - 1 and s.chunks > 1:
            call_reduction(r, 1, 0, 2 * s.chunks, s.chunks - 1, s.chunks)
        n += 1
        point('give back', eager=True)
        s.banks[i] = None


class Function:
    """What ctypes gives for a function of a library"""

    def __init__(self, f):
        self.f = f
        self.restype = self.argtypes = None

    def __call__(self, *a):
        t = me()
        if t is None or t.world.aborted:
            return 0
        return self.f(t.world, *a)


HANDLES = itertools.count(4096, 16)


class FakeLib:
    def __init__(self):
        for n in dir(self):
            if n.startswith('do_'):
                setattr(self, n[3:], Function(getattr(self, n)))

    def new(self, w, x):
        h = next(HANDLES)            # never used again, not even by another execution
        w.handles[h] = x
        n = me().proc.number
        w.names[h] = (n, sum(k[0] == n for k in w.names.values()))
        return h

    def find(self, w, h):
        if h not in w.handles:
            w.fail('the library is given something that was destroyed, or never made')
            w.aborted_by_fail = True
            raise Abort()
        return w.handles[h]

    def do_GrammarCreate(self, w, name):
        return self.new(w, 'grammar')

    def do_GrammarDestroy(self, w, h):
        return 0

    def do_GrammarPrint(self, w, h, name, depth):
        return 0

    def do_GrammarOptimize(self, w, h):
        return 0

    def do_GrammarEnumMachines(self, w, h, callback):
        self.find(w, h)
        callback('Root', 1)
        callback('Leaf', 2)

    def do_ParserCreate(self, w, grammar, dry):
        self.find(w, grammar)
        return self.new(w, ('parser', me().proc.number))

    def do_ParserDestroy(self, w, h):
        x = w.handles.get(h)
        if x and x[1] == me().proc.number:
            del w.handles[h]
        return 0

    def do_ChaserCreate(self, w, grammar):
        return self.new(w, 'chaser')

    def do_ChaserDestroy(self, w, h):
        return 0

    def path(self, w, name):
        p = name.decode()
        if p not in INPUTS:
            w.fail('a runner is made for %r' % p)
            raise Abort()
        return p

    def do_Stage1RunnerCreate(self, w, name, parser, bank_size, bank_num):
        self.find(w, parser)
        point('create shared memory')
        p, proc = self.path(w, name), me().proc
        if proc.pid in w.segments:
            w.fail('shared memory and semaphore are created while those of an earlier parse exist')
            raise Abort()
        s = Segment(bank_size, bank_num)
        s.chunks = len(INPUTS[p][0])
        w.segments[proc.pid] = s
        w.all_segments.append(s)
        proc.attached.append((1, p))
        return self.new(w, Runner(w, 1, p, s, proc.pid, proc))

    def attach(self, w, kind, name, bank_size, bank_num, pid):
        point('attach')
        p, proc = self.path(w, name), me().proc
        s = w.segments.get(pid)
        if s is None:
            w.fail('a worker looks for shared memory that does not exist (%s)' % p)
            raise Abort()
        if (s.bank_size, s.bank_num) != (bank_size, bank_num):
            w.fail('a worker attaches with other sizes than those of the shared memory')
            raise Abort()
        me().observe('segment %d' % w.all_segments.index(s))
        proc.attached.append((kind, p))
        return self.new(w, Runner(w, kind, p, s, pid, proc))

    def do_Stage2RunnerCreate(self, w, name, bank_size, bank_num, pid):
        return self.attach(w, 2, name, bank_size, bank_num, pid)

    def do_Stage3RunnerCreate(self, w, name, bank_size, bank_num, pid):
        return self.attach(w, 3, name, bank_size, bank_num, pid)

    def do_RunnerRegisterListener(self, w, h, listener, transfer):
        r = self.find(w, h)
        r.listener, r.transfer = listener, transfer

    def do_RunnerGetWindow(self, w, h):
        return ctypes.addressof(WINDOWS[self.find(w, h).path])

    def do_RunnerStart(self, w, h):
        r = self.find(w, h)
        if r.native:
            w.fail('a runner is started twice')
        if r.kind != 1 and r.listener is None:
            w.fail('a runner is started without a listener')
        r.native = Thread(w, 'stage %d of process %d' % (r.kind, r.proc.number), r.proc, lambda: (stage1, stage2, stage3)[r.kind - 1](r))

    def do_RunnerWait(self, w, h):
        r = self.find(w, h)
        if not r.native:
            w.fail('a runner is waited for that was never started')
            raise Abort()
        point('wait', lambda: r.native.finished, eager=True)

    def do_RunnerDestroy(self, w, h):
        r = w.handles.get(h)
        if not isinstance(r, Runner) or r.proc is not me().proc:
            return 0                     # the copy of a forked process
        if r.kind == 1:
            point('unlink')
        if r.native and not r.native.finished:
            w.fail('a runner is destroyed while it is running')
        if r.native:
            # What its callbacks have done is in the objects of its process, and nowhere else
            r.native.history = digest(r.proc.roots)
        r.listener = r.transfer = None
        del w.handles[h]
        if r.kind == 1 and r.pid in w.segments:
            del w.segments[r.pid]
        return 0


def digest(roots):
    """The state of some objects. What cannot be looked into counts as new."""
    seen, out, todo, keep = {}, [], [roots], []
    while todo:
        x = todo.pop()
        if x is None or isinstance(x, (bool, int, float, str, bytes)):
            out.append(repr(world.names.get(x, x)))
            continue
        if isinstance(x, (types.ModuleType, type)):
            out.append(x.__name__)
            continue
        if id(x) in seen:
            out.append('@%d' % seen[id(x)])
            continue
        seen[id(x)] = len(seen)
        keep.append(x)
        out.append(type(x).__name__)
        if isinstance(x, Handle):
            out.append(repr(getattr(x, 'number', None)))
        elif isinstance(x, (list, tuple, set, frozenset)):
            out.append(str(len(x)))
            todo.extend(x)
        elif isinstance(x, dict):
            out.append(repr(list(map(repr, x))))
            todo.extend(x.values())
        elif isinstance(x, types.MethodType):
            todo += [x.__self__, x.__func__]
        elif isinstance(x, types.FunctionType):
            out.append(x.__qualname__)
            todo += [x.__defaults__, [c.cell_contents for c in x.__closure__ or ()]]
        elif isinstance(x, logging.Logger):
            out.append(re.sub(r'\d+', '', x.name))
        elif type(x).__module__.startswith(('centaurus', '__main__')) and hasattr(x, '__dict__'):
            todo.append(x.__dict__)
        else:
            out.append('opaque %d' % next(HANDLES))
    return hashlib.blake2b(repr(out).encode(), digest_size=12).digest()


# ---------------------------------------------------------------- the code under test
LIB = FakeLib()
real_getpid, real_system = os.getpid, os.system


def fake_getpid():
    t = me()
    return t.proc.pid if t else real_getpid()


def load():
    sys.modules['multiprocessing'] = fake_multiprocessing()
    sys.modules['multiprocessing.queues'] = sys.modules['multiprocessing']
    pkg = types.ModuleType('centaurus_real')
    pkg.__path__ = [os.path.join(os.environ['MC_REPO'], 'src/python/centaurus')]
    sys.modules['centaurus_real'] = pkg
    real_cdll = ctypes.CDLL
    ctypes.CDLL = lambda *a, **k: LIB
    os.getpid = fake_getpid
    os.system = lambda cmd: 0
    try:
        m = importlib.import_module('centaurus_real.context')
    finally:
        ctypes.CDLL = real_cdll
    for n in list(sys.modules):
        if n.startswith('centaurus_real'):
            lg = getattr(sys.modules[n], 'logger', None)
            if lg:
                lg.setLevel(logging.CRITICAL)
    logging.disable(logging.CRITICAL)
    return m


context_module = load()
sys.unraisablehook = lambda a: (None if isinstance(a.exc_value, Abort) else world and world.fail('an exception is lost: %r' % a.exc_value))


class Listener:
    def __init__(self, tag):
        self.tag = tag

    def parseLeaf(self, ctx):
        return self.tag + ctx.read()

    def parseRoot(self, ctx):
        text = ctx.read()
        if text.startswith('d'):
            return None
        return '%s(%s)=%s' % (self.tag, text, ','.join(ctx))


def expected(path, tag):
    pieces, null = INPUTS[path]
    if null:
        return None
    return '%s(%s)=%s' % (tag, ''.join(pieces), ','.join(tag + p for p in pieces))


def script(case):
    w = me().world
    tag = 'x'
    ctx = None
    started = []                     # (first process, history of paths)

    def new_context():
        c = context_module.Context('/grammar')
        c.attach(Listener(tag))
        w.processes[0].roots += (c,)
        return c
    ctx = new_context()
    paths = None
    for op in case.split():
        if op[0] == 'S':
            first = len(w.processes)
            ctx.start(int(op[1:]))
            paths = []
            started.append((first, int(op[1:]), paths))
        elif op[0] == 'P':
            path = '/in/' + op[1:]
            got = ctx.parse(path)
            paths.append(path)
            if got != expected(path, tag):
                w.fail('parsing %s gives %r instead of %r' % (path, got, expected(path, tag)))
        elif op[0] == 'T':
            ctx.stop()
            for first, n, ps in started[-1:]:
                ws = w.processes[first:]
                if not all(p.thread.finished for p in ws):
                    w.fail('a worker is still running after stop')
                for kind, count in ((2, n), (3, 1)):
                    mine = [p for p in ws if p.attached and all(k == kind for k, _ in p.attached)]
                    if ps and (len(mine) != count or any([x for _, x in p.attached] != ps for p in mine)):
                        w.fail('the commands %r reach the workers of stage %d as %r' % (ps, kind, [[x for _, x in p.attached] for p in mine]))
                if [x for k, x in w.processes[0].attached][-len(ps):] != ps and ps:
                    w.fail('the parser is run on other inputs')
            if w.segments:
                w.fail('shared memory is left behind after stop')
        elif op[0] == 'A':
            tag = chr(ord(tag) + 1)
            ctx.attach(Listener(tag))
        elif op[0] == 'N':
            ctx = new_context()


def execute(case, prefix, visited, tree):
    """Runs one execution; new alternatives are added to `tree`."""
    global world
    w = world = World()
    w.restart = False
    proc = ProcessState(w)
    Thread(w, 'the caller', proc, lambda: script(case))
    path = []
    result = 'end'
    while True:
        tr = w.transitions()
        if w.failure or w.restart:
            break
        if not tr:
            if not w.threads[0].finished:
                blocked = ', '.join('%s: %s' % (t.name, t.label) for t in w.threads if not t.finished)
                w.fail('nobody can go on (%s)' % blocked)
            elif any(not t.finished for t in w.threads):
                w.fail('still running at the end: %s' % ', '.join(t.name for t in w.threads if not t.finished))
            elif any(q.items for q in w.queues):
                w.fail('something is left in a queue')
            break
        if len(path) < len(prefix):
            c = prefix[len(path)]
        else:
            if len(tr) > 1:
                k = w.key()
                if k in visited:
                    result = 'seen'
                    break
                visited.add(k)
                for x in tr[1:]:
                    tree.append(path + [x])
            c = tr[0]
        path.append(c)
        w.perform(c)
        stats['transitions'] += 1
    failure, restart = w.failure, w.restart
    labels = [x[0] + str(x[1]) for x in path]
    threads = [t.name for t in w.threads]
    w.end()
    return failure, restart, path, threads, result


def explore(case, limit):
    again = True
    SHARED_QUEUES.clear()
    while again:
        again = False
        visited, tree = set(), [[]]
        ends = 0
        runs = 0
        while tree:
            prefix = tree.pop()
            failure, restart, path, threads, result = execute(case, prefix, visited, tree)
            runs += 1
            if runs % 50 == 0:
                tick()
            if restart:
                again = True
                break
            if failure:
                return failure + '\nschedule: ' + ' '.join(threads[c[1]].replace(' ', '-') if c[0] == 't' else 'queue%d' % c[1] for c in path)[-1500:]
            ends += result == 'end'
            if len(visited) > limit or (DEADLINE and time.time() > DEADLINE and not REPLAY):
                stats['extra']['capped'] = stats['extra'].get('capped', 0) + 1
                break
    stats['states'] += len(visited) + ends
    stats['validated'] += ends
    stats['extra']['executions'] = stats['extra'].get('executions', 0) + runs
    stats['extra']['max_states_of_a_history'] = max(stats['extra'].get('max_states_of_a_history', 0), len(visited))
    if len(stats['samples']) < 4:
        stats['samples'].append('%s: %d states, %d executions' % (case, len(visited), runs))
    return None


def histories(maxlen, workers, inputs):
    """Every valid history of up to maxlen operations, ended by stop"""
    r = []

    def rec(h, running, n):
        if h and not running and h[-1] == 'T':
            r.append(' '.join(h))
        if n == 0:
            return
        if running:
            for i in inputs:
                if n > 1:
                    rec(h + ['P' + i], True, n - 1)
            rec(h + ['T'], False, n - 1)
        else:
            if n > 1:
                for k in workers:
                    rec(h + ['S%d' % k], True, n - 1)
            if h and n > 2 and h[-1] == 'T':
                rec(h + ['A'], False, n - 1)
                rec(h + ['N'], False, n - 1)
    rec([], False, maxlen)
    return r


def cases():
    seen = set()
    if THOROUGH:
        lists = [histories(4, [1, 2, 3], 'abcd'), histories(6, [1, 2], 'bd'), histories(8, [1], 'b'), histories(7, [1, 2], 'c')]
    else:
        lists = [histories(4, [1, 2], 'abcd'), histories(6, [1, 2], 'b'), histories(7, [1], 'd'), ['S3 Pc T', 'S2 Pb Pb Pb T', 'S2 Pd Pc Pa T']]
    for l in lists:
        for h in l:
            if h not in seen:
                seen.add(h)
                yield h


def main():
    global NO_EAGER
    try:                             # the threads hand over to each other; that is twice as fast on one processor
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[SHARD % len(cpus)]})
    except OSError:
        pass
    if REPLAY:
        text = open(REPLAY, encoding='latin-1').read().split('\n')[0]
        begin(text)
        NO_EAGER = text.startswith('full ')
        f = explore(text[5:] if NO_EAGER else text, 10 ** 7)
        if f:
            violation(text, f)
        write_out()
        if '-v' in argv:
            print(stats)
        return
    jobs = [(h, False) for h in cases()]
    # Without the reduction, as a check of it
    jobs += [(h, True) for h in (['S1 Pa T', 'S1 T S1 T', 'S1 Pa Pa T'] if not THOROUGH else ['S1 Pa T', 'S1 Pb T', 'S1 Pa Pa T', 'S1 Pa T S1 Pa T', 'S1 Pa T N S1 Pa T'])]
    jobs.sort(key=lambda j: -len(j[0]) - 100 * j[1] - 50 * j[0].count('S2'))
    for i, (h, full) in enumerate(jobs):
        if i % NSHARDS != SHARD:
            continue
        if DEADLINE and time.time() > DEADLINE:
            stats['extra']['cases_left_out_for_time'] = stats['extra'].get('cases_left_out_for_time', 0) + 1
            continue
        NO_EAGER = full
        text = ('full ' if full else '') + h
        begin(text)
        f = explore(h, 10 ** 6 if THOROUGH else 60000)
        if f:
            violation(text, f)
    write_out()


main()
