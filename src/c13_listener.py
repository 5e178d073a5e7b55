"""Replays the callback sequences of the real runners (from the explorer, --dump) through the real adapters of
src/python/centaurus/listener.py and compares what the handlers see with sequential evaluation."""
import ctypes
import importlib.util
import json
import mmap
import os
import struct
import subprocess
import sys

sys.dont_write_bytecode = True
argv = sys.argv[1:]


def opt(name, default=None):
    return argv[argv.index(name) + 1] if name in argv else default


OUT, CUR, REPLAY = opt('--out'), opt('--cur'), opt('--replay')
state = {'cases': 0, 'states': 0, 'transitions': 0, 'validated': 0, 'extra': {}, 'samples': [], 'known_hit': []}
cur = None
if CUR:
    fd = os.open(CUR, os.O_RDWR | os.O_CREAT, 0o600)
    os.ftruncate(fd, 16 + 65536)
    cur = mmap.mmap(fd, 16 + 65536)


def write_out(**kw):
    if OUT:
        with open(OUT + '.tmp', 'w') as f:
            json.dump(dict(state, **kw), f)
        os.rename(OUT + '.tmp', OUT)


def begin(text):
    state['cases'] += 1
    if cur:
        b = text.encode('latin-1')[:65000]
        cur[16:16 + len(b)] = b
        seq = struct.unpack('<Q', cur[0:8])[0]
        cur[8:16] = struct.pack('<Q', len(b))
        cur[0:8] = struct.pack('<Q', seq + 1)


def violation(case, what):
    print('case: %s\nviolation: %s' % (case, what), file=sys.stderr)
    write_out(violation=what, case=case)
    os._exit(3)


spec = importlib.util.spec_from_file_location('centaurus_listener', os.path.join(os.environ['MC_REPO'], 'src/python/centaurus/listener.py'))
listener = importlib.util.module_from_spec(spec)
spec.loader.exec_module(listener)

TEXT = ''.join(chr(33 + i % 90) for i in range(400))
WINDOW = ctypes.create_string_buffer(TEXT.encode())
NAMES = ['Alpha', 'Beta', 'Gamma']


class Value(object):
    """A semantic value. It is false in a condition and empty, as 0, '' and [] are."""
    def __init__(self, node):
        self.node = node

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, other):
        return True

    __hash__ = None


class Grammar(object):
    def get_machine_num(self):
        return len(NAMES)

    def get_machine_name(self, i):
        return NAMES[i - 1]


class Symbol(object):
    def __init__(self, id, start, end):
        self.id, self.start, self.end = id, start, end


class Queue(object):
    """mp.Queue: what is put is pickled some time later"""
    def __init__(self):
        self.items = []

    def put(self, v):
        self.items.append(v)

    def get(self):
        if not self.items:
            raise Problem('takes the values of a chunk that has not arrived')
        v = self.items.pop(0)
        return list(v)


class Problem(Exception):
    pass


class Handler(object):
    """Knows which node is being reduced and checks what the adapter shows of it."""
    def __init__(self, run):
        self.run = run

    def handle(self, rule, ctx):
        run = self.run
        k, want = run.node, run.want
        id, start, end, null = run.nodes[k]
        if rule is not None and rule != id:
            raise Problem('the handler of rule %d is called for a node of rule %d' % (rule, id))
        if len(ctx) != len(want):
            raise Problem('node %d has %d values instead of %d' % (k, len(ctx), len(want)))
        got = [ctx[i].node for i in range(len(ctx))]
        if got != want:
            raise Problem('node %d gets the values of %r instead of %r' % (k, got, want))
        if [v.node for v in ctx] != want:
            raise Problem('iterating over the values of node %d gives others' % k)
        if run.readable and (ctx.read() != TEXT[start:end] or ctx.readbytes() != TEXT[start:end].encode()):
            raise Problem('node %d reads other text than its own' % k)
        run.handled += 1
        return None if null else Value(k)

    def parseAlpha(self, ctx):
        return self.handle(1, ctx)

    def parseBeta(self, ctx):
        return self.handle(2, ctx)

    def defaultact(self, ctx):
        return self.handle(None, ctx)


class Run(object):
    def __init__(self, case):
        self.case, self.nodes, self.adapters, self.handled = case, [], {}, 0
        self.channels = [Queue() for _ in range(8)]
        self.readable = True
        self.handler = Handler(self)

    def adapter(self, proc, kind):
        if proc not in self.adapters:
            cls = listener.Stage2ListenerAdapter if kind == 2 else listener.Stage3ListenerAdapter
            self.adapters[proc] = (kind, cls(Grammar(), self.handler, self.channels, ctypes.addressof(WINDOW)))
        return self.adapters[proc][1]


def machine_id(id):
    return id if id <= 3 else 0x7fff - id + 1


def run_trace(lines):
    run = None
    for line in lines:
        f = line.split()
        state['transitions'] += 1
        if f[0] == 'C':
            run = Run(line[2:].rstrip('\n'))
            begin(run.case)
        elif f[0] == 'N':
            id = int(f[1])
            run.nodes.append((machine_id(id), int(f[2]), int(f[3]), f[4] == '1'))
            if int(f[3]) > 300:
                run.readable = False
        elif f[0] in ('R', 'X'):
            try:
                a = run.adapter(int(f[1]), int(f[2]))
                if f[0] == 'X':
                    a.transfer_callback(int(f[3]), int(f[4]))
                    continue
                run.node, run.want = int(f[3]), [int(x) for x in f[9:]]
                id, start, end, null = run.nodes[run.node]
                before = run.handled
                values = (ctypes.c_long * 1)(int(f[8]))
                r = a.reduction_callback([Symbol(id, start, end)], values, int(f[7]))
                if run.handled != before + 1:
                    raise Problem('node %d is handled %d times' % (run.node, run.handled - before))
                if r != (0 if null else 1):
                    raise Problem('node %d reports %r values' % (run.node, r))
            except Problem as e:
                violation(run.case, str(e))
            except SystemExit:
                violation(run.case, 'the adapter gives up at node %d' % getattr(run, 'node', -1))
            except Exception as e:
                violation(run.case, 'the adapter raises %r' % e)
        elif f[0] == 'E':
            if run.handled != len(run.nodes):
                violation(run.case, '%d of %d nodes are handled' % (run.handled, len(run.nodes)))
            for kind, a in run.adapters.values():
                if kind == 3:
                    want = [] if run.nodes[0][3] else [0]
                    if [v.node for v in a.values] != want:
                        violation(run.case, 'the merger ends with other values than that of the root')
            if any(q.items for q in run.channels):
                violation(run.case, 'values are left in a queue')
            state['validated'] += 1
            state['states'] += 1
            if len(state['samples']) < 2:
                state['samples'].append(run.case)
            run = None
    return run


# The adapters log every call otherwise
listener.logger.setLevel(100)

cmd = [os.environ['MC_EXE'], '--c13', '--dump']
if REPLAY:
    cmd += ['--replay', REPLAY]
else:
    cmd += ['--tier', opt('--tier', 'quick'), '--shard', opt('--shard', '0/1')]
p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
left = run_trace(p.stdout)
rc = p.wait()
if left is not None or rc not in (0,):
    # What the runners themselves do wrong is reported by the exploration (c13_pipeline_py)
    if left is not None:
        violation(left.case, 'the runners fail (status %d)' % rc)
    print('the explorer fails with status %d' % rc)
    sys.exit(1)
write_out()
