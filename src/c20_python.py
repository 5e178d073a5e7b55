"""C20: the Python interface. Every grammar, listener, input, number of workers and history within the bounds runs through the
real Python package, the real native library and real processes; what parse() returns and what every method of the listener sees
is compared with all derivations of the input.

A case is a JSON list of steps:
  ["page", n]            the size of the parser's output pages (library with the hook only)
  ["new", grammar]       makes another context (the steps that follow apply to it)    ["use", i]   back to the context i
  ["attach", states]     one letter per rule and one for defaultact:
                         v a value that holds everything seen, n None, z 0, e an empty string, f False, l a list, b a long value, - no such method
  ["start", n] ["stop"] ["parse", text] ["optimize"] ["print"] ["names"]
  ["parsemany", count, text, rest]   parses text repeated, then rest; for this, s is a small value and c the number of values seen (no calls are recorded)
  ["load", text]         loads a grammar file that is rejected (null: a file that is not there)
  ["parser", text]       makes a context of a grammar no parser can be made of
"""
import ctypes
import json
import mmap
import multiprocessing
import os
import re
import shutil
import signal
import struct
import sys
import tempfile
import time

sys.dont_write_bytecode = True
argv = sys.argv[1:]


def opt(name, default=None):
    return argv[argv.index(name) + 1] if name in argv else default


OUT, CUR, REPLAY = opt('--out'), opt('--cur'), opt('--replay')
THOROUGH = opt('--tier') == 'thorough'
SHARD, NSHARDS = map(int, opt('--shard', '0/1').split('/'))
DEADLINE = int(os.environ.get('MC_DEADLINE', '0'))
SMALL = '--small' in argv
stats = {'cases': 0, 'states': 0, 'transitions': 0, 'validated': 0, 'extra': {}, 'samples': [], 'known_hit': []}
cur = None
if CUR:
    fd = os.open(CUR, os.O_RDWR | os.O_CREAT, 0o600)
    os.ftruncate(fd, 16 + 65536)
    cur = mmap.mmap(fd, 16 + 65536)


def write_out(**kw):
    if OUT:
        with open(OUT + '.tmp', 'w') as f:
            json.dump(dict(stats, **kw), f)
        os.rename(OUT + '.tmp', OUT)


def tick():
    if cur:
        cur[0:8] = struct.pack('<Q', struct.unpack('<Q', cur[0:8])[0] + 1)


def begin(text):
    stats['cases'] += 1
    if cur:
        b = text.encode('latin-1')[:65000]
        cur[16:16 + len(b)] = b
        cur[8:16] = struct.pack('<Q', len(b))
    tick()


def violation(case, what):
    sys.stderr.write('case: %s\nviolation: %s\n' % (case, what))
    write_out(violation=what, case=case)
    os._exit(3)


# ---------------------------------------------------------------- the real package and library
HOME = tempfile.mkdtemp(dir=os.environ.get('MC_SCRATCH'))
os.symlink(os.environ['MC_EXE'], os.path.join(HOME, 'libpycentaurus.so'))
os.environ['CENTAURUS_DL_PATH'] = HOME
sys.path.insert(0, os.path.join(os.environ['MC_REPO'], 'src/python'))
import centaurus                      # noqa: E402
import centaurus.corelib as corelib   # noqa: E402


# ---------------------------------------------------------------- the meaning of a grammar, from its text
class Meaning:
    """All derivations of a text. Bodies: ('lit', bytes) ('re', compiled) ('ref', name) ('seq', [..]) ('alt', [..]) ('rep', body, least, most)"""

    def __init__(self, text):
        self.tokens = re.findall(r"'(?:[^']*)'|/(?:\\.|[^/])*/|[A-Za-z_][A-Za-z0-9_]*|[:;|()*+?]", text)
        self.rules, self.order = {}, []
        self.at = 0
        while self.at < len(self.tokens):
            name = self.tokens[self.at]
            assert self.tokens[self.at + 1] == ':', text
            self.at += 2
            self.rules[name] = self.alt()
            self.order.append(name)
            assert self.tokens[self.at] == ';', text
            self.at += 1

    def alt(self):
        r = [self.seq()]
        while self.tokens[self.at] == '|':
            self.at += 1
            r.append(self.seq())
        return r[0] if len(r) == 1 else ('alt', r)

    def seq(self):
        r = []
        while self.tokens[self.at] not in '|;)':
            t = self.tokens[self.at]
            self.at += 1
            if t == '(':
                a = self.alt()
                self.at += 1
            elif t[0] == "'":
                a = ('lit', t[1:-1].encode('latin-1'))
            elif t[0] == '/':
                a = ('re', re.compile(t[1:-1].encode('latin-1'), re.S))
            else:
                a = ('ref', t)
            while self.tokens[self.at] in '*+?':
                a = ('rep', a, 1 if self.tokens[self.at] == '+' else 0, 1 if self.tokens[self.at] == '?' else None)
                self.at += 1
            r.append(a)
        return r[0] if len(r) == 1 else ('seq', r)

    # Everything a body can match: a list of (end, children), the children being a chain (rest, last) or None
    def match(self, b, s, p, kids):
        k = b[0]
        if k == 'lit' or k == 're':
            while s[p:p + 1] in (b' ', b'\n', b'\t', b'\r') and s[p:p + 1]:
                p += 1
            if k == 'lit':
                return [(p + len(b[1]), kids)] if s.startswith(b[1], p) else []
            m = b[1].match(s, p)
            return [(m.end(), kids)] if m else []
        if k == 'ref':
            key = (b[1], p)
            if key not in self.memo:
                self.memo[key] = [(e, (b[1], p, e, c)) for e, c in self.match(self.rules[b[1]], s, p, None)]
            return [(e, (kids, t)) for e, t in self.memo[key]]
        if k == 'seq':
            at = [(p, kids)]
            for x in b[1]:
                at = [r for e, c in at for r in self.match(x, s, e, c)]
            return at
        if k == 'alt':
            return [r for x in b[1] for r in self.match(x, s, p, kids)]
        at, done, n = [(p, kids)], [], 0
        while at:
            if n >= b[2]:
                done += at
            n += 1
            if b[3] is not None and n > b[3]:
                break
            at = [(e, c) for e0, c0 in at for e, c in self.match(b[1], s, e0, c0) if e > e0]
        return done

    def trees(self, s):
        self.memo = {}
        return [t[1] for e, t in self.match(('ref', self.order[0]), s, 0, None)]


def chain(c):
    r = []
    while c is not None:
        c, t = c
        r.append(t)
    r.reverse()
    return r


CONSTANT = {'z': 0, 'e': '', 'f': False, 'l': [], 'b': 'b' * 70000}


def evaluate(meaning, states, tree, s, seen):
    """Bottom up, with a stack of its own. Returns the value of the root; fills in the invocations."""
    stack = [(tree, iter(chain(tree[3])), [])]
    while True:
        t, it, values = stack[-1]
        n = next(it, None)
        if n is not None:
            stack.append((n, iter(chain(n[3])), []))
            continue
        stack.pop()
        name, start, end, _ = t
        st = states[meaning.order.index(name)]
        via = name
        if st == '-':
            st, via = states[-1], 'defaultact'
        text = s[start:end]
        seen.append((via, name, start, end, text.decode('latin-1'), len(values)))
        v = (name, text.decode('latin-1'), values) if st == 'v' else len(values) if st == 'c' else ('#',) if st == 's' else CONSTANT.get(st)
        if not stack:
            return v
        if v is not None:
            stack[-1][2].append(v)


# ---------------------------------------------------------------- the listener
def make_listener(names, states, log, quiet=False):
    def act(via, state):
        def handler(ctx):
            name = ctx.grammar.get_machine_name(ctx.symbol.id)
            if quiet:
                return len(ctx) if state == 'c' else ('#',) if state == 's' else CONSTANT.get(state)
            raw = ctx.readbytes()
            kids = list(ctx)
            bad = ''
            if len(ctx) != len(kids) or [ctx[i] for i in range(len(ctx))] != kids:
                bad = 'len(), indexing and iteration disagree'
            try:
                due = raw.decode()
            except UnicodeDecodeError:
                due = None          # not a text
            if due is not None and ctx.read() != due:
                bad = 'read() does not return the text'
            line = json.dumps([via, name, ctx.symbol.start, ctx.symbol.end, raw.decode('latin-1'), len(kids), bad]) + '\n'
            os.write(log, line.encode())
            return (name, raw.decode('latin-1'), kids) if state == 'v' else CONSTANT.get(state)
        return handler

    class Listener:
        pass
    l = Listener()
    for n, st in zip(list(names) + [None], states):
        if st != '-':
            setattr(l, 'parse' + n if n else 'defaultact', act(n or 'defaultact', st))
    return l


def write(name, text):
    path = os.path.join(HOME, name)
    with open(path, 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode('latin-1'))
    return path


def shorten(x):
    x = repr(x)
    return x if len(x) < 300 else x[:300] + '...'


class Made:
    pass


def unreadable(kind):
    if kind == 'missing':
        return os.path.join(HOME, 'missing')
    if kind == 'empty':
        return ''
    if kind == 'directory':
        return HOME
    if kind == 'below-a-file':
        return os.path.join(write('file', 'a;'), 'input')
    if kind == 'long':
        return os.path.join(HOME, 'x' * 5000)
    path = os.path.join(HOME, 'link')       # dangling, or a loop
    if not os.path.islink(path):
        os.symlink('missing' if kind == 'dangling' else 'link', path)
    return path


def run(steps):
    """In a process of its own. Returns what is wrong, or nothing."""
    made, c, parses = [], None, 0
    number = 0
    for k, step in enumerate(steps):
        tick()
        op = step[0]
        on = 'step %d (%s): ' % (k + 1, op)
        if op == 'page':
            corelib.CoreLib.mc_set_page.argtypes = [ctypes.c_long]
            corelib.CoreLib.mc_set_page(step[1])
            page = step[1]
        elif op == 'new':
            c = Made()
            c.meaning = Meaning(step[1])
            c.context = centaurus.Context(write('grammar%d.cgr' % k, step[1]))
            if SMALL:
                c.context.bank_size = page
            made.append(c)
        elif op == 'use':
            c = made[step[1]]
        elif op == 'attach':
            c.states = step[1]
            path = os.path.join(HOME, 'log')
            c.log = os.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o600)
            c.context.attach(make_listener(c.meaning.order, c.states, c.log, 's' in c.states))
        elif op == 'start':
            c.context.start(step[1])
        elif op == 'stop':
            c.context.stop()
        elif op in ('parse', 'parsemany'):
            number += 1
            s = step[1].encode('latin-1') if op == 'parse' else (step[2] * step[1] + step[3]).encode('latin-1')
            trees = c.meaning.trees(s)
            if len(trees) > 1:
                raise AssertionError('ambiguous case')
            due = []
            want = evaluate(c.meaning, c.states, trees[0], s, due) if trees else None
            os.ftruncate(c.log, 0)
            path = write('input%d' % number, s)
            got = c.context.parse(path)
            tick()
            os.unlink(path)
            counts[0 if trees else 1] += 1
            seen = []
            with open(c.log, closefd=False) as f:
                f.seek(0)
                for l in f:
                    x = json.loads(l)
                    if x[-1]:
                        return on + x[-1] + ' for ' + shorten(x[:-1])
                    seen.append(tuple(x[:-1]))
            counts[2] += len(seen)
            if not trees:
                continue
            if got != want or type(got) is not type(want):
                return on + 'the value is ' + shorten(got) + ', due is ' + shorten(want)
            if 's' in c.states:
                continue
            if sorted(seen) != sorted(due):
                more = [x for x in seen if x not in due] or [x for x in seen if seen.count(x) > due.count(x)]
                less = [x for x in due if x not in seen]
                return on + 'invoked and not due: %s, due and not invoked: %s' % (shorten(more[:1]), shorten(less[:1]))
        elif op == 'names':
            g, order = c.context.grammar, c.meaning.order
            if g.get_machine_num() != len(order):
                return on + 'there are %d rules, not %d' % (g.get_machine_num(), len(order))
            for i, n in enumerate(order):
                if g.get_machine_name(i + 1) != n or g.get_machine_id(n) != i + 1:
                    return on + 'rule %d is %s, and %s has the number %s' % (i + 1, g.get_machine_name(i + 1), n, g.get_machine_id(n))
        elif op == 'optimize':
            c.context.grammar.optimize()
        elif op == 'print':
            path = os.path.join(HOME, 'printed')
            c.context.grammar.print(path)
            text = open(path).read()
            if not text.startswith('digraph') or not text.rstrip().endswith('}'):
                return on + 'the diagram is not complete'
            os.unlink(path)
        elif op == 'unreadable':
            path = unreadable(step[1])
            try:
                c.context.parse(path)
            except Exception:
                continue
            return on + 'no exception'
        elif op in ('load', 'parser'):
            path = os.path.join(HOME, 'nowhere.cgr') if step[1] is None else write('bad.cgr', step[1])
            try:
                if op == 'load':
                    corelib.Grammar(path)
                else:
                    centaurus.Context(path)
            except Exception:
                continue
            return on + 'no exception'
    return ''


counts = None
shared = mmap.mmap(-1, 65536)
libc = ctypes.CDLL(None)


def forget(pid):
    """Shared memory of a process that is no more"""
    for f in os.listdir('/dev/shm'):
        if 'Centaurus[%d]' % pid in f:
            try:
                os.unlink('/dev/shm/' + f)
            except OSError:
                pass


def end_workers():
    for p in multiprocessing.active_children():
        p.kill()


def isolated(steps):
    global counts
    shared[:2048] = b'\0' * 2048
    parent = os.getpid()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            libc.prctl(1, signal.SIGKILL)
            if os.getppid() != parent:
                os._exit(9)
            forget(os.getpid())
            counts = [0, 0, 0]
            e = run(steps)
            b = e.encode('utf-8', 'replace')[:4000]
            shared[0:32] = struct.pack('<4Q', len(b), *counts)
            shared[32:32 + len(b)] = b
            end_workers()
            os._exit(0)
        except BaseException:
            import traceback
            b = traceback.format_exc()[-3000:].encode('utf-8', 'replace')
            shared[0:32] = struct.pack('<4Q', len(b), *counts)
            shared[32:32 + len(b)] = b
            end_workers()
            os._exit(4)
    status = os.waitpid(pid, 0)[1]
    forget(pid)
    n, acc, rej, inv = struct.unpack('<4Q', shared[0:32])
    stats['states'] += 1
    stats['transitions'] += acc + rej
    for key, v in (('accepted', acc), ('rejected', rej), ('invocations', inv)):
        stats['extra'][key] = stats['extra'].get(key, 0) + v
    text = bytes(shared[32:32 + n]).decode('utf-8', 'replace')
    if os.WIFSIGNALED(status):
        return 'ends with signal %d' % os.WTERMSIG(status)
    if os.WEXITSTATUS(status) == 4:
        return 'an exception: ' + text.strip().split('\n')[-1] + '\n' + text
    if os.WEXITSTATUS(status):
        return 'ends with status %d' % os.WEXITSTATUS(status)
    return text


def go(steps):
    text = json.dumps(steps)
    begin(text)
    e = isolated(steps)
    if e:
        violation(text, e)
    if stats['cases'] % 97 == 1 and len(stats['samples']) < 4:
        stats['samples'].append(text[:200])


# ---------------------------------------------------------------- cases
GRAMMARS = [
    "R : 'a' ';' ;",
    "R : S ';' ; S : 'a' ;",
    "R : S* ';' ; S : 'a' ;",
    "R : S T ';' ; S : 'a'* ; T : 'b' | 'c' ;",
    "R : ( S | T )* ';' ; S : 'a' T ; T : 'b' ;",
    "R : S ';' ; S : '(' S ')' | 'x' ;",
    "R : S ';' ; S : '(' T* ')' | 'x' ; T : '[' S ']' | 'y' ;",
    "R : S+ ';' ; S : T ',' | '!' T T ; T : 'a' | '<' U '>' ; U : T* ;",
    "R : S? T ';' ; S : 'a' ; T : 'b'? ;",
    "R : 'b'* T ; T : 'a' T | ';' ;",
    "R : S '=' S ';' ; S : T ( '+' T )* ; T : /[0-9]+/ | '(' S ')' ;",
    "R : A ';' ; A : B ; B : C D ; C : 'c' ; D : C? 'd' ;",
    "main : a_1 b2 ';' ; a_1 : 'p'? ; b2 : 'q' a_1 'r' ;",
    "R : R1 R2 ';' ; R1 : 'a' R2 ; R2 : 'b' ; R3 : 'c' R1 ;",
    "I : ( A | B ) ';' ; A : 'a' B ; B : 'b' C ; C : 'c' D E? ; D : 'd' F | 'f' ; E : 'e' G ; F : D ; G : ( H H | J )* K ; H : 'h' ; J : 'j' K ; K : 'k'? L ; L : '.' ;",
    "R : V ';' ; V : STR | LIST ; LIST : '[' ( V ( ',' V )* )? ']' ; STR : /\"[^\"]*\"/ ;",
]
WORDS = {10: ['1', '+', '(', ')', '=', ';', '23'], 15: ['[', ']', ',', '""', '"a b"', '"\xe6\x97\xa5"', ';', '"\t"']}


def inputs(gi, many, longest):
    """Sentences, shortest first, and for some of them a text with white space, a prefix, an edit and something behind them"""
    m = Meaning(GRAMMARS[gi])
    words = WORDS.get(gi) or sorted(set(t[1:-1] for t in m.tokens if t[0] == "'"))
    found, frontier = [], ['']
    for n in range(longest):
        nxt = []
        for f in frontier:
            for w in words:
                nxt.append(f + w)
        for x in nxt:
            if x.endswith(';'):
                t = m.trees(x.encode('latin-1'))
                if len(t) == 1 and t[0][2] == len(x):
                    found.append(x)
        # only texts that may still become a sentence: those of which no proper prefix is one
        frontier = [x for x in nxt if not x.endswith(';')][:20000]
        if len(found) >= many or not frontier:
            break
    r = ['', '?']
    for n, x in enumerate(found[:many]):
        for y in [x, ' ' + ' \n'.join(x) + ' ' if gi not in WORDS else '\n' + x.replace(',', ' , ').replace('+', ' +') + '\n',
                  x[:len(x) // 2] if n % 2 == 0 else x[:-1] + '?', x + 'rest' if n % 4 == 1 else x[1:]]:
            if y not in r:
                r.append(y)
    return r


def cases():
    """The turn picks a part of the combinations, evenly over everything that is combined"""
    turn = 0
    for gi, g in enumerate(GRAMMARS):
        rules = len(Meaning(g).order)
        ins = inputs(gi, 60 if THOROUGH else 20, 8 if THOROUGH else 7)
        every = 'v' * rules + '-'
        kinds = 'vn-' if rules > 2 else 'vnzeflb-'
        sets = ['']
        for i in range(rules + 1):
            sets = [x + k for x in sets for k in ('vn-' if i == rules else kinds)]
        sets = [x for x in sets if x[-1] != '-' or '-' not in x[:-1]]
        for i in range(rules):
            for k in 'zeflb':
                sets.append(every[:i] + k + every[i + 1:])
        good = [x for x in ins if Meaning(g).trees(x.encode('latin-1'))]
        if SMALL:
            for page in (8, 16, 24, 40, 64):
                for k, x in enumerate(ins):
                    for w in (1, 2, 3):
                        turn += 1
                        if THOROUGH or turn % 4 == 0:
                            yield [['page', page], ['new', g], ['attach', every], ['start', w], ['parse', x], ['parse', ins[-1 - k]], ['parse', x], ['stop']]
                        if THOROUGH or turn % 4 == 1:
                            yield [['page', page], ['new', g], ['attach', sets[turn // 5 * 7 % len(sets)]], ['start', w], ['parse', x], ['parse', good[turn % len(good)]], ['stop'],
                                   ['attach', sets[turn // 5 * 11 % len(sets)]], ['start', w % 3 + 1], ['parse', x], ['stop']]
            continue
        # every input, with every number of workers
        for x in ins:
            for w in (1, 2, 3):
                turn += 1
                yield [['new', g], ['names'], ['attach', every], ['start', w], ['parse', x], ['parse', good[0]], ['stop']]
        # every listener
        for k, st in enumerate(sets):
            if k % max(1, len(sets) // (1000 if THOROUGH else 90)):
                continue
            turn += 1
            yield [['new', g], ['attach', st], ['start', turn % 3 + 1], ['parse', good[-1]], ['parse', good[turn % len(good)]], ['stop']]
        # histories: all of up to 3 of four inputs, started again in between
        few = ['', '?', good[0], good[-1]]
        for a in few:
            for b in few:
                turn += 1
                yield [['new', g], ['attach', every], ['start', turn % 3 + 1], ['parse', a], ['parse', b], ['parse', good[-1]], ['stop'],
                           ['attach', sets[turn % len(sets)]], ['start', turn % 2 + 1], ['parse', b], ['parse', good[0]], ['stop']]
        yield [['new', g], ['names'], ['print'], ['optimize'], ['names'], ['print'], ['attach', every], ['start', 2], ['parse', good[-1]], ['optimize'], ['parse', good[0]], ['print'], ['stop']]
    if SMALL:
        return
    # two contexts in turns
    for a in range(0, len(GRAMMARS), 3):
        for b in range(1, len(GRAMMARS), 4):
            ga, gb = GRAMMARS[a], GRAMMARS[b]
            xa, xb = inputs(a, 4, 5), inputs(b, 4, 5)
            yield [['new', ga], ['attach', 'v' * len(Meaning(ga).order) + '-'], ['start', 1], ['parse', xa[-1]], ['new', gb], ['attach', 'v' * len(Meaning(gb).order) + '-'],
                   ['start', 2], ['parse', xb[-1]], ['use', 0], ['parse', xa[2]], ['use', 1], ['parse', xb[2]], ['stop'], ['use', 0], ['parse', xa[-1]], ['stop']]
    # grammar files that are rejected; those that follow are not affected
    good = [['new', GRAMMARS[2]], ['attach', 'vv-'], ['start', 1], ['parse', 'aa;'], ['stop']]
    for bad in [None, '', 'R', 'R :', "R : 'a'", "R : 'a ;", 'R : /[/ ;', "R : ( 'a' ;", "R : 'a' ;\x80", '?', 'include "nowhere.cgr"; R : \'a\' ;', "R : 'a' ; ; ;", 'R : @ ;', '\xff\xfe']:
        if bad in ('', '\xff\xfe'):
            continue
        yield [['load', bad]] + good
        yield good + [['parser', bad], ['load', bad]] + good[3:3] + [['attach', 'vn-'], ['start', 2], ['parse', 'a;'], ['stop']]
    # inputs of a multiple of the memory page and a few characters more or less
    for n in (4080, 4096, 8192):
        for d in (-2, -1, 0, 1, 2):
            yield [['new', GRAMMARS[2]], ['attach', 'vv-'], ['start', 2], ['parse', 'a' * (n + d - 1) + ';'], ['parse', 'a' * (n + d)], ['parse', 'a;'], ['stop']]
    # several pages of the real size
    wide = 1048576 // 2
    for n in [wide - 1, wide, wide * 2 + 5] if THOROUGH else [wide + 7]:
        for w in (1, 2, 3) if THOROUGH else (2,):
            yield [['new', GRAMMARS[2]], ['attach', 'cs-'], ['start', w], ['parsemany', n, 'a', ';'], ['parsemany', 3, 'a', ';'], ['stop']]


UNREADABLE = ['missing', 'empty', 'directory', 'below-a-file', 'long', 'dangling', 'loop']


def c22_cases():
    """Every position of an input that cannot be read in histories of three parses, with a stop in between or not"""
    for gi in range(0, len(GRAMMARS), 1 if THOROUGH else 4):
        g = GRAMMARS[gi]
        every = 'v' * len(Meaning(g).order) + '-'
        ins = [x for x in inputs(gi, 6, 5) if Meaning(g).trees(x.encode('latin-1'))]
        for kind in UNREADABLE:
            for w in (1, 2, 3):
                for bits in range(1, 8):
                    steps = [['new', g], ['attach', every], ['start', w]]
                    for i in range(3):
                        steps.append(['unreadable', kind] if bits >> i & 1 else ['parse', ins[(bits + i) % len(ins)]])
                        if bits % 3 == i:
                            steps += [['stop'], ['start', w % 3 + 1]]
                    yield steps + [['parse', ins[-1]], ['stop']]


def main():
    if REPLAY:
        text = open(REPLAY, encoding='latin-1').read().split('\n')[0]
        begin(text)
        e = isolated(json.loads(text))
        if e:
            violation(text, e)
        write_out()
        return
    for i, steps in enumerate(c22_cases() if '--c22' in argv else cases()):
        if i % NSHARDS != SHARD:
            continue
        if DEADLINE and time.time() > DEADLINE:
            stats['extra']['cases_left_out_for_time'] = stats['extra'].get('cases_left_out_for_time', 0) + 1
            continue
        go(steps)
    write_out()


main()
shutil.rmtree(HOME, ignore_errors=True)
