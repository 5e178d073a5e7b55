"""What each check consists of: the harnesses (parts), how they are built, and their bounds."""

import os

REPO_FLAGS = ['-funsigned-char', '-DCENTAURUS_BUILD_LINUX', '-w']
LIB = ['ATN.cpp', 'CharClass.cpp', 'CompositeATN.cpp', 'Util.cpp', 'Grammar.cpp']
ASAN = ['-g1', '-O2', '-fsanitize=address', '-fno-omit-frame-pointer', '-DNDEBUG']
FAST = ['-g1', '-O2', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS']


class Part:
    def __init__(self, name, sources, args=(), repo_sources=(), flags=FAST, harness_flags=(), repo_flags=(), link=(),
                 shards=0, stall=60, replay_stall=60, total=(800, 3400), mem_gb=0, stack_mb=0, bounds='', only=None, kind='c++',
                 instrumented=(), variant='', uses=None):
        self.name, self.sources, self.args = name, list(sources), list(args)
        self.repo_sources, self.flags = list(repo_sources), list(flags)
        self.harness_flags = REPO_FLAGS + list(harness_flags)
        self.repo_flags, self.link = list(repo_flags), list(link)
        self.shards, self.stall, self.replay_stall, self.total = shards, stall, replay_stall, total
        self.mem_gb, self.stack_mb, self.bounds, self.only, self.kind = mem_gb, stack_mb, bounds, only, kind
        self.instrumented, self.variant, self.uses = list(instrumented), variant, uses


CHECKS = {}
ASSUMPTIONS = {}

CHECKS['C01'] = [
    Part('c01_charclass', ['c01_charclass.cpp'], repo_sources=['CharClass.cpp', 'Util.cpp'], flags=ASAN,
         bounds=('all classes over 5 consecutive characters plus the rest of the character range, at 6 places of the range, 3 character types',
                 'all classes over 6 consecutive characters plus the rest of the character range, at 6 places of the range, 3 character types')),
]
ASSUMPTIONS['C01'] = ['the half-open representation cannot hold the largest character of the type, so that character is outside the alphabet']

_RX = ('every pattern of up to 6 tokens over 2 atoms, 5 over 3 atoms, 4 with every quantifier form, 3 over 33 atoms; pairs of 18 operands in 5 shapes; 27 written patterns',
       'every pattern of up to 7 tokens over 2 atoms, 5 over 3 atoms, 5 with every quantifier form, 4 over 33 atoms; triples of 18 operands in 4 shapes; 27 written patterns')
CHECKS['C02'] = [
    Part('c02_regex', ['c02_regex.cpp'], repo_sources=['CharClass.cpp', 'Util.cpp'], flags=FAST, stall=20, replay_stall=20,
         bounds=tuple(x + '; all strings up to length 6 and a transition cover of the model; malformed classes and all escapes' for x in _RX)),
]
CHECKS['C03'] = [
    Part('c03_regex', ['c02_regex.cpp'], args=['--c03'], repo_sources=['CharClass.cpp', 'Util.cpp'], flags=FAST, stall=20, replay_stall=20,
         bounds=tuple(x + '; the whole product of model, plain and minimised automaton (strings of any length)' for x in _RX)),
]

TECHNIQUE = {}
NOT_APPLICABLE = {}
TECHNIQUE['C01'] = ('explicit-state model checking of the real class against a set model',
                    'Exhaustive closure of the class algebra over a cell abstraction of the alphabet; every transition and observer runs on the real CharClass; bounded by the width of the window of single characters.')
TECHNIQUE['C02'] = ('bounded exhaustive enumeration of patterns with a transition cover of the model automaton',
                    'Every pattern within the bounds is built by the real parser and compared with a position automaton on all short strings and on a transition cover of the model; longer patterns are covered only by a written list.')
TECHNIQUE['C03'] = ('explicit-state product exploration of model, plain and minimised automaton',
                    'For every pattern within the bounds the whole reachable product is explored, so strings of any length are covered; disagreements are judged by the real NFA on the access string.')

_BODY = ('every rule body of up to 6 tokens over 2 atoms, 5 over 3, 4 over 4; pairs of 35 terminals; pairs of 17 operands in 8 shapes, triples in 5; the 8 sample grammars',
         'every rule body of up to 7 tokens over 2 atoms, 5 over 3 and 4 atoms; triples of 35 terminals; triples of 17 operands in 5 shapes; the 8 sample grammars')
def _gr(n, bounds, **kw):
    return Part('c%s_grammar' % n, ['c04_grammar.cpp'], args=['--c' + n], repo_sources=LIB, flags=FAST, stall=30, replay_stall=30, stack_mb=256, bounds=bounds, **kw)
CHECKS['C04'] = [_gr('04', _BODY)]
CHECKS['C05'] = [_gr('05', _BODY)]
CHECKS['C08'] = [_gr('08', ('every edit of one token or character, and every truncation, of 10 small grammars, of one token of the 8 sample grammars; all sequences of 3 of 21 tokens in 4 contexts, of 4 of 15 characters of a pattern, of 4 of 8 rules; all mixes of up to 4 of 6 directives with 3 sets of included files',
                            'the same with characters of the sample grammars, sequences of 4 tokens in 4 contexts, 5 characters of a pattern, 5 rules'))]
CHECKS['C09'] = [_gr('09', ('every one of 24 separators at every gap of 18 grammars, at all gaps, and pairs of gaps of 10 grammars; 14 line breaks with every one-token edit and truncation of 10 grammars; all combinations of line ends on 4 lines',
                            'the same with all pairs of separators'))]
TECHNIQUE['C04'] = ('explicit-state product exploration of loaded machine and model automaton over enumerated grammars',
                    'Every rule body within the bounds is loaded by the real loader; the product of the loaded machine and the automaton of an independent reader is explored completely, so sentences of any length are covered.')
TECHNIQUE['C05'] = ('explicit-state product exploration of raw and optimised machines over enumerated grammars',
                    'Every rule body within the bounds; sentences of any length; every lookahead decision compared before and after optimisation on all texts within the bound.')
TECHNIQUE['C08'] = ('bounded exhaustive enumeration of texts and edits against a model reader',
                    'All edits and truncations of a set of grammars and all token sequences within the bounds; texts whose meaning the notation leaves open are checked for termination only.')
TECHNIQUE['C09'] = ('bounded exhaustive enumeration of layouts and of positions of an error against a model reader',
                    'All separators at all gaps (and pairs of gaps) and all error positions of a set of small grammars within the bounds.')

_LA = ('every grammar of one rule with a body of up to 6 tokens and 4 kinds of callers, two rules (body of up to 4 tokens with 22 second rules), three rules (1100 combinations), pairs and triples of 25 terminals, ranks at every place of 3 alternatives, the 8 sample grammars',
       'every grammar of one rule with a body of up to 7 tokens and 4 kinds of callers, two rules (body of up to 5 tokens with 22 second rules), three rules (1100 combinations with 3 callers), pairs and triples of 25 terminals, ranks at every place of 3 alternatives, the 8 sample grammars')
def _la(n, extra, **kw):
    return Part('c%s_lookahead' % n, ['c06_lookahead.cpp'], args=['--c' + n], repo_sources=LIB, flags=FAST, stall=60, replay_stall=60, stack_mb=256, bounds=tuple(b + '; ' + extra for b in _LA), **kw)
CHECKS['C05'].append(_la('05', 'lookahead texts of up to 3 (thorough 4) characters from every place of every rule'))
CHECKS['C06'] = [_la('06', 'the whole product of lookahead automaton and model (texts of any length), capped at 4000 states per choice')]
CHECKS['C07'] = [_la('07', 'undefined references at every place of bodies of up to 5 (thorough 6) tokens; verdict, its repetition, and the verdict after optimisation')]
TECHNIQUE['C06'] = ('explicit-state product exploration of lookahead automaton and an independent configuration model over enumerated grammars',
                    'Every choice of every grammar within the bounds, lookahead texts of any length; choices for which the automaton gives up on recursion carry no answer to compare; ranks nested inside alternatives are compared between a lower and an upper bound.')
TECHNIQUE['C07'] = ('bounded exhaustive enumeration of grammars with a configuration-model oracle',
                    'Every grammar within the bounds; grammars that need lookahead through nested invocations of one reference are checked for termination and for the same verdict before and after optimisation only.')
CHECKS['C19'] = [Part('c19_print', ['c19_print.cpp'], repo_sources=LIB, flags=FAST, stall=60, replay_stall=60, stack_mb=256,
    bounds=('every path of up to 3 elements over 20, of up to 5 over 4; every path text of up to 8 characters over 4 and 7 over 5; all triples of 184 paths; diagrams of every pattern of up to 5 tokens over 2 atoms, 3 over 12, of every rule body of up to 5 tokens over 2 atoms, 4 over 4, 512 grammars of three rules, and the samples',
            'every path of up to 3 elements over 20, of up to 6 over 4; every path text of up to 9 characters over 4 and 8 over 5; all triples of 184 paths; diagrams of every pattern of up to 6 tokens over 2 atoms, 4 over 12, of every rule body of up to 5 tokens over 2 and 4 atoms, 512 grammars of three rules, and the samples'))]
TECHNIQUE['C18'] = ('stateful exploration, under a controlled scheduler, of the real context.py, listener.py and corelib.py',
                    'The Python code runs unchanged; multiprocessing and the native library under it are models (asynchronous queues, forked copies of objects, shared memory with the hand-over of StageRunners).')
ASSUMPTIONS['C18'] = ['worker processes are started by fork, as on Linux', 'listeners do not raise and return values that can be pickled',
                      'the runners behave as C10 to C13 decide; here they are a model with the same hand-over of chunks']
TECHNIQUE['C19'] = ('bounded exhaustive enumeration of paths, patterns and grammars; printed graphs are read back and compared state by state',
                    'Every object within the bounds; the diagram is parsed and its nodes, edges, labels and marks are compared with the accessors of the real object. The text of a literal is not part of the diagram.')

# The reduction pipeline: every schedule of the real stage runners
_PIPE = ('w1 b1-b4, w2 b2-b4, w3 b3/b4/b6, w4 b4; up to 5 chunks (4 with two workers, 3 with three); every schedule, and two runs in one process; '
         'every tree of up to 5 nodes with every choice of null values and chunk size, up to 4 nodes with every way of splitting the stream, and trees of up to 45 nodes, under 3 fixed schedules each',
         'the same with up to 5 chunks for w2 b4, 4 for w3 b3, 3 for w3 b6, two runs of 4 chunks; every tree of up to 6 nodes, up to 5 nodes with every way of splitting the stream, under 3 fixed schedules each')
def _pipe(n, py=False, bounds=_PIPE, **kw):
    return Part('c%s_pipeline%s' % (n, '_py' if py else ''), ['c10_main.cpp', 'sched_rt.cpp'], args=['--c' + n], instrumented=['c10_pipeline.cpp'], variant='py' if py else '',
                harness_flags=['-DPYCENTAURUS=1'] if py else [], flags=['-g1', '-O2', '-DNDEBUG'], link=['-ldl', '-lpthread'], stall=120, replay_stall=300, bounds=bounds, **kw)
CHECKS['C10'] = [_pipe('10')]
CHECKS['C11'] = [_pipe('11'), _pipe('11', py=True)]
_RACES = ('the same with the order of all plain accesses as part of the state, for w1 b1-b3 and w2 b2-b4 with up to 3 chunks; every tree of up to 4 nodes, chunks filled to the last word, under 3 fixed schedules',
          'the same with w2 b3 up to 3 chunks, w3 b3 and two runs of w2 b2; every tree of up to 6 nodes')
CHECKS['C12'] = [_pipe('12', bounds=_RACES), _pipe('12', py=True, bounds=_RACES)]
CHECKS['C13'] = [_pipe('13', py=True)]
CHECKS['C13'].append(Part('c13_listener', ['c13_listener.py'], kind='python', uses=CHECKS['C13'][0], stall=60, replay_stall=60,
                          bounds='the callback sequences of every tree of up to 5 nodes above, replayed through the adapters of listener.py'))
CHECKS['C14'] = [_pipe('14', bounds=('dry runs with 1 to 4 banks, captured results with 1 and 2 workers, up to 5 chunks, every schedule; every tree of up to 5 nodes under fixed schedules',
                                     'the same with 3 workers and two runs; every tree of up to 6 nodes under fixed schedules'))]
CHECKS['C18'] = [Part('c18_context', ['c18_context.py'], kind='python', stall=60, replay_stall=120,
                      bounds=('every history of up to 4 calls with 1 and 2 workers over four inputs of 1 to 3 chunks, up to 6 calls on one input, up to 7 with one worker, three longer ones; '
                              'every order of worker steps, queue deliveries and runner steps',
                              'the same with 3 workers, up to 6 calls over two inputs and up to 8 with one worker'))]
_SHIM = ['-I' + os.path.join(os.path.dirname(os.path.abspath(__file__)), 'src/shim')]
_JIT = dict(repo_sources=LIB + ['CodeGenEM64T.cpp'], flags=FAST, harness_flags=_SHIM, repo_flags=_SHIM, link=['-lpthread'], stack_mb=256)
_HOOKED = dict(_JIT, harness_flags=_SHIM + ['-DCENTAURUS_MODEL_CHECKING'], repo_flags=_SHIM + ['-DCENTAURUS_MODEL_CHECKING'])
HOOKS = {'guard': 'CENTAURUS_MODEL_CHECKING', 'enable': 'the parts that need it compile /repo/src/core/*.cpp with -DCENTAURUS_MODEL_CHECKING (and define the page size)', 'source_commits': ['d70752d4edb5084915d2bfbf621c1d73c5f5c6ed']}
CHECKS['C15'] = [Part('c15_native', ['c15_native.cpp'], stall=60, replay_stall=60,
                      bounds=('every pattern of up to 5 tokens over 2 atoms, 4 over 3 atoms and with every quantifier form, 3 over 22 atoms; classes of 1 to 20 ranges in 8 patterns; 30 written patterns; on a cover of the automaton and all strings of up to 6 characters; '
                              'literals over 2 letters up to length 9 and of every length up to 50; white space strings up to length 4; the decisions of every grammar with one rule of up to 4 tokens in 3 surroundings, of pairs and triples of 19 terminals and of the sample grammars; every 8-bit character at every state',
                              'patterns of up to 6 and 5 tokens, literals up to 80 characters, rules of up to 5 tokens'), **_JIT)]
TECHNIQUE['C15'] = ('bounded exhaustive enumeration of patterns, literals and decisions; the code generated for each is run on a cover of its automaton',
                    'The code emitted by the real generator is executed for every pattern, literal and decision within the bounds, each before an inaccessible page and at several alignments, and compared with a position automaton, with comparison, and with the decision automaton. 8-bit characters only.')
ASSUMPTIONS['C15'] = ['asmjit is absent here: a stand-in of the same interface encodes the instructions; its encodings are what the processor runs', 'code for wide characters (wchar_t) is not covered: the generator treats them as 2 bytes, on Linux they are 4',
                      'the character 255 is outside the alphabet (see C01)', 'the input is followed by a NUL and readable 16 bytes beyond it, as the runners provide']
_PS = ('every grammar with a rule of up to 5 tokens over one terminal, 4 over two, 3 over four below the root, of up to 3 tokens in the root; 16 second rules and 11 x 10 x 9 triples of rules with recursion and calls; chains of 12 rules; pairs of 17 terminals in 3 shapes; 6 sample grammars; '
       'each on all short strings (at least 400) and on sentences, their prefixes and single edits; output pages of 1 record and of one of 2 to 512 records',
       'rules of one token more; at least 1500 strings each; both character types with and without optimisation')
_PB = ('3 grammars whose records fill up to 3 pages of the real size to the last record, one or two more or fewer', 'the same, deep nesting over 3 pages too')
def _parser(n, args):
    return [Part('c%s_parser' % n, ['c16_parser.cpp'], variant='_small', args=args, stall=60, replay_stall=60, bounds=_PS, **_HOOKED),
            Part('c%s_pages' % n, ['c16_parser.cpp'], args=args, stall=60, replay_stall=60, mem_gb=2, bounds=_PB, **_JIT)]
CHECKS['C16'] = _parser('16', [])
TECHNIQUE['C16'] = ('bounded exhaustive enumeration of grammars and inputs; the generated parsers are run and compared with all derivations and with an interpreter of the machines',
                    'Every grammar and input within the bounds is run through the code of all three parsers. Where the grammar derives no prefix, exactly one, or lookahead cannot decide, is computed from the grammar text alone; in between, the loaded machines with the real lookahead automata are the oracle.')
ASSUMPTIONS['C16'] = ASSUMPTIONS['C15'] + ['output pages of other sizes than 8 MB stand for those of 8 MB (chosen through the hook); pages of the real size are covered by single grammars']
CHECKS['C17'] = [Part('c17_context', ['c17_context.cpp'], stall=120, replay_stall=120,
                      bounds=('12 grammars: a third of the sets of actions on 3 inputs, every input with 1 to 3 workers, a third of the histories of 3 parses over 4 inputs with changing actions; two contexts in turns; '
                              'inputs of a multiple of the memory page and a few characters more or less; up to 3 chunks of the real size, wide and nested, accepted and rejected',
                              'the same with every set of actions, every history, more inputs, all worker counts'), **dict(_JIT, stack_mb=3072)),
                 Part('c17_chunks', ['c17_context.cpp'], variant='_small', stall=120, replay_stall=120,
                      bounds=('the same grammars on up to 24 sentences and rejected inputs, in chunks of 1, 2, 3, 5 and 8 records, 1 to 3 workers, two parses; a third of the combinations', 'up to 60 sentences, all combinations'), **_HOOKED)]
CHECKS['C17'] += _parser('17', ['--c17'])
TECHNIQUE['C17'] = ('bounded exhaustive enumeration of grammars, inputs, sets of actions, worker counts and histories on the real Context; the invocations are compared with a walk of the parse tree',
                    'Every case runs generated code, runners and threads as they are, with the schedule left to the operating system (all schedules of the same runners: C10 to C12). What a rejected input leaves for the runners is compared with the machines for every grammar of C16.')
ASSUMPTIONS['C17'] = ASSUMPTIONS['C16'] + ['on a rejected input, actions may be invoked for rules that were complete by then', 'actions do not throw', 'one parse at a time in a process']
def _py(variant, base, name='c20_python', args=None, bounds=None):
    lib = Part('c20_pylib', ['c20_pylib.cpp'], variant=variant, **dict(base, repo_sources=base['repo_sources'] + ['../pydll/PyCentaurus.cpp'],
               flags=base['flags'] + ['-fPIC'], link=base['link'] + ['-shared']))
    return Part(name + variant, ['c20_python.py'], args=args or (['--small'] if variant else []), kind='python', uses=lib, stall=120, replay_stall=120, bounds=bounds or _PYB[bool(variant)])
_PYB = [('16 grammars on the sentences of up to 7 words (up to 20), their variants with white space, prefixes, edits and texts behind them, with 1 to 3 workers; up to 90 listeners each of methods and default methods with 8 kinds of values; '
         'histories of 5 parses over 4 inputs with a stop in between and other listeners; two contexts in turns; 14 grammars that are rejected; inputs around the size of a memory page; 2 pages of the real size',
         'up to 60 sentences of up to 8 words, 1000 listeners, up to 3 pages of the real size'),
        ('the same grammars and inputs in pages of 1, 2, 3, 5 and 8 records, 1 to 3 workers, all methods and other listeners; half of the combinations', 'all combinations')]
CHECKS['C20'] = [_py('', _JIT), _py('_small', _HOOKED)]
TECHNIQUE['C20'] = ('bounded exhaustive enumeration of grammars, inputs, listeners, worker counts and histories on the real package; values and calls are compared with all derivations of the input',
                    'Every case runs the Python package, the native library, generated code and worker processes as they are, with the schedule left to the operating system (schedules: C13 and C18).')
ASSUMPTIONS['C20'] = ASSUMPTIONS['C16'] + ['worker processes are started by fork, as on Linux', 'listeners do not raise, return values that can be pickled, and have a method for every rule or a default one',
                      'what a rejected input returns is not specified', 'one parse at a time in a process']
CHECKS['C21'] = [Part('c21_tool', ['c21_tool.cpp'], stall=60, replay_stall=60, bounds=('12 grammars, 6 sample grammars and 13 that do not load; every command with every rule name, every node, calls in rules and 20 unfit names, paths and indices; two of 12 orders and spellings of the options and an output file each; '
                              'every set of up to 4 options with 9 commands; patterns of up to 3 tokens over 14 and 12 written ones', 'all 12 orders and spellings, sets of up to 5 options, patterns of up to 4 tokens'), **dict(_JIT, repo_sources=_JIT['repo_sources'] + ['../tool/main.cpp'], repo_flags=_SHIM + ['-Dmain=tool_main']))]
TECHNIQUE['C21'] = ('bounded exhaustive enumeration of command lines; each runs through the real main() in a process of its own and is compared with a model of the usage text',
                    'Exit status, standard output, standard error and output file of every command line within the bounds are compared with the usage text and with what the library prints for the same object (judged by C19).')
ASSUMPTIONS['C21'] = ['what a refused command line prints is not specified beyond that it says something', 'lines of a diagram may come in any order', 'names and paths are ASCII']
CHECKS['C22'] = [Part('c22_crash', ['c22_crash.cpp'], stall=120, replay_stall=120, bounds=('5 expressions, 1 and 2 workers, pages of 64, 128 and 512 bytes and of the real size: killed at every call (of the longer histories: every 40th part, the first 30 and the last 20), then a parse of the same and one of another size, a quarter of them after a second kill; '
                              'every state of up to 4 banks in 400 planted contents, 6 values of a planted semaphore; 9 kinds of inputs that cannot be read, 1 to 3 workers',
                              'killed at every call, 1 to 3 workers, two kills each; 1300 planted contents'), **dict(_HOOKED, link=['-lpthread', '-lrt', '-ldl'])),
                 _py('', _JIT, 'c22_python', ['--c22'], ('4 grammars: every position of 7 kinds of inputs that cannot be read in histories of 3 parses with a stop and start, 1 to 3 workers', '16 grammars'))]
TECHNIQUE['C22'] = ('exhaustive exploration of crash points and leftovers on the real code: a parsing process is killed at every system call and action, then the number of the process comes round',
                    'Each history runs in real processes with real shared memory and semaphores; the process number is fixed by replacing getpid(). The schedule of the threads is the operating system\'s. Results are compared with arithmetic.')
ASSUMPTIONS['C22'] = ['kills between two system calls and outside actions are represented by the planted contents of the shared memory', 'the machine has enough descriptors, memory and threads for a parse', 'a killed Python master is not explored: its native part is the same']
_PT = 'stateful model checking of the real code under a controlled scheduler'
TECHNIQUE['C10'] = (_PT, 'Every interleaving of the real worker threads at their atomic operations, semaphores and joins, for the listed worker, bank and chunk counts; sequentially consistent memory. Stream contents are enumerated under fixed schedules only.')
TECHNIQUE['C11'] = (_PT, 'Deadlocks, and states from which no schedule reaches the end, are searched in the complete state graph; what is left behind is counted at every end. Both the thread and the process form.')
TECHNIQUE['C12'] = (_PT + ' with happens-before tracking in the state', 'Every plain access of the real code is checked for bounds, ownership and ordering (by the C++ memory order of the hand-over) in every explored schedule; values that only weak memory can produce are not explored.')
TECHNIQUE['C13'] = (_PT + '; its callback traces are replayed through the real listener.py', 'Every interleaving of the real runners in separate address spaces with a model of the Python adapters; the model is validated by replaying traces through the real adapters.')
TECHNIQUE['C14'] = (_PT, 'Every interleaving of dry runs and of runs with captured results for the listed sizes.')

_PA = ['memory is sequentially consistent in the explored schedules; weaker C++ memory orders show up only as missing happens-before edges (C12)',
       'system calls (shared memory, semaphores, mapping, files) succeed',
       'the parser fills every page it is given to the end with markers or zeros, as the generated parser does']
for _i in ('C10', 'C11', 'C12', 'C13', 'C14'):
    ASSUMPTIONS[_i] = list(_PA)
ASSUMPTIONS['C11'].append('a waiting worker is eventually scheduled (no unfair schedule starves one worker for ever)')
ASSUMPTIONS['C13'].append('the Python adapters are modelled while schedules are explored; listener.py itself is replayed on the callback sequences of complete runs')
ASSUMPTIONS['C02'] = ['patterns are made of the characters of the notation, letters and digits; reversed ranges, empty classes, unbalanced parentheses and ?+ are outside the notation']
ASSUMPTIONS['C03'] = list(ASSUMPTIONS['C02'])
ASSUMPTIONS['C04'] = ['a quantifier applies to the atom before it and | binds weaker than sequence, as in the sample grammars']
ASSUMPTIONS['C06'] = ['the decision is compared up to the end of the invoking contexts that the grammar itself contains', 'white space before a terminal may be consumed by a higher-ranked alternative']
ASSUMPTIONS['C07'] = ['grammars that need lookahead through nested invocations of one reference have no defined verdict (it must only be stable)']
ASSUMPTIONS['C08'] = ['texts whose meaning the notation leaves open (such as a raw CR inside a pattern) only have to be loaded or rejected without crash or hang', 'nesting deeper than the stack allows is out of scope']
ASSUMPTIONS['C19'] = ['the order of lines in a printed diagram is not specified']
