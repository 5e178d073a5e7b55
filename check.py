#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses from /repo's working tree, explores, replays what
failed, and writes /verif/evidence/<id>.json.

    check.py C01 [--tier quick|thorough] [--replay FILE]
"""
import concurrent.futures
import hashlib
import json
import mmap
import os
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CENTAURUS_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')
CACHE = os.path.join(VERIF, '.build')
NPROC = os.cpu_count() or 1

sys.path.insert(0, VERIF)
import checks  # noqa: E402


class CheckError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'src'), os.path.join(VERIF, 'src')):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                if f.endswith(('.pyc',)):
                    continue
                h.update(p.encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
                h.update(b'\0')
    return h


def build(part, workdir):
    """Compiles a harness together with the sources of /repo it needs; returns the path of the program."""
    if part.kind == 'python':
        return build(part.uses, workdir) if part.uses else None
    h = tree_hash()
    h.update(repr((part.sources, part.repo_sources, part.flags, part.link, part.instrumented, part.harness_flags, part.repo_flags)).encode())
    key = h.hexdigest()[:24]
    os.makedirs(CACHE, exist_ok=True)
    stem = os.path.splitext(part.sources[0])[0] + part.variant
    exe = os.path.join(CACHE, '%s-%s' % (stem, key))
    if os.path.exists(exe):
        return exe
    for f in os.listdir(CACHE):     # older builds of this harness
        if f.startswith(stem + '-'):
            os.unlink(os.path.join(CACHE, f))
    objs = []
    cmds = []
    for src in part.sources:
        objs.append(os.path.join(workdir, '%s.h.o' % os.path.basename(src)))
        cmds.append((['g++', '-std=c++17'] + part.flags + part.harness_flags +
                     ['-I' + os.path.join(REPO, 'src/core'), '-I' + os.path.join(VERIF, 'src'),
                      '-c', os.path.join(VERIF, 'src', src), '-o', objs[-1]]))
    for src in part.instrumented:   # real code that runs under the scheduler of sched_rt.cpp
        objs.append(os.path.join(workdir, '%s.i.o' % os.path.basename(src)))
        cmds.append((['clang++', '-std=c++17', '-O1', '-g1', '-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0', '-DNDEBUG'] +
                     part.harness_flags + ['-I' + os.path.join(REPO, 'src/core'), '-I' + os.path.join(VERIF, 'src'),
                      '-c', os.path.join(VERIF, 'src', src), '-o', objs[-1]]))
    for src in part.repo_sources:
        objs.append(os.path.join(workdir, '%s.r.o' % os.path.basename(src)))
        cmds.append((['g++', '-std=c++11'] + part.flags + part.repo_flags + checks.REPO_FLAGS +
                     ['-I' + os.path.join(REPO, 'src/core'), '-I' + os.path.join(VERIF, 'src', 'shim'),
                      '-c', os.path.join(REPO, 'src/core', src), '-o', objs[-1]]))

    def run(cmd):
        return cmd, subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        for cmd, r in ex.map(run, cmds):
            if r.returncode != 0:
                raise CheckError('cannot compile: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    tmp = exe + '.tmp%d' % os.getpid()
    cmd = ['g++'] + part.flags + objs + part.link + ['-o', tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError('cannot link: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    os.rename(tmp, exe)
    return exe


def limits(part):
    def f():
        if part.mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (part.mem_gb << 30, part.mem_gb << 30))
        if part.stack_mb:
            resource.setrlimit(resource.RLIMIT_STACK, (part.stack_mb << 20, part.stack_mb << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
    return f


def environment(workdir, exe, deadline=None):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=0:detect_stack_use_after_return=0'
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=86:print_stacktrace=1'
    env['LC_ALL'] = 'C'
    env['TMPDIR'] = workdir
    env['MC_REPO'] = REPO
    env['MC_SCRATCH'] = workdir
    if exe:
        env['MC_EXE'] = exe
    if deadline:
        env['MC_DEADLINE'] = str(int(deadline))
    return env


def read_cur(path):
    try:
        with open(path, 'rb') as f:
            head = f.read(16)
            seq, n = struct.unpack('<QQ', head)
            return seq, f.read(min(n, 1 << 16)).decode('latin-1')
    except (OSError, struct.error):
        return 0, ''


class Result:
    pass


def run_proc(part, exe, args, workdir, cur, stall, total, deadline=None):
    """Runs one process; ends it if no new case starts for `stall` seconds or after `total` seconds."""
    log = tempfile.TemporaryFile(dir=workdir)
    base = [sys.executable, os.path.join(VERIF, 'src', part.sources[0])] if part.kind == 'python' else [exe]
    p = subprocess.Popen(base + args, stdout=log, stderr=subprocess.STDOUT, cwd=workdir,
                         env=environment(workdir, exe, deadline), preexec_fn=limits(part))
    r = Result()
    r.status = 'exit'
    start = last_change = time.time()
    last_seq = -1
    while True:
        try:
            p.wait(0.2)
            break
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        seq, _ = read_cur(cur) if cur else (0, '')
        if seq != last_seq:
            last_seq, last_change = seq, now
        if now - last_change > stall:
            r.status = 'stall'
        elif now - start > total:
            r.status = 'total'
        if r.status != 'exit':
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            break
    try:
        os.killpg(p.pid, signal.SIGKILL)    # anything the harness left behind
    except (ProcessLookupError, PermissionError):
        pass
    r.rc = p.returncode
    log.seek(0)
    r.log = (lambda b: b[:3000] + b[-3000:] if len(b) > 6000 else b)(log.read()).decode('latin-1')
    log.close()
    return r


def known_cases(pid):
    res = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip('\n')
            if line.startswith('finding: property=%s ' % pid):
                # finding: property=<id> part=<part> case=<case text> what=<what fails>
                rest = line.split(' ', 2)[2]
                part = rest.split(' ', 1)[0][len('part='):]
                case, what = rest.split(' case=', 1)[1].split(' what=', 1)
                res.append((part, case, what))
    return res


def run_part(pid, part, tier, workdir, stop, deadline):
    exe = build(part, workdir)
    nsh = part.shards or NPROC
    part.deadline = deadline()
    known = [(c, w) for (n, c, w) in known_cases(pid) if n == part.name]
    kfile = os.path.join(workdir, part.name + '.known')
    with open(kfile, 'w') as f:
        f.write(''.join(c + '\n' for c, _ in known))
    outs = []
    lock = threading.Lock()
    failures = []

    def one(i):
        if stop.is_set():
            return None
        d = os.path.join(workdir, '%s.%d' % (part.name, i))
        os.makedirs(d, exist_ok=True)
        cur = os.path.join(d, 'cur')
        out = os.path.join(d, 'out.json')
        args = part.args + ['--tier', tier, '--shard', '%d/%d' % (i, nsh), '--out', out, '--cur', cur, '--known', kfile]
        total = part.total[tier == 'thorough']
        r = run_proc(part, exe, args, d, cur, part.stall, total, part.deadline)
        with lock:
            if r.status == 'exit' and r.rc == 0 and os.path.exists(out):
                outs.append(json.load(open(out)))
            elif r.status == 'exit' and r.rc == 3 and os.path.exists(out):
                j = json.load(open(out))
                failures.append((j['case'], j['violation'], part))
                stop.set()
            elif r.status == 'total':
                failures.append((None, 'no answer within %d s' % total, part))
            else:
                seq, text = read_cur(cur)
                what = 'hangs' if r.status == 'stall' else 'crashes (status %s)' % r.rc
                if seq:
                    failures.append((text, what, part))
                    stop.set()
                else:
                    failures.append((None, 'the harness %s before its first case:\n%s' % (what, r.log), part))
        return None

    with concurrent.futures.ThreadPoolExecutor(min(nsh, NPROC)) as ex:
        list(ex.map(one, range(nsh)))
    return exe, outs, failures, known


def replay(part, exe, case, workdir):
    """Runs one case alone. Returns (violated, description)."""
    d = tempfile.mkdtemp(dir=workdir)
    f = os.path.join(d, 'case')
    with open(f, 'wb') as fh:
        fh.write(case.encode('latin-1'))
    out = os.path.join(d, 'out.json')
    cur = os.path.join(d, 'cur')
    r = run_proc(part, exe, part.args + ['--replay', f, '--out', out, '--cur', cur], d, cur,
                 part.replay_stall, part.replay_stall * 4)
    if r.status != 'exit':
        return True, 'does not terminate (ended after %d s)' % part.replay_stall
    if r.rc == 0:
        return False, 'passes when run alone'
    if r.rc == 3:
        try:
            return True, json.load(open(out))['violation']
        except (OSError, ValueError, KeyError):
            return True, r.log
    lines = [l for l in r.log.split('\n') if 'ERROR' in l or 'SUMMARY' in l or 'runtime error' in l]
    return True, 'crashes (status %s) %s' % (r.rc, ' '.join(lines)[:600] or r.log[-600:])


def main():
    argv = sys.argv[1:]
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay_file = None
    i = 1
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]
        elif argv[i] == '--replay':
            replay_file = argv[i + 1]
        i += 2
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    start = time.time()
    parts = checks.CHECKS[pid]
    os.makedirs(EVID, exist_ok=True)
    workdir = tempfile.mkdtemp(prefix='centaurus-%s-' % pid)
    try:
        if replay_file:
            name, case = open(replay_file, encoding='latin-1').read().split('\n', 1)
            case = case.split('\n')[0]
            part = [p for p in parts if p.name == name.split()[-1]][0]
            bad, what = replay(part, build(part, workdir), case, workdir)
            print(what)
            if bad:
                print('VIOLATION property=%s replay=%s' % (pid, replay_file))
            return 1 if bad else 0

        cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'cases': 0, 'parts': {}, 'samples': []}
        stop = threading.Event()
        violations = []
        errors = []
        parts = [p for p in parts if not p.only or p.only == tier]
        for k, part in enumerate(parts):
            t0 = time.time()

            def deadline():
                # Cases not begun by then are left out (and counted as such)
                if tier == 'quick':
                    return time.time() + max(60, start + 700 - time.time()) / (len(parts) - k)
                return time.time() + part.total[1] - 120
            exe, outs, failures, known = run_part(pid, part, tier, workdir, stop, deadline)
            pc = {'cases': 0, 'states': 0, 'transitions': 0, 'validated': 0, 'shards': len(outs)}
            hits = set()
            for o in outs:
                for k in ('cases', 'states', 'transitions', 'validated'):
                    pc[k] += o[k]
                for k, v in o['extra'].items():
                    pc[k] = max(pc.get(k, 0), v) if k.startswith('max_') else pc.get(k, 0) + v
                for smp in o['samples']:
                    if sum(1 for s in cov['samples'] if s.startswith(part.name + ': ')) < 4:
                        cov['samples'].append(part.name + ': ' + smp)
                hits.update(o['known_hit'])
            if not pc['cases'] and not failures:
                errors.append(part.name + ': no case was run')
            pc['wall_s'] = round(time.time() - t0, 1)
            cov['parts'][part.name] = pc
            cov['cases'] += pc['cases']
            cov['states'] += pc['states']
            cov['transitions'] += pc['transitions']
            cov['traces_validated_against_impl'] += pc['validated'] or pc['cases']
            for case, what in known:
                if case in hits:
                    print('KNOWN-FINDING: property=%s %s' % (pid, what))
            failures.sort(key=lambda f: (f[0] is None, len(f[0] or ''), f[0] or ''))
            for case, what, p in failures:
                if case is None:
                    errors.append('%s: %s' % (p.name, what))
                    continue
                if violations:
                    continue
                bad, desc = replay(p, exe, case, workdir)
                if not bad:
                    # Perhaps it depends on the cases before it: run it alone once more, then give up on it
                    errors.append('%s: case %r: %s, but %s' % (p.name, case, what, desc))
                    continue
                path = os.path.join(EVID, '%s.replay' % pid)
                with open(path, 'w', encoding='latin-1') as f:
                    f.write('part %s\n%s\n# %s\n# run again: python3 check.py %s --replay %s\n'
                            % (p.name, case, desc.replace('\n', '\n# '), pid, path))
                violations.append((path, '%s: %s: %s' % (p.name, case, desc)))
            if violations:
                break
        cov['exhaustive'] = not violations and not errors and not any(pc.get('cases_left_out_for_time') or pc.get('capped') for pc in cov['parts'].values())
        for name, pc in cov['parts'].items():
            if pc.get('cases_left_out_for_time'):
                print('%s: %d cases were left out for lack of time' % (name, pc['cases_left_out_for_time']))
        cov['bounds'] = {p.name: p.bounds[tier == 'thorough'] if isinstance(p.bounds, tuple) else p.bounds
                         for p in parts if p.bounds}
        if not cov['samples']:
            cov['samples'] = [v[1] for v in violations] or ['none']
        ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
              'coverage': cov, 'assumptions': checks.ASSUMPTIONS.get(pid, []),
              'wall_s': round(time.time() - start, 2), 'violations': len(violations)}
        with open(os.path.join(EVID, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for path, msg in violations:
            print(msg)
            print('VIOLATION property=%s replay=%s' % (pid, path))
        if violations:
            return 1
        if errors:
            print('\n'.join(errors))
            return 2
        print('%s: held on %d cases, %d states, %d transitions (%.1f s)' %
              (pid, cov['cases'], cov['states'], cov['transitions'], time.time() - start))
        return 0
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print(e)
        sys.exit(2)
