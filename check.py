#!/usr/bin/env python3
"""Decides one property of /repo by deterministic simulation.

usage: check.py C01 [--tier quick|thorough] [--runs N]
       check.py --replay FILE [--verbose]
       check.py --build-all

Exit 0: held in all simulated runs, 1: violated (VIOLATION line), 2: the check itself failed.
"""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NYTL_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
BUILD = os.environ.get('NYTL_SIM_BUILD', os.path.join(VERIF, 'build'))
CXX = 'g++'
BASE = ('-std=c++17 -g1 -O1 -fno-omit-frame-pointer -include cstdint -D_GLIBCXX_ASSERTIONS '
        '-Wall -Wextra -Wno-unused-parameter -Wno-mismatched-new-delete').split()
PLAIN = ('-fsanitize=address -fsanitize=vptr,null,alignment,bounds,return,unreachable,'
         'signed-integer-overflow,shift,enum,bool,object-size -fno-sanitize-recover=all').split()
# instrumented only: threads.cpp takes the place of the runtime of the thread sanitizer
THREADS = '-fsanitize=thread -fno-inline-functions'.split()

CALLBACKS = ['callbacks.cpp', 'cb_plain.cpp', 'cb_plain_rec.cpp', 'cb_plain_simple.cpp', 'cb_sim.cpp',
             'cb_sim_rec.cpp', 'cb_sim_simple.cpp', 'cb_tracked.cpp', 'cb_tracked_rec.cpp',
             'cb_tracked_simple.cpp', 'connections.cpp']
VALUES = ['values.cpp', 'valmat.cpp', 'valreal.cpp']
# parts that rely on more than what properties promise; left out if they do not compile
OPTIONAL = ['values.cpp', 'valmat.cpp', 'valreal.cpp', 'pure.cpp']
CORE = ['main.cpp', 'domains.cpp']
WORLDS = {
    'callbacks': CALLBACKS,
    'guards': ['guards.cpp'],
    'clone': ['clone.cpp'],
    'bytes': ['bytes.cpp'],
    'print': ['print.cpp'],
    'values': VALUES,
    'threads': CALLBACKS + VALUES + ['guards.cpp', 'clone.cpp', 'bytes.cpp', 'print.cpp', 'pure.cpp'],
}
# world, runs of the quick check, runs of the thorough one
PROPS = {
    'C01': ('callbacks', 500000, 12000000), 'C02': ('callbacks', 500000, 12000000),
    'C03': ('callbacks', 500000, 12000000), 'C04': ('callbacks', 500000, 12000000),
    'C05': ('callbacks', 500000, 12000000), 'C06': ('callbacks', 600000, 12000000),
    'C07': ('callbacks', 500000, 12000000), 'C08': ('callbacks', 500000, 12000000),
    'C09': ('callbacks', 400000, 9000000), 'C10': ('callbacks', 400000, 9000000),
    'C11': ('guards', 150000, 3500000), 'C12': ('guards', 150000, 3500000),
    'C13': ('threads', 30000, 500000),
    'C14': ('clone', 250000, 5000000), 'C15': ('clone', 250000, 5000000),
    'C16': ('bytes', 120000, 2500000), 'C17': ('bytes', 120000, 2500000),
    'C18': ('bytes', 120000, 2500000), 'C19': ('print', 700000, 15000000),
    'C20': ('callbacks', 500000, 12000000), 'C21': ('callbacks', 500000, 12000000),
    'C22': ('values', 250000, 6000000), 'C23': ('callbacks', 500000, 12000000),
}
TIME = {'quick': 150, 'thorough': 540}  # seconds of exploration at most

RULE = ('A case is one simulated run: a tape of choices drawn from (VERIF_SEED, property, run number) '
        'decides which objects exist, every operation, every nested operation made by user code called by the '
        'library, every fault and every switch between threads. ')
NONTRIVIAL = {
    'callbacks': 'A run is non-trivial when a function was invoked in a nested call, a function threw, a registration '
                 'failed, an id was invalidated from outside or a disconnect request threw.',
    'guards': 'A run is non-trivial when an exception was thrown, by code in a guarded scope or by a guard function.',
    'clone': 'A run is non-trivial when an object was cloned or clone-moved, or had to fail to.',
    'bytes': 'A run is non-trivial when an operation was refused, an append ran out of memory, or stored bytes were '
             'damaged or cut.',
    'print': 'A run is non-trivial when the sink failed or a printed element threw.',
    'values': 'A run is non-trivial when an element operation or an allocation was made to fail in an operation.',
    'threads': 'A run is non-trivial when there were more switches than threads.',
}
STUBS = {
    'callbacks': 'user functions, connection ids (partly: also ConnectionID and TrackedConnectionID of nytl), connectables, allocator (operator new)',
    'guards': 'guard functions, std::cerr sink',
    'clone': 'members of the cloned classes, allocator (operator new)',
    'bytes': 'assertion handler (NYTL_BYTES_ASSERT), allocator (operator new)',
    'print': 'stream buffer below the std::ostream, printed element type (partly)',
    'values': 'element type with throwing operations, allocator (operator new)',
    'threads': 'thread scheduler (real pthreads, one runs at a time), locks, user functions, ids, allocator, std::cerr sink',
}
REAL = {
    'callbacks': 'nytl/recursiveCallback.hpp, nytl/callback.hpp, nytl/connection.hpp, nytl/scope.hpp, libstdc++ containers, exception unwinding',
    'guards': 'nytl/scope.hpp, exception unwinding',
    'clone': 'nytl/clone.hpp, exception unwinding',
    'bytes': 'nytl/bytes.hpp, nytl/span.hpp',
    'print': 'nytl/vecOps.hpp, nytl/matOps.hpp, nytl/rectOps.hpp, std::ostream',
    'values': 'nytl/vec.hpp, nytl/vecOps.hpp, nytl/mat.hpp, nytl/matOps.hpp, nytl/rectOps.hpp, nytl/utf.hpp, libstdc++',
    'threads': 'all headers of nytl with behaviour at run time, libstdc++, pthreads',
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class BuildError(Exception):
    def __init__(self, tu, cmd, text):
        super().__init__(text)
        self.tu, self.cmd, self.text = tu, cmd, text


def tree_hash(extra):
    h = hashlib.sha256(extra.encode())
    for root in (os.path.join(REPO, 'nytl'), SIM):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b'\0')
                with open(p, 'rb') as fd:
                    h.update(fd.read())
                h.update(b'\0')
    return h.hexdigest()[:20]


def build(world):
    """Builds the simulator from /repo's current tree. Returns its path and the time it took."""
    threads = world == 'threads'
    flags = BASE + ['-I' + REPO]
    key = tree_hash(' '.join([CXX] + flags + PLAIN + THREADS))
    out = os.path.join(BUILD, key)
    exe = os.path.join(out, 'sim_' + world)
    if os.path.exists(exe):
        return exe, 0.0
    t0 = time.time()
    os.makedirs(out, exist_ok=True)
    for d in os.listdir(BUILD):  # of older trees
        p = os.path.join(BUILD, d)
        if d != key and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 3600:
            shutil.rmtree(p, ignore_errors=True)

    def cmd_for(tu):
        instr = THREADS if threads else PLAIN
        if threads and tu in ('main.cpp', 'domains.cpp', 'threads.cpp'):
            instr = []
        obj = os.path.join(out, tu + ('.t.o' if threads else '.o'))
        return [CXX] + flags + instr + ['-c', os.path.join(SIM, tu)], obj

    def compile_one(tu):
        cmd, obj = cmd_for(tu)
        if os.path.exists(obj):
            return
        tmp = obj + '.%d' % os.getpid()
        r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 and tu in OPTIONAL:
            log('%s is left out, it does not compile:\n%s' % (tu, r.stdout[-2000:]))
            cmd = cmd + ['-DSIM_SKIP']
            r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(tu, cmd, r.stdout)
        os.rename(tmp, obj)

    core = CORE + (['threads.cpp'] if threads else ['noyield.cpp'])
    tus = core + WORLDS[world]
    # the slowest ones first
    order = sorted(tus, key=lambda t: -os.path.getsize(os.path.join(SIM, t)) - (10**6 if t.startswith('cb_') else 0)
                   - (2 * 10**6 if t in ('clone.cpp', 'bytes.cpp') else 0))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        futures = [(t, pool.submit(compile_one, t)) for t in order]
        errors = []
        for t, f in futures:
            try:
                f.result()
            except BuildError as e:
                errors.append(e)
    if errors:
        errors.sort(key=lambda e: e.tu not in core)  # these do not depend on nytl
        raise errors[0]
    objs = [cmd_for(t)[1] for t in tus]
    tmp = exe + '.%d' % os.getpid()
    cmd = [CXX] + ([] if threads else ['-fsanitize=address,undefined']) + ['-o', tmp] + objs + ['-lpthread', '-ldl']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('link', cmd, r.stdout)
    os.rename(tmp, exe)
    return exe, time.time() - t0


def num(prop):
    return str(int(prop[1:]))


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', **kw)


def explore(exe, prop, seed, runs, secs, workers, out):
    os.makedirs(out, exist_ok=True)
    r = run([exe, 'explore', '--prop', num(prop), '--seed', str(seed), '--runs', str(runs),
             '--time', str(secs), '--workers', str(workers), '--out', out])
    try:
        with open(os.path.join(out, 'stats.json')) as f:
            stats = json.load(f)
    except (OSError, ValueError):
        stats = None
    return r.returncode, stats


def read_violations(out):
    vs = []
    for f in sorted(os.listdir(out)):
        if not f.startswith('viol.'):
            continue
        v = {}
        with open(os.path.join(out, f), errors='replace') as fd:
            for line in fd:
                k, _, rest = line.rstrip('\n').partition(' ')
                if k == 'tape':
                    v['tape'] = [int(x) for x in rest.split()[1:]]
                elif k in ('run', 'start'):
                    v[k] = int(rest)
                elif k in ('hash', 'label', 'msg'):
                    v[k] = rest
        if 'tape' in v:
            vs.append(v)
    vs.sort(key=lambda v: v['run'])
    return vs


def write_tapes(path, tapes):
    with open(path, 'w') as f:
        for t in tapes:
            f.write('tape %d %s\n' % (len(t), ' '.join(map(str, t))))


def read_tapes(path):
    with open(path) as f:
        return [[int(x) for x in line.split()[2:]] for line in f if line.startswith('tape ')]


def parse_result(text):
    res = {}
    for line in text.splitlines():
        for k in ('RESULT', 'HASH', 'LABEL', 'MSG'):
            if line.startswith(k + ' '):
                res[k.lower()] = line[len(k) + 1:]
    res.setdefault('result', 'none')
    res.setdefault('label', '')
    res.setdefault('hash', '')
    res.setdefault('msg', '')
    res['trace'] = [l for l in text.splitlines() if not re.match(r'(RESULT|HASH|LABEL|MSG)( |$)', l)]
    return res


def replay_tapes(exe, prop, tapes, verbose=False):
    with tempfile.NamedTemporaryFile('w', suffix='.tape', delete=False) as f:
        path = f.name
    try:
        write_tapes(path, tapes)
        return parse_result(run([exe, 'replay', '--prop', num(prop), path] + (['--verbose'] if verbose else [])).stdout)
    finally:
        os.unlink(path)


def rerun(exe, prop, seed, a, b, verbose=False):
    return parse_result(run([exe, 'rerun', '--prop', num(prop), '--seed', str(seed), '--from', str(a),
                             '--to', str(b)] + (['--verbose'] if verbose else [])).stdout)


def same(a, b):
    return a['result'] == b['result'] == 'violation' and a['label'] == b['label'] and a['hash'] == b['hash']


def shrink(exe, prop, tapes, secs):
    with tempfile.TemporaryDirectory() as d:
        a, b = os.path.join(d, 'a'), os.path.join(d, 'b')
        write_tapes(a, tapes)
        r = run([exe, 'shrink', '--prop', num(prop), a, b, '--time', str(secs)])
        if r.returncode == 0 and os.path.exists(b):
            return read_tapes(b)
    return None


def confirm(exe, prop, seed, v, tier):
    """Reproduces a violation in fresh processes and minimises it. None if it cannot be reproduced."""
    def stable(tapes):
        r1, r2 = replay_tapes(exe, prop, tapes), replay_tapes(exe, prop, tapes)
        return r1 if same(r1, r2) else None
    tapes = [v['tape']]
    r = stable(tapes)
    if not r and v['start'] < v['run']:  # depends on earlier runs in the same process
        p = run([exe, 'record', '--prop', num(prop), '--seed', str(seed), '--from', str(v['start']), '--to', str(v['run'] - 1)])
        hist = [[int(x) for x in l.split()[2:]] for l in p.stdout.splitlines() if l.startswith('tape ')]
        tapes = hist + [v['tape']]
        r = stable(tapes)
    rep = {'property': prop, 'seed': seed, 'run': v['run']}
    if r:
        small = shrink(exe, prop, tapes, 40 if tier == 'quick' else 120)
        if small:
            rs = stable(small)
            if rs:
                tapes, r = small, rs
        full = replay_tapes(exe, prop, tapes, True)
        rep.update(kind='tape', tapes=tapes)
    else:
        r1, r2 = rerun(exe, prop, seed, v['start'], v['run']), rerun(exe, prop, seed, v['start'], v['run'])
        if not same(r1, r2):
            return None
        r = r1
        full = rerun(exe, prop, seed, v['start'], v['run'], True)
        rep.update(kind='runs', first=v['start'], last=v['run'])
    rep.update(label=r['label'], message=r['msg'], hash=r['hash'], trace=full['trace'][:2000])
    return rep


def save_replay(prop, name, rep):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, name))
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1)
        f.write('\n')
    return path


def known_findings(prop):
    """known: property=<id> label=<regex> message=<regex> :: <text>"""
    res = []
    try:
        with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) label=/(.*?)/ message=/(.*?)/ :: (.*)', line.strip())
                if m and m.group(1) == prop:
                    res.append(m.groups()[1:])
    except OSError:
        pass
    return res


def is_known(rep, known):
    return any(re.search(l, rep['label']) and re.search(m, rep['message']) for l, m, _ in known)


def sample(exe, prop, seed, idx):
    p = run([exe, 'record', '--prop', num(prop), '--seed', str(seed), '--from', str(idx), '--to', str(idx)])
    tapes = [[int(x) for x in l.split()[2:]] for l in p.stdout.splitlines() if l.startswith('tape ')]
    if len(tapes) != 1:
        return None
    r = replay_tapes(exe, prop, tapes, True)
    t = r['trace']
    return {'run': idx, 'choices': len(tapes[0]), 'result': r['result'], 'hash': r['hash'], 'events': len(t),
            'trace': [l.rstrip() for l in (t if len(t) <= 70 else t[:55] + ['... %d more' % (len(t) - 70)] + t[-15:])]}


def write_evidence(prop, tier, seed, coverage, t0):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': coverage,
          'wall_s': round(time.time() - t0, 2)}
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.rename(path + '.tmp', path)


def check(prop, tier, seed, runs=None):
    t0 = time.time()
    world, quick, thorough = PROPS[prop]
    runs = runs or (quick if tier == 'quick' else thorough)
    try:
        exe, build_s = build(world)
    except BuildError as e:
        # The worlds only use documented interfaces of nytl. When they do not compile (and the part of the
        # simulator that is independent of nytl does), the interface does not provide what was relied on.
        errors = [l for l in e.text.splitlines() if ': error: ' in l or 'static assertion' in l]
        core = e.tu in CORE + ['threads.cpp', 'noyield.cpp', 'link']
        log(e.text[-6000:])
        if core or not errors:
            log('the simulator could not be built (%s)' % e.tu)
            return 2
        rep = {'property': prop, 'seed': seed, 'kind': 'compile', 'tu': e.tu, 'command': ' '.join(e.cmd + ['-fsyntax-only']),
               'label': 'does not compile', 'message': errors[0], 'trace': errors[:50]}
        path = save_replay(prop, 'compile', rep)
        write_evidence(prop, tier, seed, {
            'evaluations': 0, 'distinct_nontrivial': 0, 'rule': RULE + NONTRIVIAL[world],
            'samples': [{'compile_error': errors[:5]}]}, t0)
        print('does not compile: %s' % errors[0])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1

    workers = max(2, min(16, os.cpu_count() or 4))
    known = known_findings(prop)
    with tempfile.TemporaryDirectory(prefix='nytlsim.') as tmp:
        # the same seeds have to give the same traces, whoever runs them
        n = 1024 if world != 'threads' else 256
        d1 = explore(exe, prop, seed, n, 60, workers, os.path.join(tmp, 'd1'))
        d2 = explore(exe, prop, seed, n, 60, 3, os.path.join(tmp, 'd2'))
        deterministic = None
        if d1[0] == d2[0] == 0:
            deterministic = d1[1]['digest'] == d2[1]['digest']
            if not deterministic:
                log('warning: runs are not deterministic')
        out = os.path.join(tmp, 'x')
        rc, stats = explore(exe, prop, seed, runs, TIME[tier], workers, out)
        if stats is None or rc not in (0, 10):
            for f in os.listdir(out):
                if f.startswith('harness.'):
                    log(open(os.path.join(out, f)).read())
            log('the simulator failed (%d)' % rc)
            return 2
        found, unconfirmed, seen_known = None, 0, []
        if rc == 10:
            for v in read_violations(out):
                rep = confirm(exe, prop, seed, v, tier)
                if not rep:
                    unconfirmed += 1
                    continue
                if is_known(rep, known):
                    seen_known.append(rep['label'])
                    continue
                found = rep
                break
        for _, _, text in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
        samples = []
        for i in range(40):
            s = sample(exe, prop, seed, i)
            if s and (s['events'] >= 8 or i >= 30):
                samples.append(s)
            if len(samples) >= 3:
                break
        c = stats['counters']
        wall = max(stats['wall'], 0.001)
        write_evidence(prop, tier, seed, {
            'evaluations': stats['runs'] + stats['foreign'] + (1 if found else 0),
            'distinct_nontrivial': stats['distinct'],
            'rule': RULE + NONTRIVIAL[world] + ' Distinct: the hash over the whole history of events (operations, '
                    'invocations, results, faults, switches) differs.',
            'samples': samples,
            'nontrivial_runs': stats['nontrivial'],
            'runs_given_up': stats['foreign'],
            'runs_given_up_why': 'another property was violated first' if stats['foreign'] else 'none',
            'runs_per_hour': int(stats['runs'] / wall * 3600),
            'seeds_per_hour': int(stats['runs'] / wall * 3600),
            'seeds': 'run i uses the generator state derived from (%d, %s, i), i in [0, %d)' % (seed, prop, runs),
            'simulated_time': 'the library has no clock or timer; simulated time is counted in events: %d' % stats['steps'],
            'simulated_steps': stats['steps'],
            'faults_injected': {k: v for k, v in sorted(c.items()) if k.startswith('fault: ')},
            'probes': {k: v for k, v in sorted(c.items()) if not k.startswith('fault: ')},
            'distinct_measure': 'distinct hashes of complete event histories of non-trivial runs',
            'trace_digest': stats['digest'],
            'determinism_selftest': {'runs': n, 'workers': [workers, 3], 'equal_traces': deterministic},
            'real_code': REAL[world],
            'stubs': STUBS[world],
            'violation': {k: found[k] for k in ('label', 'message', 'hash', 'run')} if found else None,
            'unconfirmed': unconfirmed,
            'known_findings_seen': seen_known,
            'build_s': round(build_s, 1),
            'explore_s': stats['wall'],
            'sources_hash': os.path.basename(os.path.dirname(exe)),
        }, t0)
        if found:
            path = save_replay(prop, 'seed%d-run%d' % (seed, found['run']), found)
            print('%s: %s' % (found['label'], found['message']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        if unconfirmed:
            log('%d violations could not be reproduced' % unconfirmed)
            return 2
    print('%s holds in %d runs (%d distinct non-trivial), %d events, %.0f s' %
          (prop, stats['runs'], stats['distinct'], stats['steps'], time.time() - t0))
    return 0


def replay(path, verbose):
    with open(path) as f:
        rep = json.load(f)
    prop = rep['property']
    if rep['kind'] == 'compile':
        r = subprocess.run(rep['command'].split())
        print('reproduced' if r.returncode else 'not reproduced')
        return 1 if r.returncode else 0
    exe, _ = build(PROPS[prop][0])
    if rep['kind'] == 'tape':
        r = replay_tapes(exe, prop, rep['tapes'], True)
        plain = replay_tapes(exe, prop, rep['tapes'])
    else:
        r = rerun(exe, prop, rep['seed'], rep['first'], rep['last'], True)
        plain = rerun(exe, prop, rep['seed'], rep['first'], rep['last'])
    if verbose:
        print('\n'.join(r['trace']))
    print('%s %s: %s (hash %s)' % (plain['result'], plain['label'], plain['msg'], plain['hash']))
    if plain['result'] == 'violation' and plain['label'] == rep['label'] and plain['hash'] == rep['hash']:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('not reproduced')
    return 0


def main():
    args = sys.argv[1:]
    if '--build-all' in args:
        for w in WORLDS:
            try:
                exe, s = build(w)
                log('%s: %.1f s' % (exe, s))
            except BuildError as e:  # left to the checks
                log('%s: cannot build %s\n%s' % (w, e.tu, e.text[-3000:]))
        return 0
    if '--replay' in args:
        return replay(args[args.index('--replay') + 1], '--verbose' in args)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    runs = int(args[args.index('--runs') + 1]) if '--runs' in args else None
    try:
        seed = int(os.environ.get('VERIF_SEED') or '1')
    except ValueError:
        seed = int(hashlib.sha256(os.environ['VERIF_SEED'].encode()).hexdigest()[:12], 16)
    if not args or args[0] not in PROPS or tier not in TIME:
        log(__doc__)
        return 2
    return check(args[0], tier, seed, runs)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception as e:  # an error of the check, not a verdict
        import traceback
        traceback.print_exc()
        sys.exit(2)
