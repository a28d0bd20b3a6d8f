#!/opt/venv/bin/python
"""Runner: check.py ID [--tier quick|thorough] [--replay FILE] [--runs N] [--workers N] [--start N] [--digests FILE]

Runs are cut into blocks; each block is executed by a fresh process with its own hash seed. What a run
does is a function of (VERIF_SEED, property, index of the run) and the hash seed of its block only.
"""
import argparse
import collections
import ctypes
import gc
import hashlib
import importlib
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

BLOCKED_S = 90          # seconds in which a run does not use the processor at all
HANG_CPU_S = 30         # processor seconds for one run: 100 to 1000 times what runs take


def no_aslr():
    """Same memory layout on every execution. Not essential; ignored where it is not permitted."""
    if os.environ.get('VERIF_NOASLR'):
        return
    os.environ['VERIF_NOASLR'] = '1'
    try:
        libc = ctypes.CDLL(None)
        p = libc.personality(0xffffffff)
        if p != -1 and not p & 0x0040000 and libc.personality(p | 0x0040000) != -1:
            os.execv(sys.executable, [sys.executable] + sys.argv)
    except Exception:
        pass


# ---------------------------------------------------------------- worker side

def load_prop(prop):
    return importlib.import_module('sim.props.' + prop.lower())


class Engine:
    """Executes runs of one property in this process."""
    def __init__(self, prop, tier):
        from sim import node
        node.install()
        self.prop = prop
        self.tier = tier
        self.mod = load_prop(prop)
        node.Node()     # compile the library; import whatever it imports
        gc.collect()
        gc.freeze()
        gc.disable()
        self.since_gc = 0
        signal.signal(signal.SIGVTALRM, self.on_hang)
        signal.signal(signal.SIGALRM, self.on_block)

    def on_hang(self, *a):
        from sim.core import Hang
        raise Hang()

    def on_block(self, *a):
        # A lot of time has passed. Nothing was done in the meanwhile?
        from sim.core import Hang
        if time.process_time() - self.started < 1:
            raise Hang()
        self.started = time.process_time()
        signal.setitimer(signal.ITIMER_REAL, BLOCKED_S)

    def run(self, index, seed=None, replay=None):
        """Returns (env, violation or None)"""
        from sim import core
        from sim.chooser import Chooser
        ch = Chooser(seed, replay)
        env = core.Env(index, ch, self.tier)
        core.fresh_process_state(0)
        self.since_gc += 1
        if self.since_gc >= 25:
            gc.collect()
            self.since_gc = 0
        v = None
        self.started = time.process_time()
        signal.setitimer(signal.ITIMER_VIRTUAL, HANG_CPU_S)
        signal.setitimer(signal.ITIMER_REAL, BLOCKED_S)
        try:
            self.mod.run(env)
        except core.Violation as e:
            v = e
        except core.Discard:
            env.nontrivial = False
        except core.Hang:
            v = core.Violation('hang', 'a run that should take milliseconds did not end within %d s of processor time, or it does nothing since %d s' % (HANG_CPU_S, BLOCKED_S))
            v.fatal = True
        except core.sched.StepBudget as e:
            v = core.Violation('endless', 'an operation did not end within %d instructions' % core.sched.STEP_CAP)
            v.fatal = True
        except core.simmods.SimDeadlock as e:
            v = core.Violation('deadlock', 'no thread can go on: %s' % e)
            v.fatal = True
        except core.sched.Stall as e:
            v = core.Violation('blocked', 'no thread goes on: %s' % e)
            v.fatal = True
        except Exception as e:
            # Where nothing is expected to be raised: by the library? Or is it the simulator that is wrong?
            tb, files = e.__traceback__, []
            while tb is not None:
                files.append(tb.tb_frame.f_code.co_filename)
                tb = tb.tb_next
            from sim import node
            if not any(f.startswith(node.PREFIX) for f in files) or files[-1].startswith(HERE + os.sep):
                raise
            v = core.Violation('unexpected-exception', 'the library raised where it never does:\n' + traceback.format_exc()[-3000:])
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            sys.settrace(None)
        return env, v


def vdict(env, v, index, seed):
    return {'index': index, 'seed': seed, 'kind': v.kind, 'sig': v.sig, 'message': v.message,
            'choices': env.ch.log, 'log': env.log, 'digest': env.digest()}


def worker(a):
    """Executes a block and writes a summary."""
    from sim.chooser import derive
    eng = Engine(a.prop, a.tier)
    known = load_known(a.prop)
    tot = collections.Counter()
    faults, probes, kinds = collections.Counter(), collections.Counter(), collections.Counter()
    distinct, ilv, digests, samples, knowns = set(), set(), [], [], []
    violation = None
    t0 = time.monotonic()
    for i in range(a.start, a.start + a.count):
        seed = derive(a.seed, a.prop, i)
        env, v = eng.run(i, seed)
        if v is not None and v.sig in known and not getattr(v, 'fatal', False):
            knowns.append((v.sig, v.message))
            v = None
        tot['runs'] += 1
        tot['ops'] += env.ops
        tot['steps'] += env.steps
        tot['sim_us'] += env.sim_us
        tot['nodes'] += env.nodes
        faults.update(env.faults)
        probes.update(env.probes)
        kinds.update(env.kinds)
        dg = env.digest()
        if env.nontrivial:
            tot['nontrivial'] += 1
            distinct.add(dg)
            if len(samples) < 1:
                samples.append({'run': i, 'seed': seed, 'history': [l[:400] for l in env.log[:40]]})
        if env.ilv is not None:
            ilv.add(env.ilv)
        if a.want_digests:
            digests.append(dg if env.cross is None else hashlib.sha256(repr(env.cross).encode('utf-8', 'backslashreplace')).hexdigest()[:16])
        if v is not None:
            violation = vdict(env, v, i, seed)
            break
    out = {'tot': tot, 'faults': faults, 'probes': probes, 'kinds': kinds, 'distinct': sorted(distinct), 'ilv': sorted(ilv),
           'digests': digests, 'samples': samples, 'violation': violation, 'known': knowns, 'secs': time.monotonic() - t0}
    with open(a.out, 'w') as f:
        json.dump(out, f)
        f.flush()
    os._exit(0)


def server(a):
    """Executes lists of choices received on stdin; one JSON line each."""
    from sim.chooser import derive
    eng = Engine(a.prop, a.tier)
    if a.prefix:
        p = json.loads(a.prefix)
        for i in range(p['start'], p['index']):
            eng.run(i, derive(p['seed'], a.prop, i))
    for line in sys.stdin:
        req = json.loads(line)
        env, v = eng.run(req['index'], None, req['choices'])
        r = {'kind': None if v is None else v.kind}
        r['cross'] = None if env.cross is None else hashlib.sha256(repr(env.cross).encode('utf-8', 'backslashreplace')).hexdigest()[:16]
        r.update(vdict(env, v, req['index'], None) if v is not None else {'choices': env.ch.log, 'log': env.log, 'digest': env.digest()})
        if v is None:
            r['kind'] = None
        if not req.get('full'):
            r.pop('log')
        if env.cross is not None and req.get('full'):
            r['crosslog'] = [repr(c)[:2000] for c in env.cross]
        sys.stdout.write(json.dumps(r) + '\n')
        sys.stdout.flush()
        if v is not None and getattr(v, 'fatal', False):
            os._exit(0)


# ---------------------------------------------------------------- parent side

def load_known(prop):
    """Signatures of the findings recorded as known; 'fixed:' lines are only a record."""
    r = {}
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) signature=(\S+) (.*)', line)
                if m and m.group(1) == prop:
                    r[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return r


def child_env(hashseed):
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = str(hashseed)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e.pop('PYTHONPATH', None)
    return e


class Server:
    def __init__(self, prop, tier, hashseed, prefix=None):
        self.args = [sys.executable, os.path.join(HERE, 'check.py'), prop, '--server', '--tier', tier]
        if prefix:
            self.args += ['--prefix', json.dumps(prefix)]
        self.hashseed = hashseed
        self.p = None

    def ask(self, choices, index, full=False, timeout=120):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen(self.args, env=child_env(self.hashseed), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, text=True, cwd=HERE)
        try:
            self.p.stdin.write(json.dumps({'choices': choices, 'index': index, 'full': full}) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ''
        if not line:
            self.close()
            return {'kind': None, 'dead': True, 'choices': choices, 'cross': None}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p.stdout.close()
            try:
                self.p.stdin.close()
            except OSError:
                pass
        self.p = None


class Tester:
    """Does a list of choices violate the property (in the same way)?"""
    def __init__(self, prop, tier, hashseeds, prefix=None):
        self.servers = [Server(prop, tier, h, prefix) for h in hashseeds]

    def test(self, choices, index, full=False):
        rs = [s.ask(choices, index, full) for s in self.servers]
        r = rs[0]
        for o in rs:
            if o['kind'] is not None:
                return o
        if len(rs) > 1 and len({o['cross'] for o in rs}) > 1:
            r = dict(r)
            r['kind'] = 'processes-disagree'
            r['sig'] = r['kind']
            r['message'] = 'processes with different hash seeds and memory layouts computed different outcomes'
            if full:
                lines = []
                for i, xs in enumerate(zip(*[o.get('crosslog') or [] for o in rs])):
                    if len(set(xs)) > 1:
                        for s, x in zip(self.servers, xs):
                            lines.append('operation %d, process with hash seed %s: %s' % (i, s.hashseed, x))
                r['message'] += '\n  ' + '\n  '.join(lines[:12])
            return r
        return r

    def restart(self):
        for s in self.servers:
            s.close()

    close = restart


def shrink(tester, choices, index, kind, seconds):
    end = time.monotonic() + seconds
    best = list(choices)
    tried = 0

    def attempt(c):
        nonlocal best, tried
        while c and c[-1] == 0:
            c = c[:-1]
        if c == best or time.monotonic() > end:
            return False
        tried += 1
        r = tester.test(c, index)
        if r['kind'] == kind:
            best = c
            return True
        return False

    attempt(list(best))
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        size = max(len(best) // 2, 1)
        while size >= 1 and time.monotonic() < end:
            i = 0
            while i < len(best) and time.monotonic() < end:
                if attempt(best[:i] + best[i + size:]):
                    progress = True
                    continue
                if any(best[i:i + size]) and attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    progress = True
                i += size
            size //= 2
        for i in range(len(best)):
            while i < len(best) and best[i] > 0 and time.monotonic() < end:
                if attempt(best[:i] + [best[i] // 2] + best[i + 1:]) or attempt(best[:i] + [best[i] - 1] + best[i + 1:]):
                    progress = True
                else:
                    break
    return best, tried


def write_replay(prop, tier, seed, block, hashseeds, v, shrink_s):
    """Confirms the violation in a fresh process, minimises it, writes the file. Returns its path."""
    prefix = None
    t = Tester(prop, tier, hashseeds)
    choices = v['choices']
    r = t.test(choices, v['index'])
    if r['kind'] != v['kind']:
        # It depends on what the runs before it left behind in the process
        t.close()
        prefix = {'start': block['start'], 'index': v['index'], 'seed': seed}
        t = Tester(prop, tier, hashseeds, prefix)
        r = t.test(choices, v['index'])
    note = ''
    tried = 0
    if r['kind'] == v['kind'] == 'hang':
        pass        # every attempt to make it smaller would take that long
    elif r['kind'] == v['kind'] and prefix is None:
        small, tried = shrink(t, choices, v['index'], v['kind'], shrink_s)
        t.restart()
        r2 = t.test(small, v['index'])
        if r2['kind'] == v['kind']:
            choices = small
        t.restart()
    elif r['kind'] != v['kind']:
        note = 'not reproduced by replaying the block'
    t.restart()
    full = t.test(choices, v['index'], full=True)
    if full['kind'] != v['kind']:
        full = v
    t.close()
    while choices and choices[-1] == 0:
        choices = choices[:-1]
    d = {'property': prop, 'kind': v['kind'], 'message': full.get('message') or v['message'], 'tier': tier, 'seed': seed, 'run': v['index'],
         'hash_seeds': hashseeds, 'prefix': prefix, 'choices': choices, 'choices_before_shrinking': len(v['choices']),
         'shrink_attempts': tried, 'note': note, 'digest': full['digest'], 'history': full.get('log') or v.get('log')}
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', '%s-%s-%d.json' % (prop, v['kind'], v['index']))
    with open(path, 'w') as f:
        json.dump(d, f, indent=1)
    return path, d


def replay(a):
    d = json.load(open(a.replay))
    t = Tester(d['property'], d['tier'], d['hash_seeds'], d['prefix'])
    r = t.test(d['choices'], d['run'], full=True)
    t.close()
    for l in r.get('log') or []:
        print('  ' + l)
    if r['kind'] is None:
        print('NOT REPRODUCED: the property holds in this run')
        return 0
    print('%s: %s' % (r['kind'], r['message']))
    print('same history as recorded: %s' % (r['digest'] == d['digest']))
    print('VIOLATION property=%s replay=%s' % (d['property'], a.replay))
    return 1


def block_list(mod, prop, tier, seed, runs, start):
    from sim.chooser import derive
    size = mod.BLOCK
    procs = getattr(mod, 'PROCESSES', 1)
    blocks = []
    b = 0
    i = 0
    while i < runs:
        n = min(size, runs - i)
        hs = [derive(seed, prop, 'hash', (start + i) // size, k) % (2 ** 32 - 1) for k in range(procs)]
        blocks.append({'n': b, 'start': start + i, 'count': n, 'hash': hs})
        b += 1
        i += n
    return blocks


def main(a):
    seed = int(os.environ.get('VERIF_SEED') or 1)
    sys.path.insert(0, HERE)
    from sim import node
    node.install()
    mod = load_prop(a.prop)
    runs = a.runs or mod.RUNS[a.tier]
    wall_cap = a.wall or {'quick': 240, 'thorough': 780}[a.tier]
    workers = a.workers or min(8, os.cpu_count() or 1)
    print('property %s tier %s seed %d: %d simulated runs in blocks of %d, %d workers, code from %s'
          % (a.prop, a.tier, seed, runs, mod.BLOCK, workers, node.REPO))
    t0 = time.monotonic()
    blocks = block_list(mod, a.prop, a.tier, seed, runs, a.start)
    tmp = tempfile.mkdtemp(prefix='verif-')
    jobs = [(b, k) for b in blocks for k in range(len(b['hash']))]
    running = {}
    results = {}
    errors = []
    bad_block = None
    nextjob = 0
    cut = False
    try:
        while nextjob < len(jobs) or running:
            while nextjob < len(jobs) and len(running) < workers:
                b, k = jobs[nextjob]
                if errors or (bad_block is not None and b['n'] > bad_block):
                    nextjob = len(jobs)
                    break
                if time.monotonic() - t0 > wall_cap and k == 0:
                    cut = True
                    nextjob = len(jobs)
                    break
                nextjob += 1
                out = os.path.join(tmp, '%d-%d' % (b['n'], k))
                p = subprocess.Popen(
                    [sys.executable, os.path.join(HERE, 'check.py'), a.prop, '--worker', '--tier', a.tier, '--start', str(b['start']),
                     '--count', str(b['count']), '--seed', str(seed), '--out', out] + (['--want-digests'] if a.digests or len(b['hash']) > 1 else []),
                    env=child_env(b['hash'][k]), stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'), cwd=HERE)
                running[p] = (b, k, out, time.monotonic())
            done = [p for p in running if p.poll() is not None]
            if not done:
                time.sleep(0.02)
                for p, (b, k, out, st) in list(running.items()):
                    if time.monotonic() - st > 700:
                        p.kill()
                        errors.append('block %d did not end' % b['n'])
                continue
            for p in done:
                b, k, out, st = running.pop(p)
                if p.returncode != 0 or not os.path.exists(out):
                    errors.append('block %d (runs %d..%d, hash seed %d) ended with %s:\n%s' % (
                        b['n'], b['start'], b['start'] + b['count'] - 1, b['hash'][k], p.returncode, open(out + '.err').read()[-3000:]))
                    continue
                r = json.load(open(out))
                results[b['n'], k] = r
                bad = r['violation'] is not None
                if not bad and len(b['hash']) > 1 and all((b['n'], j) in results for j in range(len(b['hash']))):
                    ds = [results[b['n'], j]['digests'] for j in range(len(b['hash']))]
                    if any(d != ds[0] for d in ds):
                        bad = True
                if bad and (bad_block is None or b['n'] < bad_block):
                    bad_block = b['n']
    finally:
        for p in running:
            p.kill()
        subprocess.call(['rm', '-rf', tmp])

    secs = time.monotonic() - t0
    tot = collections.Counter()
    faults, probes, kinds = collections.Counter(), collections.Counter(), collections.Counter()
    distinct, ilv, samples, knowns = set(), set(), [], []
    hashes = set()
    for (n, k), r in sorted(results.items()):
        hashes.add(blocks[n]['hash'][k])
        tot.update(r['tot'])
        faults.update(r['faults'])
        probes.update(r['probes'])
        kinds.update(r['kinds'])
        distinct.update(r['distinct'])
        ilv.update(r['ilv'])
        knowns.extend(r['known'])
        if k == 0 and len(samples) < 2:
            samples.extend(r['samples'])
    if a.digests:
        with open(a.digests, 'w') as f:
            for (n, k), r in sorted(results.items()):
                for j, d in enumerate(r['digests']):
                    f.write('%d %d %s\n' % (blocks[n]['start'] + j, k, d))

    rc = 0
    if bad_block is not None:
        b = blocks[bad_block]
        v = None
        hs = b['hash']
        rs = [(k, results.get((b['n'], k))) for k in range(len(hs))]
        vs = [(r['violation']['index'], k, r['violation']) for k, r in rs if r and r['violation']]
        if len(hs) > 1:
            ds = [r['digests'] for k, r in rs if r]
            for j in range(min(len(d) for d in ds)):
                if len({d[j] for d in ds}) > 1:
                    idx = b['start'] + j
                    if not vs or idx < min(vs)[0]:
                        from sim.chooser import derive
                        # find the choices again
                        eng = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), a.prop, '--choices', str(idx), '--seed', str(seed), '--tier', a.tier],
                                             env=child_env(hs[0]), capture_output=True, text=True, cwd=HERE)
                        v = json.loads(eng.stdout)
                        v.update(kind='processes-disagree', message='', index=idx)
                        pair = [h for (k, r), h in zip(rs, hs) if r]
                        base = ds[0][j]
                        other = [h for (k, r), h in zip(rs, hs) if r and r['digests'][j] != base][0]
                        hs = [pair[0], other]
                    break
        if v is None:
            idx, k, v = min(vs, key=lambda x: x[:2])
            hs = [hs[k]]
        path, d = write_replay(a.prop, a.tier, seed, b, hs, v, a.shrink)
        print('%s: %s' % (d['kind'], d['message']))
        print('run %d, hash seeds %s, %d draws shrunk to %d' % (v['index'], hs, d['choices_before_shrinking'], len(d['choices'])))
        for l in (d['history'] or [])[:60]:
            print('  ' + l[:600])
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        rc = 1
    elif errors:
        for e in errors[:3]:
            print('ERROR ' + e)
        rc = 2
    known = load_known(a.prop)
    for sig in sorted({s for s, _ in knowns}):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, known[sig]))

    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.monotonic() - t0, 2),
        'violations': 1 if rc == 1 else 0,
        'coverage': {
            'evaluations': tot['runs'],
            'distinct_nontrivial': len(distinct),
            'rule': mod.RULE,
            'samples': samples,
            'operations': tot['ops'],
            'seeds': tot['runs'], 'hash_seeds': len(hashes), 'simulated_processes': tot['nodes'],
            'runs_per_hour': int(tot['runs'] / secs * 3600) if secs else 0,
            'simulated_instructions': tot['steps'],
            'simulated_seconds': round(tot['sim_us'] / 1e6, 3),
            'faults_fired': dict(faults),
            'workload': dict(kinds),
            'probes': dict(probes),
            'distinct_interleavings': len(ilv),
            'interleaving_measure': 'distinct sequences of (thread, function, instruction, next thread) at switches',
            'cut_by_wall_clock': cut,
            'real_components': 'all modules of typedload from the working tree, uninstrumented; typing, dataclasses, attrs, enum, json of the installed Python',
            'stub_components': mod.STUBS,
        },
        'assumptions': mod.ASSUMPTIONS,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%d runs (%d distinct and non-trivial), %d operations, %d instructions, faults %s, %.1f s%s'
          % (tot['runs'], len(distinct), tot['ops'], tot['steps'], dict(faults), secs, ', CUT' if cut else ''))
    return rc


def choices_of(a):
    from sim.chooser import derive
    eng = Engine(a.prop, a.tier)
    s = derive(a.seed, a.prop, a.choices)
    env, v = eng.run(a.choices, s)
    print(json.dumps({'choices': env.ch.log, 'digest': env.digest(), 'log': env.log, 'seed': s}))
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--wall', type=int)
    ap.add_argument('--shrink', type=int, default=25)
    ap.add_argument('--digests')
    ap.add_argument('--worker', action='store_true')
    ap.add_argument('--server', action='store_true')
    ap.add_argument('--prefix')
    ap.add_argument('--choices', type=int)
    ap.add_argument('--count', type=int)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--out')
    ap.add_argument('--want-digests', action='store_true')
    a = ap.parse_args()
    no_aslr()
    if a.worker:
        worker(a)
    elif a.server:
        server(a)
    elif a.choices is not None:
        choices_of(a)
    elif a.replay:
        sys.exit(replay(a))
    else:
        sys.exit(main(a))
