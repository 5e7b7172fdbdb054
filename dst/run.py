"""Check of one property: many simulated runs on all cores, then, for a
violation, a minimised replay file.

  check.sh C01 [--tier quick|thorough] [--seed N] [--runs N]
  check.sh C01 --replay FILE
"""
import argparse
import copy
import ctypes
import json
import os
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = os.environ.get('DST_PYTHON', '/opt/venv/bin/python')
OUT = os.path.join(HERE, 'out')

# simulated runs per tier; quick takes about a minute on 8 cores
RUNS = {
    'C01': (3600, 40000), 'C02': (2400, 30000), 'C03': (2500, 40000),
    'C04': (2500, 40000), 'C05': (2500, 40000), 'C06': (2500, 50000),
    'C07': (2000, 40000), 'C08': (3000, 60000), 'C09': (1000, 12000),
    'C10': (4000, 80000), 'C11': (5000, 100000), 'C12': (2000, 40000),
    'C13': (1200, 15000), 'C14': (2500, 40000), 'C15': (2500, 40000),
}
WALL = {'quick': 420.0, 'thorough': 3 * 3600.0}
REPLY = 420.0       # seconds without an answer after which a worker is stuck


def no_aslr():
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


class Worker(object):
    def __init__(self, index, hashseed, solo_dir, scratch=None):
        self.index = index
        self.hashseed = hashseed
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = str(hashseed)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env.pop('DST_SOLO_DIR', None)
        env.pop('DST_SCRATCH', None)
        if scratch:
            env['DST_SCRATCH'] = scratch
        if solo_dir:
            env['DST_SOLO_DIR'] = solo_dir
        self.proc = subprocess.Popen(
            [PYTHON, '-W', 'ignore', '-m', 'dst.worker'], cwd=HERE, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE if False else None,
            preexec_fn=no_aslr, start_new_session=True)
        self.buffer = b''
        self.cmd = None
        self.since = time.monotonic()
        self.ready = False

    def send(self, cmd):
        self.cmd = cmd
        self.since = time.monotonic()
        self.proc.stdin.write(json.dumps(cmd).encode() + b'\n')
        self.proc.stdin.flush()

    def read(self):
        """complete replies available, None at end of stream"""
        data = os.read(self.proc.stdout.fileno(), 1 << 20)
        if not data:
            return None
        self.buffer += data
        out = []
        while b'\n' in self.buffer:
            line, self.buffer = self.buffer.split(b'\n', 1)
            out.append(json.loads(line.decode('utf8', 'surrogatepass')))
        return out

    def wait(self, timeout=REPLY):
        """one reply, synchronously"""
        deadline = time.monotonic() + timeout
        sel = selectors.DefaultSelector()
        sel.register(self.proc.stdout, selectors.EVENT_READ)
        while time.monotonic() < deadline:
            if sel.select(1.0):
                out = self.read()
                if out is None:
                    return {'died': 'worker'}
                if out:
                    return out[0]
        return {'hung': True}

    def call(self, cmd, timeout=REPLY):
        if not self.ready:
            r = self.wait()
            if not r.get('ready'):
                raise Fatal(r)
            self.ready = True
        try:
            self.send(cmd)
        except OSError:
            return {'died': 'worker'}
        return self.wait(timeout)

    def kill(self):
        try:
            os.killpg(self.proc.pid, 9)
        except OSError:
            pass
        self.proc.wait()
        self.proc.stdout.close()
        try:
            self.proc.stdin.close()
        except OSError:
            pass


class Fatal(Exception):
    pass


def bad_kind(result):
    if result.get('bad'):
        return result['bad'][0]['kind']
    if result.get('hung'):
        return 'hung'
    if 'died' in result:
        return 'died'
    return None


class Check(object):
    def __init__(self, args):
        self.args = args
        self.prop = args.prop
        self.tier = args.tier
        self.seed = args.seed
        self.solo_dir = tempfile.mkdtemp(prefix='dst-solo-')
        self.scratch = tempfile.mkdtemp(prefix='dst-scratch-')
        self.nworkers = args.workers or min(8, os.cpu_count() or 1)
        self.workers = []
        self.start = time.monotonic()
        self.totals = {'evaluations': 0, 'steps': 0, 'ops': 0, 'clock': 0.0,
                       'fired': 0, 'unfired': 0, 'preemptions': 0, 'skipped': 0,
                       'multi': 0, 'switches': 0}
        self.stats = {}
        self.hashes = set()
        self.schedules = set()
        self.samples = []
        self.policies = {}
        self.harness = []
        self.unreproduced = []

    # ---- workers

    def hashseed(self, index):
        if self.prop == 'C09':
            return (self.seed * 8 + index) % 4294967296 if index else 0
        return 0

    def spawn(self, index):
        return Worker(index, self.hashseed(index),
                      None if self.prop == 'C09' else self.solo_dir,
                      self.scratch)

    def fresh(self):
        """a worker nothing has happened in yet"""
        return Worker(-1, 0, None, self.scratch)

    def close(self):
        for w in self.workers:
            w.kill()
        shutil.rmtree(self.solo_dir, ignore_errors=True)
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ---- exploration

    def explore(self, total):
        """run plans 0..total-1; returns first candidates of violations"""
        found = []
        retry = []
        tried = {}
        state = {'next': 0}
        wall = self.args.wall or WALL[self.tier]
        count = 8 if self.prop == 'C09' else self.nworkers
        self.workers = [self.spawn(i) for i in range(count)]
        sel = selectors.DefaultSelector()
        for w in self.workers:
            sel.register(w.proc.stdout, selectors.EVENT_READ, w)

        def command(w):
            if found and (len(found) >= 3 or self.prop != 'C09'):
                return None
            if self.prop == 'C09':
                return self.c09_command(w, total, wall)
            if retry:
                i = retry.pop()
            elif state['next'] < total and time.monotonic() - self.start < wall:
                i = state['next']
                state['next'] += 1
            else:
                return None
            return {'cmd': 'gen', 'prop': self.prop, 'seed': self.seed, 'i': i,
                    'want_plan': len(self.samples) < 2 and i % 7 == 3}

        def feed(w):
            cmd = command(w)
            w.cmd = None
            if cmd is not None:
                w.send(cmd)

        def replace(w, why):
            sel.unregister(w.proc.stdout)
            cmd = w.cmd
            w.kill()
            new = self.spawn(w.index)
            self.workers[self.workers.index(w)] = new
            sel.register(new.proc.stdout, selectors.EVENT_READ, new)
            if cmd and 'i' in cmd:
                i = cmd['i']
                tried[i] = tried.get(i, 0) + 1
                if tried[i] < 2:
                    retry.append(i)
                else:
                    found.append({'i': i, 'bad': [{'kind': why, 'where': 'run', 'detail':
                                                   'the simulation did not finish'}]})

        while True:
            for key, _ in sel.select(1.0):
                w = key.data
                try:
                    replies = w.read()
                except OSError:
                    replies = None
                if replies is None:
                    if not w.ready:
                        raise Fatal('worker does not start')
                    replace(w, 'died')
                    continue
                for r in replies:
                    if r.get('fatal'):
                        raise Fatal(r['fatal'])
                    if r.get('ready'):
                        w.ready = True
                        feed(w)
                        continue
                    if self.prop == 'C09':
                        self.c09_reply(w, r, found)
                    else:
                        self.account(r)
                        if 'harness' in r:
                            self.harness.append(r['harness'])
                            if len(self.harness) > 20:
                                raise Fatal(r['harness'])
                        elif r.get('hung') or 'died' in r:
                            i = r['i']
                            tried[i] = tried.get(i, 0) + 1
                            if tried[i] < 2:
                                retry.append(i)
                            else:
                                r['bad'] = [{'kind': bad_kind(r), 'where': 'run',
                                             'detail': 'the simulation did not finish'}]
                                found.append(r)
                        elif r.get('bad'):
                            found.append(r)
                    feed(w)
            now = time.monotonic()
            for w in list(self.workers):
                if w.ready and w.cmd is not None and now - w.since > REPLY:
                    replace(w, 'hung')
                elif w.ready and w.cmd is None:
                    feed(w)
            if all(w.cmd is None and w.ready for w in self.workers) and not retry:
                if found or self.done(state, total, wall):
                    break
        found.sort(key=lambda r: r['i'])
        return found

    def done(self, state, total, wall):
        if self.prop == 'C09':
            return self.c09_done(total, wall)
        return state['next'] >= total or time.monotonic() - self.start >= wall

    def account(self, r):
        if r.get('skipped'):
            self.totals['skipped'] += 1
            return
        t = self.totals
        t['evaluations'] += 1
        t['steps'] += r.get('steps', 0)
        t['ops'] += r.get('ops', 0)
        t['clock'] += r.get('clock', 0.0)
        t['fired'] += r.get('fired', 0)
        t['unfired'] += r.get('unfired', 0)
        t['preemptions'] += r.get('pre', 0)
        t['multi'] += bool(r.get('pre'))
        for k, v in r.get('stats', {}).items():
            self.stats[k] = self.stats.get(k, 0) + v
        if r.get('policy'):
            self.policies[r['policy']] = self.policies.get(r['policy'], 0) + 1
        if 'hash' in r and (r.get('pre') or r.get('fired') or r.get('ops', 0) > 1
                            or any(r.get('stats', {}).values())):
            self.hashes.add((r['hash'], r.get('ident')))
        if r.get('pre'):
            self.schedules.add((r['sw'], r.get('ident')))
        if r.get('plan') and len(self.samples) < 2 and not r.get('bad'):
            self.samples.append({'i': r['i'], 'plan': r['plan'], 'steps': r.get('steps'),
                                 'preemptions': r.get('pre'), 'faults_fired': r.get('fired')})

    # ---- C09: the same plan in several processes

    def c09_init(self):
        self.c9 = {'next': 0, 'queue': [[] for _ in range(8)], 'open': {}}

    def c09_command(self, w, total, wall):
        c = self.c9
        if c['queue'][w.index]:
            i, v, plan = c['queue'][w.index].pop(0)
            return {'cmd': 'plan', 'plan': variant(plan, v), 'i': i, 'v': v}
        if c['next'] < total and time.monotonic() - self.start < wall:
            i = c['next']
            c['next'] += 1
            c['open'][i] = {'results': {}}
            return {'cmd': 'genplan', 'prop': 'C09', 'seed': self.seed, 'i': i}
        return None

    def c09_done(self, total, wall):
        c = self.c9
        return not any(c['queue']) and (
            c['next'] >= total or time.monotonic() - self.start >= wall)

    def c09_reply(self, w, r, found):
        c = self.c9
        cmd = w.cmd
        i = cmd['i']
        if 'harness' in r:
            self.harness.append(r['harness'])
            if len(self.harness) > 20:
                raise Fatal(r['harness'])
            c['open'].pop(i, None)
            return
        if cmd['cmd'] == 'genplan':
            plan = r['plan']
            if len(self.samples) < 2:
                self.samples.append({'i': i, 'plan': plan})
            c['open'][i]['plan'] = plan
            for v, conf in enumerate(plan['variants']):
                c['queue'][conf['hashseed']].append((i, v, plan))
            return
        entry = c['open'].get(i)
        if entry is None:
            return
        r['hash'] = hash(tuple(r.get('digests') or ())) ^ cmd['v']
        self.account(r)
        entry['results'][cmd['v']] = r
        if len(entry['results']) == len(entry['plan']['variants']):
            del c['open'][i]
            problem = c09_compare(entry['results'])
            if problem:
                found.append({'i': i, 'plan': entry['plan'], 'bad': [problem]})

    # ---- confirming and minimising

    def c09_run(self, plan, workers):
        results = {}
        for v in range(len(plan['variants'])):
            hs = plan['variants'][v]['hashseed']
            if hs not in workers:
                workers[hs] = self.spawn(hs)
            results[v] = workers[hs].call({'cmd': 'plan', 'plan': variant(plan, v), 'i': 0})
            if results[v].get('harness'):
                return {'harness': results[v]['harness']}
        problem = c09_compare(results)
        if problem and 'index' in problem:
            k = problem['index']
            full = []
            for v in problem['variants']:
                p = variant(plan, v)
                p['full'] = [k]
                r = workers[plan['variants'][v]['hashseed']].call(
                    {'cmd': 'plan', 'plan': p, 'i': 0})
                full.append((r.get('full') or [None] * (k + 1))[k])
            a, b = [str(x) for x in full]
            problem['detail'] += ': ' + first_difference(a, b)
        return {'bad': [problem] if problem else [], 'hash': 0, 'sw': 0}

    def runner(self):
        """function plan -> result, in one worker used for nothing else"""
        if self.prop == 'C09':
            pool = {}

            def run(plan):
                return self.c09_run(plan, pool)

            def end():
                for w in pool.values():
                    w.kill()
            return run, end
        box = [self.fresh()]

        def run(plan):
            r = box[0].call({'cmd': 'plan', 'plan': plan}, 130 if plan.get('kind') != 'grow' else 400)
            if r.get('hung') or r.get('died') == 'worker':
                box[0].kill()
                box[0] = self.fresh()
            return r

        def end():
            box[0].kill()
        return run, end

    def confirm(self, candidate):
        """reproduce in a fresh process, from the plan alone"""
        plan = candidate.get('plan')
        kind = bad_kind(candidate)
        run, end = self.runner()
        try:
            if plan is None:
                w = self.fresh()
                r = w.call({'cmd': 'genplan', 'prop': self.prop, 'seed': self.seed,
                            'i': candidate['i']})
                w.kill()
                plan = r.get('plan')
                if plan is None:
                    return None
            r = run(plan)
            if bad_kind(r) is None:
                return None
            return plan, r
        finally:
            end()

    def minimise(self, plan, result, budget):
        kind = bad_kind(result)
        deadline = time.monotonic() + budget
        run, end = self.runner()
        best = [plan, result]

        def attempt(p):
            if time.monotonic() > deadline:
                return False
            r = run(p)
            if bad_kind(r) == kind:
                best[0], best[1] = p, r
                return True
            return False

        try:
            if kind in ('hung', 'died'):
                return best
            reduce_ops(best, attempt, deadline)
            p, r = best
            if r.get('switches') and p.get('sched', {}).get('policy') != 'explicit':
                e = copy.deepcopy(p)
                e['sched'] = {'policy': 'explicit', 'switches': r['switches'],
                              'was': p['sched']}
                if attempt(e):
                    reduce_switches(best, attempt, deadline)
                    reduce_ops(best, attempt, deadline)
            return best
        finally:
            end()

    def report(self, plan, result, candidate):
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, '%s-%d-%d.json' % (self.prop, self.seed, candidate['i']))
        small, res = self.minimise(plan, result, self.args.minimise)
        # the file alone, in a fresh process, must show it again
        run, end = self.runner()
        try:
            again = run(small)
        finally:
            end()
        if bad_kind(again) is None:
            small, res = plan, result
        data = {'property': self.prop, 'seed': self.seed, 'i': candidate['i'],
                'violation': (res.get('bad') or candidate['bad'])[0],
                'execution': {'hash': res.get('hash'), 'schedule': res.get('sw')},
                'hashseeds': [self.hashseed(i) for i in range(8)],
                'plan': small}
        with open(path, 'w', encoding='utf8', errors='surrogatepass') as f:
            json.dump(data, f, ensure_ascii=False, indent=1)
        v = data['violation']
        print('violation of %s, seed %d run %d: %s at %s' % (
            self.prop, self.seed, candidate['i'], v['kind'], v['where']))
        print('  ' + v['detail'][:1500])
        print('  minimised to %s' % describe(small))
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)

    def replay(self, path):
        with open(path, encoding='utf8', errors='surrogatepass') as f:
            data = json.load(f)
        if self.prop == 'C09':
            self.seed = data['seed']
        run, end = self.runner()
        try:
            r = run(data['plan'])
        finally:
            end()
        kind = bad_kind(r)
        if 'harness' in r:
            print(r['harness'])
            return 2
        if kind is None:
            print('replay of %s: no violation' % path)
            return 0
        v = (r.get('bad') or [{'where': 'run', 'detail': kind}])[0]
        print('replay: %s at %s\n  %s' % (kind, v['where'], v['detail'][:1500]))
        same = r.get('hash') == data['execution']['hash']
        print('execution %s' % ('identical to the recorded one' if same else
                                'differs from the recorded one'))
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1

    # ---- the whole check

    def main(self):
        total = self.args.runs or RUNS[self.prop][self.tier == 'thorough']
        if self.prop == 'C09':
            self.c09_init()
        violations = 0
        offset = 0
        try:
            found = self.explore(total)
        finally:
            for w in self.workers:
                w.kill()
            self.workers = []
        for candidate in found:
            try:
                confirmed = self.confirm(candidate)
            except Fatal:
                confirmed = None
            if confirmed is None:
                self.unreproduced.append({'i': candidate['i'], 'bad': candidate['bad'][0]})
                continue
            self.report(confirmed[0], confirmed[1], candidate)
            violations += 1
            break
        self.evidence(total, violations)
        if violations:
            return 1
        for u in self.unreproduced:
            print('not reproduced, run %s: %s' % (u['i'], json.dumps(
                u['bad'], ensure_ascii=False)[:800]))
        if self.harness:
            print('harness: %d runs could not be judged\n%s' % (
                len(self.harness), self.harness[0]))
            return 2
        if self.unreproduced:
            return 2
        return 0

    def evidence(self, total, violations):
        wall = time.monotonic() - self.start
        t = self.totals
        n = t['evaluations']
        faults = {k: v for k, v in sorted(self.stats.items())
                  if not k.startswith('hook:')}
        coverage = {
            'evaluations': n,
            'distinct_nontrivial': len(self.hashes),
            'rule': RULE[self.prop] if self.prop in RULE else RULE['*'],
            'samples': [clip_sample(s) for s in self.samples[:2]] or ['none'],
            'runs_per_hour': int(n / max(wall, 0.001) * 3600),
            'seeds_per_hour': int(n / max(wall, 0.001) * 3600),
            'operations': t['ops'],
            'simulated_steps': t['steps'],
            'simulated_seconds': round(t['clock'], 3),
            'preemptions': t['preemptions'],
            'runs_with_preemption': t['multi'],
            'distinct_interleavings': len(self.schedules),
            'interleaving_measure': 'hash over all (point, from, to) task switches '
                                    'of a run together with its operations',
            'outside_faults_fired': t['fired'],
            'faults_planned_but_not_reached': t['unfired'],
            'faults_injected': faults,
            'callback_invocations': {k[5:]: v for k, v in sorted(self.stats.items())
                                     if k.startswith('hook:')},
            'runs_by_policy': dict(sorted(self.policies.items())),
            'plans_skipped': t['skipped'],
            'real_components': REAL, 'stub_components': STUB,
        }
        data = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': 'exploration', 'coverage': coverage,
            'wall_s': round(wall, 2), 'violations': violations,
            'assumptions': ASSUMPTIONS,
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        path = os.path.join(HERE, 'evidence', self.prop + '.json')
        with open(path, 'w', encoding='utf8', errors='surrogatepass') as f:
            json.dump(data, f, ensure_ascii=False, indent=1)
        print('%s %s seed %d: %d runs, %d distinct, %d interleavings, %d steps, '
              '%d faults, %.0f s simulated, %.1f s' % (
                  self.prop, self.tier, self.seed, n, len(self.hashes),
                  len(self.schedules), t['steps'], t['fired'], t['clock'], wall))


REAL = ['yargy: every module, imported unmodified from /repo',
        'pymorphy2 0.9.1 with its Russian dictionary (one loaded copy behind every handle)',
        're, functools, collections, weakref, gc of CPython 3.12', 'real OS threads, one at a time']
STUB = ['thread scheduler (seeded, at every line or instruction of yargy and at every stub call)',
        'threading/_thread locks', 'clock and sleep', 'subprocess.Popen (drawing program)',
        'constructor of pymorphy2.MorphAnalyzer (handle with failure points)',
        'id() seen by yargy, in runs with an allocation policy',
        'user tokenizers, taggers, predicates, normalizers, relations (deterministic, with fault points)']
ASSUMPTIONS = [
    'preemption is possible at lines or bytecode instructions of yargy and at stub calls; '
    'C code of the interpreter (dict, list, lru_cache, re) is atomic, as under the GIL',
    'outside exceptions are delivered at line boundaries of yargy other than exception '
    'handlers, finally bodies and with/try headers',
    'the expected outcome of an operation is that of the same operation alone in a pristine '
    'process with the same tree (or of the reference model where the property has one)',
]
RULE = {
    '*': 'a run is a seeded plan (operations, tasks, schedule policy, faults) executed under '
         'the simulator; it is non-trivial if it made at least two operations, a preemption or '
         'a fired fault; distinct means different hash over every executed point, task and fault',
    'C09': 'a run is one process (hash seed, allocation policy, collection policy) executing a '
           'seeded history; distinct means different sequence of outcomes per process variant; '
           'the outcomes of all variants of a history must be equal',
}


def clip_sample(s):
    text = json.dumps(s, ensure_ascii=False)
    return s if len(text) < 6000 else text[:6000]


def variant(plan, v):
    p = copy.deepcopy(plan)
    conf = p['variants'][v]
    if conf.get('alloc'):
        p['env']['alloc'] = conf['alloc']
        p['env']['alloc_seed'] = conf['alloc_seed']
    if conf.get('cache'):
        p['env']['cache'] = conf['cache']
    if conf.get('gc'):
        p['env']['gc'] = 40
    return p


def c09_compare(results):
    """first disagreement between the processes of one history"""
    base = results[0]
    for v in sorted(results):
        r = results[v]
        if bad_kind(r) and r.get('bad') is None:
            return {'kind': bad_kind(r), 'where': 'variant %d' % v, 'detail': 'did not finish'}
        if r.get('bad'):
            return dict(r['bad'][0])
        if r['digests'] != base['digests']:
            for k, (a, b) in enumerate(zip(base['digests'], r['digests'])):
                if a != b:
                    break
            else:
                k = min(len(base['digests']), len(r['digests'])) - 1
            return {'kind': 'irreproducible', 'where': 'outcome %d' % k, 'index': k,
                    'variants': [0, v],
                    'detail': 'outcome %d differs between process variants 0 and %d' % (k, v)}
    return None


def first_difference(a, b):
    i = 0
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            break
    s = max(0, i - 120)
    return '...%s... / ...%s...' % (a[s:s + 400], b[s:s + 400])


# ------------------------------------------------------------ minimisation

def op_slots(plan):
    out = []
    for name in ('pre', 'post'):
        for i in range(len(plan.get(name, []))):
            out.append((name, None, i))
    for t, ops in enumerate(plan.get('tasks', [])):
        for i in range(len(ops)):
            out.append(('tasks', t, i))
    return out


def without(plan, slots):
    p = copy.deepcopy(plan)
    slots = set(slots)
    for name in ('pre', 'post'):
        p[name] = [o for i, o in enumerate(p.get(name, [])) if (name, None, i) not in slots]
    p['tasks'] = [[o for i, o in enumerate(ops) if ('tasks', t, i) not in slots]
                  for t, ops in enumerate(p.get('tasks', []))]
    return p


def reduce_ops(best, attempt, deadline):
    changed = True
    while changed and time.monotonic() < deadline:
        changed = False
        slots = op_slots(best[0])
        size = max(1, len(slots) // 2)
        while size >= 1 and time.monotonic() < deadline:
            i = 0
            slots = op_slots(best[0])
            while i < len(slots) and time.monotonic() < deadline:
                if attempt(without(best[0], slots[i:i + size])):
                    changed = True
                    slots = op_slots(best[0])
                else:
                    i += size
            size //= 2
        # empty tasks at the end
        while best[0].get('tasks') and not best[0]['tasks'][-1]:
            p = copy.deepcopy(best[0])
            p['tasks'].pop()
            if not attempt(p):
                break
        # faults
        for slot in op_slots(best[0]):
            op = get_op(best[0], slot)
            if op is None:
                continue
            for name in ('fault', 'dot'):
                if name in op and time.monotonic() < deadline:
                    p = copy.deepcopy(best[0])
                    del get_op(p, slot)[name]
                    if attempt(p):
                        changed = True
                        op = get_op(best[0], slot)
        # environment
        for key in ('cache', 'alloc'):
            if best[0].get('env', {}).get(key) is not None:
                p = copy.deepcopy(best[0])
                p['env'].pop(key)
                if attempt(p):
                    changed = True
        if best[0].get('sched', {}).get('policy') not in (None, 'serial', 'explicit'):
            p = copy.deepcopy(best[0])
            p['sched'] = {'policy': 'serial'}
            if attempt(p):
                changed = True
        for a in op_slots(best[0]):
            op = get_op(best[0], a)
            if op and op.get('acts') and len(op['acts']) > 1:
                for j in range(len(op['acts'])):
                    p = copy.deepcopy(best[0])
                    del get_op(p, a)['acts'][j]
                    if attempt(p):
                        changed = True
                        break


def get_op(plan, slot):
    name, t, i = slot
    try:
        return plan[name][i] if t is None else plan[name][t][i]
    except IndexError:
        return None


def reduce_switches(best, attempt, deadline):
    size = max(1, len(best[0]['sched']['switches']) // 2)
    while size >= 1 and time.monotonic() < deadline:
        i = 0
        while i < len(best[0]['sched']['switches']) and time.monotonic() < deadline:
            p = copy.deepcopy(best[0])
            del p['sched']['switches'][i:i + size]
            if not attempt(p):
                i += size
        size //= 2


def describe(plan):
    n = len(op_slots(plan))
    s = plan.get('sched') or {}
    text = '%d operations in %d tasks' % (n, len(plan.get('tasks', [])))
    if s.get('policy') == 'explicit':
        text += ', %d task switches' % len(s['switches'])
    elif plan.get('tasks'):
        text += ', schedule %s' % s.get('policy')
    faults = sum(1 for slot in op_slots(plan) if get_op(plan, slot).get('fault'))
    return text + ', %d faults' % faults


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--minimise', type=float, default=60.0)
    ap.add_argument('--replay')
    args = ap.parse_args()
    check = Check(args)
    try:
        if args.replay:
            return check.replay(args.replay)
        return check.main()
    except Fatal as e:
        print('harness: %s' % e)
        return 2
    finally:
        check.close()


if __name__ == '__main__':
    sys.exit(main())
