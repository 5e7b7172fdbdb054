"""Zygote: loads seams, package and dictionary once, then forks one child per
simulated execution.  Speaks JSON lines on stdin/stdout with the master."""
import gc
from gc import freeze
import json
import os
import resource
import select
import shutil
import signal
import sys
import traceback
from array import array
from collections import OrderedDict

REAL_TIMEOUT = 60.0
SOLO_DIR = os.environ.get('DST_SOLO_DIR')
import time as _time
_clock = _time.monotonic        # kept before patching; only for the watchdog


def setup():
    from . import seams
    if seams.SCRATCH:
        seams.SCRATCH = os.path.join(seams.SCRATCH, str(os.getpid()))
        os.mkdir(seams.SCRATCH)
    seams.install()
    sys.unraisablehook = lambda *_: None
    seams.import_package()
    # warm lazily initialised pieces of the dictionary library
    raw = seams.shared_raw()
    for word in ('мама', 'Иван', 'abc', '12', 'xx-yy', 'стали'):
        for p in raw.parse(word):
            p.inflect({'nomn'})
    gc.collect()
    freeze()


def clean():
    """files the code under test left in its scratch directory"""
    from . import seams
    if seams.SCRATCH:
        for name in os.listdir(seams.SCRATCH):
            path = os.path.join(seams.SCRATCH, name)
            if os.path.isdir(path) and not os.path.islink(path):
                shutil.rmtree(path, ignore_errors=True)
            else:
                os.unlink(path)


def forked(fn, timeout=REAL_TIMEOUT):
    """run fn() in a forked child, return its JSON result"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            try:
                result = fn()
            except BaseException:
                result = {'harness': traceback.format_exc()[-3000:]}
            data = json.dumps(result, ensure_ascii=False).encode('utf8', 'surrogatepass')
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = _clock() + timeout
    hung = False
    while True:
        left = deadline - _clock()
        if left <= 0:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    clean()
    if hung:
        return {'hung': True}
    try:
        return json.loads(b''.join(chunks).decode('utf8', 'surrogatepass'))
    except ValueError:
        return {'died': status}


class Context(object):
    """what plan generators may ask: outcomes and sizes of operations alone"""

    def __init__(self):
        self.cache = OrderedDict()
        self.site_cache = OrderedDict()
        self.solos = 0

    def shared(self, kind, key, make):
        """results alone are the same for every worker: computed once"""
        if not SOLO_DIR:
            return make()
        from .ser import digest
        path = os.path.join(SOLO_DIR, kind + digest(key))
        try:
            with open(path, encoding='utf8', errors='surrogatepass') as f:
                data = json.load(f)
            if data[0] == key:
                return data[1]
        except (OSError, ValueError):
            pass
        result = make()
        temp = '%s.%d' % (path, os.getpid())
        with open(temp, 'w', encoding='utf8', errors='surrogatepass') as f:
            json.dump([key, result], f, ensure_ascii=False)
        os.rename(temp, path)
        return result

    def solo_key(self, key):
        result = self.cache.get(key)
        if result is None:
            from . import world

            def make():
                self.solos += 1
                result = forked(lambda: world.run_solo(key))
                if 'harness' in result:
                    raise RuntimeError('solo %s: %s' % (key, result['harness']))
                if 'hung' in result or 'died' in result:
                    result = {'big': True}
                return result
            result = self.shared('s', key, make)
            self.cache[key] = result
            if len(self.cache) > 4000:
                self.cache.popitem(last=False)
        else:
            self.cache.move_to_end(key)
        return result

    def sites(self, op, gran='line'):
        """(site table, steps at each site, sites next to writes) of the
        operation alone"""
        from . import world
        key = world.op_key(op)
        ck = (key, gran)
        result = self.site_cache.get(ck)
        if result is None:
            def make():
                self.solos += 1
                result = forked(lambda: world.run_solo(key, gran=gran, sites=True))
                if 'table' not in result:
                    result = {'table': [], 'trace': [], 'hot': [[], []]}
                return result
            result = self.shared('t', key + gran, make)
            first = {}
            for step, index in enumerate(result['trace'], 1):
                first.setdefault(index, []).append(step)
            result = ([tuple(_) for _ in result['table']],
                      [array('I', first.get(i, [])) for i in range(len(result['table']))],
                      result['hot'])
            self.site_cache[ck] = result
            if len(self.site_cache) > 1200:
                self.site_cache.popitem(last=False)
        else:
            self.site_cache.move_to_end(ck)
        return result

    def solo(self, op):
        from . import world
        return self.solo_key(world.op_key(op))


def plan_ops(plan):
    def walk(ops):
        for op in ops:
            yield op
            fault = op.get('fault')
            if fault:
                for f in fault.get('list', [fault]):
                    yield from walk(f.get('ops', []))
    yield from walk(plan.get('pre', []))
    for ops in plan.get('tasks', []):
        yield from walk(ops)
    yield from walk(plan.get('post', []))


def expectations(ctx, plan):
    from . import world
    expect = {}
    for op in plan_ops(plan):
        key = world.op_key(op)
        if key is None or key in expect:
            continue
        result = ctx.solo_key(key)
        if result.get('big'):
            continue
        expect[key] = result['outcome']
    return expect


def run_plan(ctx, plan):
    from . import props
    return props.run(ctx, plan, forked)


def handle(ctx, cmd):
    from . import props
    if cmd['cmd'] == 'gen':
        plan = props.generate(ctx, cmd['prop'], cmd['seed'], cmd['i'], cmd.get('opts') or {})
        if plan is None:
            return {'skipped': True, 'i': cmd['i']}
        result = run_plan(ctx, plan)
        result['i'] = cmd['i']
        result['policy'] = (plan.get('sched') or {}).get('policy') if plan.get('tasks') else 'none'
        from .ser import digest
        result['ident'] = digest([plan.get('pre'), plan.get('tasks'), plan.get('post')])
        if result.get('bad') or cmd.get('want_plan') or 'harness' in result \
                or result.get('hung') or 'died' in result:
            result['plan'] = plan
        else:
            result.pop('switches', None)
        return result
    if cmd['cmd'] == 'genplan':
        plan = props.generate(ctx, cmd['prop'], cmd['seed'], cmd['i'], {})
        return {'plan': plan, 'i': cmd['i']}
    if cmd['cmd'] == 'plan':
        return run_plan(ctx, cmd['plan'])
    raise ValueError(cmd)


def main():
    out = os.fdopen(os.dup(1), 'w', encoding='utf8', errors='surrogatepass')
    os.dup2(2, 1)
    try:
        setup()
    except BaseException:
        out.write(json.dumps({'fatal': traceback.format_exc()[-3000:]}) + '\n')
        out.flush()
        return 2
    ctx = Context()
    out.write(json.dumps({'ready': True}) + '\n')
    out.flush()
    inp = os.fdopen(0, 'r', encoding='utf8', errors='surrogatepass')
    for line in inp:
        cmd = json.loads(line)
        if cmd['cmd'] == 'quit':
            break
        try:
            result = handle(ctx, cmd)
        except BaseException:
            result = {'harness': traceback.format_exc()[-3000:], 'i': cmd.get('i')}
        result['solos'] = ctx.solos
        out.write(json.dumps(result, ensure_ascii=False) + '\n')
        out.flush()
    return 0


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.exit(main())
