"""Deterministic simulator core.

One process, real Python threads, exactly one of them running at any time.
Preemption points are sys.monitoring events (LINE or INSTRUCTION) inside the
package under test plus explicit points in harness stubs.  Which thread runs
next, where outside exceptions are injected, what time it is, what `id`
returns: all decided here, from one PRNG or from an explicit recorded trace.

Nothing here reads a real clock or real randomness.
"""
import _thread
import ast
import gc
import sys
import weakref
from random import Random
from zlib import crc32

mon = sys.monitoring
TOOL = 3
DISABLE = mon.DISABLE
_raw_lock = _thread.allocate_lock      # kept before any patching
_real_id = id

MASK = (1 << 61) - 1

SIM = None          # the Sim in progress
CUR = None          # the Task executing package code right now (or None)
PREFIX = None       # directory of the package under test


class SimFatal(BaseException):
    """Violation-like condition that ends the run (deadlock, no progress)."""

    def __init__(self, kind, detail):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail


# ---------------------------------------------------------------- faults

class SimTimeout(Exception):
    """Time limit delivered from outside (signal handler style)."""


class SimCancelled(BaseException):
    """Cancellation delivered from outside."""


class UserError(Exception):
    pass


class UserBaseError(BaseException):
    pass


def make_exception(name, msg='injected'):
    if name == 'UnicodeDecodeError':
        return UnicodeDecodeError('utf8', b'\xff', 0, 1, msg)
    cls = {
        'SimTimeout': SimTimeout, 'SimCancelled': SimCancelled,
        'UserError': UserError, 'UserBaseError': UserBaseError,
    }.get(name)
    if cls is None:
        import builtins
        cls = getattr(builtins, name, None) or other_exception(name)
    return cls(msg)


def other_exception(name):
    """exceptions of the user and of other libraries"""
    if name == 'CancelledError':
        import asyncio
        return asyncio.CancelledError
    if name == 'Empty':
        import queue
        return queue.Empty
    if name == 'error':
        import re
        return re.error
    if name == 'SubprocessError':
        import subprocess
        return subprocess.SubprocessError
    return USER_ERRORS[name]


USER_ERRORS = {'User' + base.__name__: type('User' + base.__name__, (base,), {})
               for base in (ValueError, KeyError, LookupError, TypeError)}


ASYNC_KINDS = ['KeyboardInterrupt', 'MemoryError', 'RecursionError',
               'SimTimeout', 'SimCancelled', 'SystemExit']


# ------------------------------------------- lines where no async exception
# Handlers, finally bodies and with/try headers: the language itself gives no
# way to be atomic there, so an interruption at these lines proves nothing.

_unsafe = {}


def unsafe_lines(filename):
    lines = _unsafe.get(filename)
    if lines is None:
        lines = set()
        try:
            with open(filename, encoding='utf8') as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = None
        if tree is not None:
            def block(nodes):
                for n in nodes:
                    lines.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))
            for node in ast.walk(tree):
                if isinstance(node, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
                    lines.add(node.lineno)
                    block(node.finalbody)
                    for h in node.handlers:
                        lines.add(h.lineno)
                        block(h.body)
                elif isinstance(node, (ast.With, ast.AsyncWith)):
                    first = node.body[0].lineno
                    lines.update(range(node.lineno, max(first, node.lineno + 1)))
                elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if node.name in ('__exit__', '__enter__', '__del__',
                                     '__aexit__', '__aenter__'):
                        block(node.body)
        _unsafe[filename] = lines
    return lines


# ------------------------------------------------ lines that change objects
# Only a hint where to look first: a switch or an interruption next to a write
# is more interesting than elsewhere.  The verdict never depends on it.

MUTATORS = {'append', 'add', 'update', 'pop', 'clear', 'setdefault', 'extend',
            'insert', 'remove', 'discard', 'popitem', 'move_to_end', 'sort',
            'appendleft', 'popleft', 'reverse', 'push', 'put', 'get', 'acquire',
            'release', 'set', 'define', 'reset', 'send', 'setattr', 'delattr',
            '__setattr__', 'next', 'fill', 'put_nowait'}

_hot = {}


def hot_lines(filename):
    """line -> 2 where something that may be shared is written, 1 where
    something that looks local is"""
    lines = _hot.get(filename)
    if lines is None:
        lines = {}
        try:
            with open(filename, encoding='utf8') as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = None
        if tree is not None:
            def names(function):
                out = {a.arg for a in ast.walk(function.args) if isinstance(a, ast.arg)}
                for n in ast.walk(function):
                    if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                        out.add(n.id)
                for n in ast.walk(function):
                    if isinstance(n, (ast.Global, ast.Nonlocal)):
                        out -= set(n.names)
                return out - {'self', 'cls'}

            def base(node, local):
                # container that is written to
                return 1 if isinstance(node, ast.Name) and node.id in local else 2

            def target(node, init, local):
                if isinstance(node, (ast.Tuple, ast.List)):
                    return max([target(_, init, local) for _ in node.elts] or [0])
                if isinstance(node, ast.Starred):
                    return target(node.value, init, local)
                if isinstance(node, ast.Subscript):
                    return base(node.value, local)
                if isinstance(node, ast.Attribute):
                    own = isinstance(node.value, ast.Name) and node.value.id == 'self'
                    return 0 if init and own else 2
                if isinstance(node, ast.Name):
                    return 0 if local is None or node.id in local else 2
                return 0

            def walk(node, init, local):
                if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    init = node.name == '__init__'
                    local = names(node) | (local or set())
                hot = 0
                if isinstance(node, ast.Assign):
                    hot = max(target(_, init, local) for _ in node.targets)
                elif isinstance(node, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
                    hot = target(node.target, init, local)
                elif isinstance(node, ast.Delete):
                    hot = max(target(_, init, local) for _ in node.targets)
                elif isinstance(node, ast.For):
                    hot = target(node.target, init, local)
                elif isinstance(node, ast.Call):
                    f = node.func
                    if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                        hot = base(f.value, local or ())
                    elif isinstance(f, ast.Name) and f.id in MUTATORS:
                        hot = 1
                elif isinstance(node, (ast.With, ast.AsyncWith)):
                    hot = 2
                if hot:
                    end = node.lineno if isinstance(node, (ast.With, ast.For, ast.AsyncWith)) \
                        else (node.end_lineno or node.lineno)
                    for line in range(node.lineno, end + 1):
                        lines[line] = max(hot, lines.get(line, 0))
                for child in ast.iter_child_nodes(node):
                    walk(child, init, local)
            walk(tree, False, None)
        _hot[filename] = lines
    return lines


def is_hot(code, site, gran):
    if gran == 'instr':
        for start, end, line in code.co_lines():
            if start <= site < end:
                site = line
                break
    return hot_lines(code.co_filename).get(site, 0)


_crc = {}           # id -> number; hashing a code object reads all of it
_kept = []
_codes = {}


def code_crc(code):
    value = _crc.get(_real_id(code))
    if value is None:
        value = crc32(('%s:%s' % (code.co_filename, code.co_qualname)).encode())
        _crc[_real_id(code)] = value
        _kept.append(code)
        _codes[value] = code
    return value


# ---------------------------------------------------------------- tasks

READY, BLOCKED, SLEEPING, DONE = range(4)


class Task(object):
    __slots__ = ('sim', 'id', 'body', 'gate', 'state', 'waiting', 'wake',
                 'steps', 'op_steps', 'fault', 'fault_fired', 'injected',
                 'cb', 'depth', 'error', 'sites', 'prio', 'dot', 'dot_used')

    def __init__(self, sim, id, body):
        self.sim = sim
        self.id = id
        self.body = body
        self.gate = _raw_lock()
        self.gate.acquire()
        self.state = READY
        self.waiting = None
        self.wake = 0.0
        self.steps = 0
        self.op_steps = 0
        self.fault = None
        self.fault_fired = False
        self.injected = None
        self.cb = {}
        self.depth = 0
        self.error = None
        self.sites = None
        self.prio = 0
        self.dot = None
        self.dot_used = 0

    def begin_op(self, fault):
        self.op_steps = 0
        self.cb = {}
        self.fault = fault
        self.fault_fired = False
        self.injected = None

    def end_op(self):
        self.fault = None


class Sched(object):
    """Scheduling policy; decides at every point whom to run."""

    def __init__(self, conf, ntasks):
        self.conf = conf
        self.policy = conf.get('policy', 'serial')
        self.rng = Random(conf.get('seed', 0))
        self.est = max(10, conf.get('est', 1000))
        self.gap = conf.get('gap', 50)
        self.left = 0
        self.sub = conf.get('sub', 8)
        self.salt = conf.get('salt', 0)
        self.p = conf.get('p', 0.5)
        self.base_p = conf.get('base_p', 0.003)
        if self.policy == 'geo':
            self.redraw()
        elif self.policy == 'pct':
            prios = list(range(ntasks))
            self.rng.shuffle(prios)
            self.prios = {i: p + 1000 for i, p in enumerate(prios)}
            d = conf.get('depth', 1)
            self.changes = sorted(self.rng.randrange(self.est) for _ in range(d))
            self.low = 999
        elif self.policy in ('park', 'duel'):
            # [task, code hash, site, occurrence]: stop there, let others go
            self.parks = {}
            self.seen = {}
            for task, chash, site, n in conf['parks']:
                self.parks.setdefault((task, chash, site), set()).add(n)
        elif self.policy == 'spot':
            # [code hash, site]: whoever passes may be stopped
            self.spots = {(c, site) for c, site in conf['spots']}
        elif self.policy == 'explicit':
            self.points = {}
            for kind, task, step, to in conf['switches']:
                self.points[(kind, task, step)] = to

    def redraw(self):
        self.left = 1 + int(self.rng.expovariate(1.0 / self.gap))

    def preempt(self, sim, task, site, code_hash):
        """index of the task to switch to, or None"""
        policy = self.policy
        if policy == 'serial':
            return None
        if policy == 'geo':
            self.left -= 1
            if self.left > 0:
                return None
            self.redraw()
            return self.other(sim, task)
        if policy == 'focus':
            hot = ((code_hash ^ self.salt) * 2654435761 >> 7) % self.sub == 0
            if self.rng.random() >= (self.p if hot else self.base_p):
                return None
            return self.other(sim, task)
        if policy == 'line':
            hot = (((code_hash + site * 7919) ^ self.salt) * 2654435761 >> 7) % self.sub == 0
            if self.rng.random() >= (self.p if hot else self.base_p):
                return None
            return self.other(sim, task)
        if policy == 'pct':
            if self.changes and sim.total >= self.changes[0]:
                self.changes.pop(0)
                self.prios[task.id] = self.low
                self.low -= 1
                best = max((t for t in sim.tasks if t.state == READY),
                           key=lambda t: self.prios[t.id])
                if best is not task:
                    return best.id
            return None
        if policy == 'spot':
            if (code_hash, site) in self.spots and self.rng.random() < self.p:
                sim.count('spotted')
                return self.other(sim, task)
            return None
        if policy in ('park', 'duel'):
            if code_hash == TURN:
                # the others have done one operation: go on
                return self.other(sim, task) if policy == 'duel' else None
            key = (task.id, code_hash, site)
            if key in self.parks:
                n = self.seen.get(key, 0)
                self.seen[key] = n + 1
                if n in self.parks[key]:
                    sim.count('parked')
                    return self.other(sim, task)
            return None
        if policy == 'explicit':
            return self.points.get(('p', task.id, task.steps))
        raise ValueError(policy)

    def other(self, sim, task):
        ready = [t.id for t in sim.tasks if t.state == READY and t is not task]
        if not ready:
            return None
        return self.rng.choice(ready)

    def forced(self, sim, task, ready):
        """task stopped (done/blocked/sleeping): who goes on"""
        if self.policy == 'explicit':
            to = self.points.get(('f', task.id if task else -1,
                                  task.steps if task else 0))
            if to in ready:
                return to
            return ready[0]
        if self.policy == 'pct':
            return max(ready, key=lambda i: self.prios[i])
        if self.policy == 'serial':
            return ready[0]
        return self.rng.choice(ready)


class Sim(object):
    def __init__(self, sched=None, cap=3000000, time0=1700000000.0):
        self.sched_conf = sched or {'policy': 'serial'}
        self.tasks = []
        self.clock = 0.0
        self.time0 = time0
        self.total = 0
        self.cap = cap
        self.switches = []
        self.hash = 7
        self.sw_hash = 7
        self.main = Task(self, -1, None)
        self.main_gate = self.main.gate
        self.in_threads = False
        self.fatal = None
        self.multi = False
        self.stats = {}
        self.on_point = None

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    # ---- running

    def run_inline(self, fn):
        """run fn on the main thread as task -1"""
        global CUR, SIM
        SIM = self
        CUR = self.main
        try:
            return fn(self.main)
        finally:
            CUR = None

    def run_tasks(self, bodies):
        global CUR, SIM
        SIM = self
        self.tasks = [Task(self, i, b) for i, b in enumerate(bodies)]
        if not self.tasks:
            return
        self.sched = Sched(self.sched_conf, len(self.tasks))
        self.in_threads = True
        self.multi = len(self.tasks) > 1
        for t in self.tasks:
            _thread.start_new_thread(self._thread, (t,))
        self._resume(None)
        self.main_gate.acquire()
        CUR = None
        self.in_threads = False
        self.multi = False
        if self.fatal:
            raise self.fatal
        for t in self.tasks:
            if t.error:
                raise t.error

    def _thread(self, task):
        task.gate.acquire()
        try:
            task.body(task)
        except SimFatal as e:
            self._die(e)
            return
        except BaseException as e:      # harness failure
            task.error = e
            self._die(None)
            return
        task.state = DONE
        self._leave(task)

    def _die(self, fatal):
        """end the run; other threads stay parked for ever (child exits)"""
        global CUR
        if fatal is not None and self.fatal is None:
            self.fatal = fatal
        CUR = None
        self.main_gate.release()

    def _resume(self, task):
        """current stopped; hand the token to somebody. True when handed."""
        global CUR
        while True:
            ready = [t.id for t in self.tasks if t.state == READY]
            if ready:
                if len(ready) == 1:
                    to = ready[0]
                else:
                    to = self.sched.forced(self, task, ready)
                    self.switches.append(
                        ['f', task.id if task else -1,
                         task.steps if task else 0, to])
                    self.sw_hash = ((self.sw_hash * 1000003) ^ (to + 11)) & MASK
                nxt = self.tasks[to]
                if task is nxt:
                    CUR = nxt
                    return True
                CUR = nxt
                nxt.gate.release()
                return False
            sleepers = [t for t in self.tasks if t.state == SLEEPING]
            if sleepers:
                t = min(sleepers, key=lambda t: (t.wake, t.id))
                self.clock = max(self.clock, t.wake)
                for s in sleepers:
                    if s.wake <= self.clock:
                        s.state = READY
                        s.waiting = None
                continue
            if all(t.state == DONE for t in self.tasks):
                CUR = None
                self.main_gate.release()
                return False
            raise SimFatal('deadlock', 'tasks %s wait for each other' % [
                t.id for t in self.tasks if t.state == BLOCKED])

    def _leave(self, task):
        try:
            self._resume(task)
        except SimFatal as e:
            self._die(e)

    def _park(self, task):
        """task has become blocked/sleeping: wait until resumed"""
        if self._resume(task):
            return
        task.gate.acquire()

    # ---- points

    def tick(self, task, site, chash):
        task.steps += 1
        task.op_steps += 1
        self.total += 1
        self.hash = ((self.hash * 1000003) ^ (chash + site * 31 + task.id)) & MASK
        if self.total > self.cap:
            raise SimFatal('no-progress', 'more than %d steps' % self.cap)
        if self.multi:
            to = self.sched.preempt(self, task, site, chash)
            if to is not None and to != task.id:
                other = self.tasks[to]
                if other.state == READY:
                    self._switch(task, other, chash, site)

    def _switch(self, task, other, chash, site):
        global CUR
        self.switches.append(['p', task.id, task.steps, other.id])
        self.sw_hash = ((self.sw_hash * 1000003) ^
                        (chash + site * 31 + task.id * 7 + other.id)) & MASK
        CUR = other
        other.gate.release()
        task.gate.acquire()

    def sleep(self, dt):
        task = CUR
        self.count('virtual_sleep')
        if task is None or task is self.main or not self.in_threads:
            self.clock += max(0.0, dt)
            return
        task.wake = self.clock + max(0.0, dt)
        task.state = SLEEPING
        self._park(task)
        task.state = READY


# ---------------------------------------------------------------- events

def _event(code, site):
    chash = _crc.get(_real_id(code))
    if chash is None:
        if not code.co_filename.startswith(PREFIX):
            return DISABLE
        chash = code_crc(code)
    task = CUR
    if task is None:
        return
    sim = task.sim
    if task.sites is not None:
        task.sites.append((chash, site))
    fault = task.fault
    if (fault is not None and not task.fault_fired
            and fault['kind'] == 'async' and task.op_steps + 1 >= fault['at']):
        if site not in unsafe_lines(code.co_filename):
            task.fault_fired = True
            task.op_steps += 1
            task.steps += 1
            sim.count('async:' + fault['exc'])
            sim.hash = ((sim.hash * 1000003) ^ (chash + site + 5)) & MASK
            exc = make_exception(fault['exc'])
            task.injected = exc
            raise exc
    if sim.multi:
        sim.tick(task, site, chash)
        return
    # the same as tick
    task.steps += 1
    task.op_steps += 1
    sim.total = total = sim.total + 1
    sim.hash = ((sim.hash * 1000003) ^ (chash + site * 31 + task.id)) & MASK
    if total > sim.cap:
        raise SimFatal('no-progress', 'more than %d steps' % sim.cap)


def start_monitoring(prefix):
    global PREFIX
    PREFIX = prefix
    mon.use_tool_id(TOOL, 'dst')
    mon.register_callback(TOOL, mon.events.LINE, _event)
    mon.register_callback(TOOL, mon.events.INSTRUCTION, _event)


def set_granularity(gran):
    if gran == 'instr':
        mon.set_events(TOOL, mon.events.INSTRUCTION)
    elif gran == 'line':
        mon.set_events(TOOL, mon.events.LINE)
    else:
        mon.set_events(TOOL, 0)


TURN = crc32(b'turn')


def turn(task):
    """between two operations of a task"""
    task.sim.tick(task, 0, TURN)


def point(name):
    """explicit preemption point in a stub"""
    task = CUR
    if task is not None:
        if task.sites is not None:
            task.sites.append((crc32(name.encode()), 0))
        task.sim.tick(task, 0, crc32(name.encode()))


# ---------------------------------------------------------------- locks

class SimLock(object):
    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def _me(self):
        return CUR if CUR is not None else 'main'

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        point('lock.acquire')
        deadline = None
        while True:
            if self.owner is None:
                self.owner = me
                self.depth = 1
                return True
            if self.reentrant and self.owner is me:
                self.depth += 1
                return True
            if not blocking:
                return False
            task = CUR
            sim = SIM
            if timeout is not None and timeout >= 0:
                now = sim.clock if sim else 0.0
                if deadline is None:
                    deadline = now + timeout
                if now >= deadline:
                    return False
                if task is not None and sim.in_threads and task is not sim.main:
                    task.wake = deadline
                    task.state = SLEEPING
                    task.waiting = self
                    sim._park(task)
                    task.state = READY
                    task.waiting = None
                else:
                    sim.clock = deadline
                continue
            if task is None or sim is None or task is sim.main or not sim.in_threads:
                raise SimFatal('deadlock', 'lock is held for ever')
            task.state = BLOCKED
            task.waiting = self
            sim.count('lock_wait')
            sim._park(task)
            task.waiting = None

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        if self.reentrant and self.owner is not self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            sim = SIM
            if sim is not None:
                for t in sim.tasks:
                    if t.waiting is self and t.state in (BLOCKED, SLEEPING):
                        t.state = READY
        point('lock.release')

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_):
        self.release()

    # used by threading.Condition on RLock
    def _is_owned(self):
        return self.owner is not None and (
            not self.reentrant or self.owner is self._me())

    def _release_save(self):
        depth, self.depth = self.depth, 1
        self.release()
        return depth

    def _acquire_restore(self, depth):
        self.acquire()
        self.depth = depth

    def _at_fork_reinit(self):
        self.owner = None
        self.depth = 0


class SimRLock(SimLock):
    reentrant = True


# ---------------------------------------------------------------- allocator

class SimAlloc(object):
    """The `id` the modules under test see.

    Honours exactly the documented contract: constant while the object lives,
    unique among live objects.  Everything else is the policy's choice.
    """

    REUSING = ('lifo', 'fifo', 'random', 'low', 'high', 'hot', 'size', 'sizerand')

    def __init__(self, policy, seed=0):
        self.policy = policy
        self.rng = Random(seed)
        self.table = {}
        self.free = {}          # by size class, or all together
        self.next = 0
        self.reused = 0
        self.used = set()
        self.strong = {}
        self.asked = {}

    def _sweep(self):
        """objects without weak references: held here, let go when nobody else
        has them"""
        import sys
        for real in list(self.strong):
            obj, value = self.strong[real]
            # this table, the local name, the argument
            if sys.getrefcount(obj) <= 3:
                del self.strong[real]
                self._release(value, self._class(obj))

    def _class(self, obj):
        if self.policy in ('size', 'sizerand'):
            return type(obj).__name__

    def _release(self, value, group):
        if self.policy in self.REUSING:
            self.free.setdefault(group, []).append(value)

    def _new(self, group):
        policy = self.policy
        free = self.free.get(group)
        if free:
            index = None
            if policy in ('lifo', 'size'):
                index = -1
            elif policy == 'fifo':
                index = 0
            elif policy == 'low':
                index = free.index(min(free))
            elif policy == 'high':
                index = free.index(max(free))
            elif policy == 'hot':
                index = max(range(len(free)), key=lambda _: self.asked.get(free[_], 0))
            elif self.rng.random() < 0.7:
                index = self.rng.randrange(len(free))
            if index is not None:
                self.reused += 1
                return free.pop(index)
        if policy in ('random', 'scramble'):
            while True:
                value = 0x7f0000000000 + 16 * self.rng.randrange(1 << 24)
                if value not in self.used:
                    self.used.add(value)
                    return value
        if policy == 'down':
            self.next += 1
            return 0x7f0000000000 - 16 * self.next
        self.next += 1
        return 0x7f0000000000 + 16 * self.next

    def id(self, obj):
        real = _real_id(obj)
        entry = self.table.get(real)
        if entry is not None and entry[0]() is obj:
            if self.policy == 'hot':
                self.asked[entry[1]] = self.asked.get(entry[1], 0) + 1
            return entry[1]
        group = self._class(obj)
        try:
            value = [None]

            def dead(_, real=real, value=value, self=self):
                e = self.table.get(real)
                if e is not None and e[1] == value[0]:
                    del self.table[real]
                self._release(value[0], group)
            ref = weakref.ref(obj, dead)
        except TypeError:
            entry = self.strong.get(real)
            if entry is None:
                self._sweep()
                entry = self.strong[real] = (obj, self._new(group))
            return entry[1]
        value[0] = self._new(group)
        self.table[real] = (ref, value[0])
        return value[0]
