"""Everything the package reaches outside itself, replaced before its import.

 * threading/_thread locks      -> simulated locks (scheduler decides)
 * time.time/monotonic/sleep    -> virtual clock
 * subprocess.Popen             -> simulated external program
 * pymorphy2.MorphAnalyzer      -> handle on one shared real analyser, with
                                   failure points in front of parse/load
 * functools.lru_cache sizes and CACHE_SIZE in the package -> tunable knob
 * module level `id`            -> simulated allocator (per run)
"""
import ast
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import gc
import os
import random
import re
import sys

from . import simcore

REPO = os.environ.get('DST_REPO', '/repo')
PACKAGE = 'yargy'
SCRATCH = os.environ.get('DST_SCRATCH')     # for files of the code under test
PKG_DIR = os.path.join(REPO, PACKAGE) + os.sep

KNOB = {'cache': None}
_code_cache = {}


# ------------------------------------------------------------ hook dispatch

HANDLER = None      # callable(kind, label) installed by the executor


def hook(kind, label=''):
    """A place where the outside world can misbehave."""
    handler = HANDLER
    if handler is not None:
        handler(kind, label)


# ------------------------------------------------------------ sizes of caches

CACHE_NAME = re.compile('cache|memo|keep|history|capacity|recent', re.I)
SIZE_NAME = re.compile('^(maxsize|maxlen|capacity|max_size|max_len|'
                       '.*(cache|memo|keep|history).*)$', re.I)
EVICTIONS = ('clear', 'pop', 'popitem', 'popleft')


class Shrink(ast.NodeTransformer):
    """sizes of caches, however written, become the knob; nothing else does"""

    def __init__(self, knob):
        self.knob = knob

    def small(self, node):
        if (isinstance(node, ast.Constant) and type(node.value) is int
                and node.value >= 64):
            return ast.copy_location(ast.Constant(self.knob), node)
        if isinstance(node, ast.BinOp):
            try:
                value = eval(compile(ast.Expression(node), '', 'eval'), {})
            except Exception:
                return node
            if type(value) is int and value >= 64:
                return ast.copy_location(ast.Constant(self.knob), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        names = [getattr(_, 'id', getattr(_, 'attr', '')) for _ in node.targets]
        if any(CACHE_NAME.search(_ or '') for _ in names):
            node.value = self.small(node.value)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        for keyword in node.keywords:
            if SIZE_NAME.match(keyword.arg or ''):
                keyword.value = self.small(keyword.value)
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        args = node.args.posonlyargs + node.args.args
        for i, default in enumerate(node.args.defaults):
            if SIZE_NAME.match(args[len(args) - len(node.args.defaults) + i].arg):
                node.args.defaults[i] = self.small(default)
        for i, default in enumerate(node.args.kw_defaults):
            if default is not None and SIZE_NAME.match(node.args.kwonlyargs[i].arg):
                node.args.kw_defaults[i] = self.small(default)
        return node

    @staticmethod
    def evicts(body):
        """something is thrown out, or everything"""
        for part in body:
            for node in ast.walk(part):
                if isinstance(node, ast.Delete):
                    return True
                if isinstance(node, ast.Call) and getattr(
                        node.func, 'attr', None) in EVICTIONS:
                    return True
                if isinstance(node, ast.Assign) and (
                        isinstance(node.value, ast.Dict) and not node.value.keys
                        or isinstance(node.value, ast.Call) and not node.value.args
                        and getattr(node.value.func, 'id', getattr(
                            node.value.func, 'attr', None)) in (
                                'dict', 'OrderedDict', 'set')):
                    return True

    @staticmethod
    def stores(body):
        for part in body:
            for node in ast.walk(part):
                if isinstance(node, ast.Subscript) and isinstance(node.ctx, ast.Store):
                    return True

    def visit_If(self, node):
        self.generic_visit(node)
        for test in ast.walk(node.test):
            if isinstance(test, ast.Compare) and len(test.ops) == 1:
                left, right = test.left, test.comparators[0]
                big = isinstance(test.ops[0], (ast.Gt, ast.GtE, ast.Eq))
                sized = (isinstance(left, ast.Call)
                         and getattr(left.func, 'id', None) == 'len')
                if sized and (big and self.evicts(node.body)
                              or not big and self.stores(node.body)):
                    test.comparators[0] = self.small(right)
        return node

    visit_While = visit_If


def shrink_caches(tree, knob):
    return ast.fix_missing_locations(Shrink(knob).visit(tree))


# ------------------------------------------------------------ import of yargy

class Loader(importlib.abc.InspectLoader):
    def __init__(self, name, path):
        self.name = name
        self.path = path

    def get_filename(self, fullname=None):
        return self.path

    def is_package(self, fullname):
        return self.path.endswith('__init__.py')

    def get_source(self, fullname):
        with open(self.path, encoding='utf8') as f:
            return f.read()

    def get_code(self, fullname):
        knob = KNOB['cache']
        key = (self.path, knob)
        code = _code_cache.get(key)
        if code is None:
            source = self.get_source(fullname)
            if knob is not None:
                source = shrink_caches(ast.parse(source, self.path), knob)
            code = compile(source, self.path, 'exec', dont_inherit=True)
            _code_cache[key] = code
        return code


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != PACKAGE and not fullname.startswith(PACKAGE + '.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        for candidate, package in ((os.path.join(base, '__init__.py'), True),
                                   (base + '.py', False)):
            if os.path.isfile(candidate):
                loader = Loader(fullname, candidate)
                return importlib.util.spec_from_file_location(
                    fullname, candidate, loader=loader,
                    submodule_search_locations=[base] if package else None)
        return None


def package_modules():
    names = []
    for root, dirs, files in os.walk(PKG_DIR):
        dirs[:] = sorted(d for d in dirs if not d.startswith('__')
                         and d not in ('tests',))
        rel = os.path.relpath(root, REPO).replace(os.sep, '.')
        for f in sorted(files):
            if f.endswith('.py'):
                name = rel if f == '__init__.py' else rel + '.' + f[:-3]
                names.append(name)
    return names


_real_lru = functools.lru_cache


def _knob_lru(maxsize=128, typed=False):
    """lru_cache as the package sees it: big caches shrink to the knob"""
    if isinstance(maxsize, int) and maxsize >= 64 and KNOB['cache'] is not None:
        maxsize = KNOB['cache']
    return _real_lru(maxsize, typed)


def import_package(cache=None):
    """import (or re-import) the package from the working tree"""
    functools.lru_cache = _knob_lru
    try:
        return _import_package(cache)
    finally:
        functools.lru_cache = _real_lru


def _import_package(cache):
    for name in [n for n in sys.modules
                 if n == PACKAGE or n.startswith(PACKAGE + '.')]:
        del sys.modules[name]
    KNOB['cache'] = cache
    __import__(PACKAGE)
    for name in package_modules():
        __import__(name)
    patch_pymorphy()
    return sys.modules[PACKAGE]


def set_allocator(alloc):
    for name, module in list(sys.modules.items()):
        if name == PACKAGE or name.startswith(PACKAGE + '.'):
            if alloc is None:
                module.__dict__.pop('id', None)
            elif 'id' not in module.__dict__ or getattr(
                    module.__dict__['id'], '__self__', None).__class__ is simcore.SimAlloc:
                module.__dict__['id'] = alloc.id


# ------------------------------------------------------------ pymorphy

_real_morph = None
_shared_raw = None
TWEAK = None        # callable() -> None or fn(word, parses): other dictionaries


def shared_raw():
    global _shared_raw
    if _shared_raw is None:
        _shared_raw = _real_morph()
    return _shared_raw


class SimRaw(object):
    """What `pymorphy2.MorphAnalyzer(...)` gives under simulation: a separate
    handle onto one really loaded dictionary."""

    def __init__(self, *args, **kwargs):
        hook('load', 'dict')
        self._raw = shared_raw()
        self._tweak = TWEAK() if TWEAK else None

    def parse(self, word, *args, **kwargs):
        hook('morph', word)
        result = self._raw.parse(word, *args, **kwargs)
        if self._tweak:
            result = self._tweak(word, result)
        return result

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name == 'TagClass':
            hook('tagset', name)
        return getattr(self._raw, name)


def patch_pymorphy():
    import pymorphy2
    for name, module in list(sys.modules.items()):
        if name == PACKAGE or name.startswith(PACKAGE + '.'):
            for key, value in list(vars(module).items()):
                if value is _real_morph:
                    setattr(module, key, SimRaw)


# ------------------------------------------------------------ subprocess

PIPE_SIZE = 65536
SLOW = 30.0    # seconds nobody has to wait for


class _Pipe(object):
    """file-like end of a simulated pipe"""

    def __init__(self, proc, kind):
        self.proc = proc
        self.kind = kind
        self.closed = False
        self.buffer = None

    def fileno(self):
        raise OSError(9, 'simulated pipe')

    def readable(self):
        return self.kind != 'stdin'

    def writable(self):
        return self.kind == 'stdin'

    def write(self, data):
        if self.closed:
            raise ValueError('write to closed file')
        self.proc._feed(data)
        return len(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        pass

    def read(self, n=-1):
        if self.closed:
            raise ValueError('read of closed file')
        if self.buffer is None:
            self.buffer = self.proc._read(self.kind)
        if n is None or n < 0:
            data, self.buffer = self.buffer, self.buffer[:0]
        else:
            data, self.buffer = self.buffer[:n], self.buffer[n:]
        return data

    def readline(self):
        rest = self.read()
        i = rest.find('\n' if isinstance(rest, str) else b'\n')
        cut = len(rest) if i < 0 else i + 1
        self.buffer = rest[cut:]
        return rest[:cut]

    def readlines(self):
        return self.read().splitlines(True)

    def close(self):
        self.closed = True
        if self.kind == 'stdin':
            self.proc._closed_stdin = True

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def __iter__(self):
        return iter(self.readlines())


DOT_PLAN = None         # callable(argv) -> behaviour dict
DOT_MISSING = None      # callable() -> whether the program is not installed


def render(source):
    """the picture the simulated drawing program makes of a source"""
    import hashlib
    source = re.sub(rb' at 0x[0-9a-f]+', b'', source)
    digest = hashlib.sha1(source).hexdigest()
    return ('<?xml version="1.0"?>\n<svg id="%s" size="%d">\n' % (
        digest, len(source)) + '<g/>' * 5 + '\n</svg>\n').encode('utf8')


def drawing_args(argv, shell):
    """what the command line asks of the drawing program"""
    import shlex
    if isinstance(argv, (str, bytes)):
        argv = argv.decode('utf8') if isinstance(argv, bytes) else argv
        argv = shlex.split(argv, posix=True) if shell else [argv]
    elif isinstance(argv, os.PathLike):
        argv = [argv]
    argv = [os.fsdecode(_) for _ in argv]
    files, out, version, same = [], None, False, False
    redirect = None
    i = 1
    while i < len(argv):
        arg = argv[i]
        i += 1
        if shell and arg in ('<', '>'):
            redirect = (redirect or {})
            redirect[arg] = argv[i] if i < len(argv) else ''
            i += 1
        elif arg in ('-T', '-K', '-G', '-N', '-E', '-o', '-l', '-s'):
            if arg == '-o':
                out = argv[i] if i < len(argv) else None
            i += 1
        elif arg.startswith('-o'):
            out = arg[2:]
        elif arg == '-V':
            version = True
        elif arg == '-O':
            same = True
        elif arg == '-' or not arg.startswith('-'):
            files.append(arg)
    if redirect:
        files = files or [_ for _ in [redirect.get('<')] if _]
        out = out or redirect.get('>')
    if same and files:
        out = files[0] + '.svg'
    if files in (['-'], ['/dev/stdin']):
        files = []
    if out in ('/dev/stdout', '-'):
        out = None
    return files, out, version


class FakePopen(object):
    """the drawing program as a process: reads its whole input, then answers"""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None,
                 stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                 shell=False, cwd=None, env=None, universal_newlines=None,
                 *rest, text=None, encoding=None, errors=None, **kwargs):
        self.args = args
        self.text = bool(text or encoding or errors or universal_newlines)
        self.encoding = encoding or 'utf8'
        self.errors = errors or 'strict'
        self.returncode = None
        self.pid = 4242
        self._cwd = cwd
        self._input = b''
        self._result = None
        self._closed_stdin = False
        self._ready = None
        self._behaviour = None
        simcore.point('popen')
        hook('popen', 'dot')
        plan = DOT_PLAN
        self._behaviour = b = (plan(args) if plan else {}) or {}
        if b.get('spawn'):
            cls, no = b['spawn']
            exc = getattr(__import__('builtins'), cls)(no, os.strerror(no), 'dot')
            raise exc
        self._files, self._out, self._version = drawing_args(args, shell)
        self._merged = stderr == -2
        self._stdin_file = self._opened(stdin)
        self._stdout_file = self._opened(stdout)
        self._stderr_file = self._opened(stderr)
        self.stdin = _Pipe(self, 'stdin') if stdin == -1 else None
        self.stdout = _Pipe(self, 'stdout') if stdout == -1 else None
        self.stderr = _Pipe(self, 'stderr') if stderr == -1 else None
        if self._stdin_file is not None:
            self._stdin_file = os.dup(self._stdin_file)
        if self._stdout_file is not None:
            self._stdout_file = os.dup(self._stdout_file)

    @staticmethod
    def _opened(value):
        if value is None or value in (-1, -2, -3):
            return None
        return value if isinstance(value, int) else value.fileno()

    def _feed(self, data):
        if isinstance(data, str):
            if not self.text:
                raise TypeError("a bytes-like object is required, not 'str'")
            data = data.encode(self.encoding, self.errors)
        elif self.text:
            raise TypeError('write() argument must be str')
        if self._behaviour.get('epipe'):
            raise BrokenPipeError(32, 'Broken pipe')
        self._input += bytes(data)

    # -- the program

    def _waits_for_input(self):
        return (not self._files and self.stdin is not None
                and not self._closed_stdin)

    def _source(self):
        """what the program reads, None if it cannot"""
        if not self._files:
            if self._stdin_file is not None:
                chunks = []
                while True:
                    chunk = os.read(self._stdin_file, 1 << 20)
                    if not chunk:
                        return b''.join(chunks)
                    chunks.append(chunk)
            return self._input
        data = b''
        for path in self._files:
            try:
                with open(os.path.join(self._cwd or '', path), 'rb') as file:
                    data += file.read()
            except OSError:
                return None
        return data

    def _start(self):
        if self._ready is None:
            delay = self._behaviour.get('delay') or 0
            self._ready = (simcore.SIM.clock if simcore.SIM is not None else 0) + delay

    def _finish(self):
        """the program runs to its end"""
        if self._result is not None:
            return self._result
        if self._waits_for_input():
            raise simcore.SimFatal('stuck', 'the drawing program waits for the end of '
                                   'its input, the caller for the program')
        self._start()
        simcore.point('dot.run')
        sim = simcore.SIM
        if sim is not None and sim.clock < self._ready:
            sim.sleep(self._ready - sim.clock)
        if self._result is not None:
            return self._result
        b = self._behaviour
        source = self._source()
        if source is None:
            self._result = (b'', b"Error: dot: can't open file", 2)
            return self._result
        picture = render(source)
        if self._version:
            picture, err = b'', b'dot - graphviz version 2.43.0 (0)'
        else:
            err = b.get('stderr', '').encode('utf8')
        cut = b.get('cut')
        if cut is not None:
            picture = picture[:int(len(picture) * cut)]
        if b.get('garble'):
            picture = picture[:20] + b'\xff\xfe\xd0' + picture[20:]
        if b.get('bad_stderr'):
            err = b'\xff\xfe broken'
        if self._merged:
            picture, err = picture + err, b''
        code = b.get('rc', 0)
        if self._out:
            try:
                with open(os.path.join(self._cwd or '', self._out), 'wb') as file:
                    file.write(picture)
                picture = b''
            except OSError:
                picture, err, code = b'', b"Error: Can't open output file", 1
        elif self._stdout_file is not None:
            os.write(self._stdout_file, picture)
            picture = b''
        if self._stderr_file is not None:
            os.write(self._stderr_file, err)
            err = b''
        for name in ('_stdin_file', '_stdout_file'):
            fd = getattr(self, name)
            if fd is not None:
                os.close(fd)
                setattr(self, name, None)
        self._result = (picture, err, code)
        return self._result

    # -- the caller's end

    def _conv(self, data):
        if self.text:
            return data.decode(self.encoding, self.errors).replace('\r\n', '\n')
        return data

    def _readable(self):
        if self._behaviour.get('oserror'):
            if simcore.CUR is not None:
                simcore.CUR.dot_used += 1
            raise OSError(5, 'Input/output error')

    def _read(self, kind):
        self._readable()
        out, err, _ = self._finish()
        mine, other, pipe = (out, err, self.stderr) if kind == 'stdout' else (
            err, out, self.stdout)
        if (pipe is not None and len(other) > PIPE_SIZE and pipe.buffer is None
                and self.returncode is None):
            raise simcore.SimFatal('stuck', 'the drawing program waits for its %s '
                                   'to be read, the caller for the end of %s' % (
                                       pipe.kind, kind))
        return self._conv(mine)

    def communicate(self, input=None, timeout=None):
        b = self._behaviour
        if input is not None and self.stdin is not None and not self._closed_stdin:
            if isinstance(input, str):
                if not self.text:
                    raise TypeError("a bytes-like object is required, not 'str'")
                input = input.encode(self.encoding, self.errors)
            elif self.text:
                raise TypeError('write() argument must be str')
            # EPIPE is not an error in communicate()
            self._input += bytes(input)
        self._closed_stdin = True
        self._readable()
        self._start()
        sim = simcore.SIM
        if (timeout is not None and self._result is None and sim is not None
                and self._ready - sim.clock > timeout):
            import subprocess
            sim.sleep(timeout)
            raise subprocess.TimeoutExpired(self.args, timeout, output=self._partial() or None)
        out, err, code = self._finish()
        pipes = []
        for pipe, data in ((self.stdout, out), (self.stderr, err)):
            if pipe is None:
                pipes.append(None)
            elif pipe.buffer is not None:
                pipes.append(pipe.read())
            else:
                pipe.buffer = data[:0]
                pipes.append(self._conv(data))
        self.returncode = code
        simcore.point('dot.done')
        return tuple(pipes)

    def wait(self, timeout=None):
        if self.returncode is not None:
            return self.returncode
        sim = simcore.SIM
        if timeout is not None and sim is not None and self._result is None:
            if not self._waits_for_input():
                self._start()
            if self._ready is None or self._ready - sim.clock > timeout:
                import subprocess
                sim.sleep(timeout)
                raise subprocess.TimeoutExpired(self.args, timeout)
        out, err, code = self._finish()
        for pipe, data in ((self.stdout, out), (self.stderr, err)):
            if (pipe is not None and not pipe.closed and pipe.buffer is None
                    and len(data) > PIPE_SIZE):
                raise simcore.SimFatal('stuck', 'the drawing program waits for its %s '
                                       'to be read, the caller for the program' % pipe.kind)
        self.returncode = code
        return self.returncode

    def poll(self):
        if self.returncode is None:
            sim = simcore.SIM
            if self._result is None and not self._waits_for_input():
                self._start()
                if sim is None or sim.clock >= self._ready:
                    self._finish()
            if self._result is not None:
                self.returncode = self._result[2]
        return self.returncode

    def _partial(self):
        """what a slow program has written before it is stopped"""
        if (self._behaviour.get('delay') or 0) < SLOW or self._out or self._waits_for_input():
            return b''
        picture = render(self._source() or b'')
        return picture[:int(len(picture) * 0.6)]

    def kill(self):
        self.send_signal(9)

    def terminate(self):
        self.send_signal(15)

    def send_signal(self, signal):
        if self._result is None:
            self._result = (self._partial(), b'', -int(signal))

    def __enter__(self):
        return self

    def __exit__(self, *_):
        for pipe in (self.stdout, self.stderr, self.stdin):
            if pipe is not None:
                pipe.close()
        if self._result is None and self.returncode is None:
            self._closed_stdin = True
        self.wait()


# ------------------------------------------------------------ garbage collector

gc_enable, gc_disable, gc_set_threshold = gc.enable, gc.disable, gc.set_threshold
GC_OFF = False      # by the code under test; runs have their own setting


def _gc_switch(off):
    global GC_OFF
    GC_OFF = off


def patch_gc():
    gc.disable = lambda: _gc_switch(True)
    gc.enable = lambda: _gc_switch(False)
    gc.isenabled = lambda: not GC_OFF
    gc.set_threshold = lambda first, *_: _gc_switch(first == 0)
    gc.freeze = lambda: None


# ------------------------------------------------------------ install

def _vtime():
    sim = simcore.SIM
    return (sim.time0 + sim.clock) if sim is not None else 1700000000.0


def _vmono():
    sim = simcore.SIM
    return (1000.0 + sim.clock) if sim is not None else 1000.0


def _vsleep(dt):
    sim = simcore.SIM
    if sim is not None:
        sim.sleep(dt)


def install():
    """call once per process, before the package is imported"""
    global _real_morph
    import shutil
    import subprocess
    import tempfile
    import threading
    import uuid
    import time
    import _thread
    import pymorphy2
    import pkg_resources    # noqa: F401  (imported lazily by pymorphy2)

    sys.dont_write_bytecode = True
    from pymorphy2.units.base import BaseAnalyzerUnit
    from inspect import getfullargspec

    def names(klass):
        if klass.__init__ is object.__init__:
            return []
        return sorted(getfullargspec(klass.__init__).args[1:])
    BaseAnalyzerUnit._get_param_names = names

    _real_morph = pymorphy2.MorphAnalyzer
    shared_raw()
    pymorphy2.MorphAnalyzer = SimRaw
    Parse = pymorphy2.analyzer.Parse
    real_inflect = Parse.inflect

    def inflect(self, *args, **kwargs):
        hook('inflect', self.word)
        return real_inflect(self, *args, **kwargs)
    Parse.inflect = inflect

    threading.Lock = simcore.SimLock
    threading.RLock = simcore.SimRLock
    threading._RLock = simcore.SimRLock
    threading._allocate_lock = simcore.SimLock
    _thread.allocate_lock = simcore.SimLock
    _thread.allocate = simcore.SimLock
    _thread.RLock = simcore.SimRLock
    subprocess.Popen = FakePopen
    real_which = shutil.which
    shutil.which = lambda cmd, *a, **k: (
        ('/usr/bin/dot' if not DOT_MISSING or not DOT_MISSING() else None)
        if cmd == 'dot' else real_which(cmd, *a, **k))
    time.time = _vtime
    time.monotonic = _vmono
    time.perf_counter = _vmono
    time.time_ns = lambda: int(_vtime() * 1e9)
    time.monotonic_ns = lambda: int(_vmono() * 1e9)
    time.perf_counter_ns = lambda: int(_vmono() * 1e9)
    time.sleep = _vsleep
    random.seed(0)
    # every execution is a fork, and starts from the same state
    entropy = random.Random(11)
    os.urandom = entropy.randbytes
    uuid.os.urandom = entropy.randbytes
    tempfile._Random = lambda *_: random.Random(5)
    if SCRATCH:
        tempfile.tempdir = SCRATCH
        os.environ['TMPDIR'] = SCRATCH
        os.chdir(SCRATCH)
    patch_gc()
    sys.meta_path.insert(0, Finder())
    simcore.start_monitoring(PKG_DIR)
