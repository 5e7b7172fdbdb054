"""Plans: what each property's simulated world does, drawn from one PRNG."""
from random import Random

from . import catalog, world
from .simcore import ASYNC_KINDS

METHODS = ['findall', 'findall', 'extract', 'extract', 'find', 'match']

CB_EXC = ['ValueError', 'KeyError', 'IndexError', 'AttributeError', 'TypeError',
          'RuntimeError', 'OSError', 'LookupError', 'ZeroDivisionError',
          'AssertionError', 'NotImplementedError', 'UnicodeDecodeError',
          'StopIteration', 'GeneratorExit', 'RecursionError', 'MemoryError',
          'KeyboardInterrupt', 'SystemExit', 'TimeoutError', 'EOFError',
          'UserError', 'UserBaseError', 'ArithmeticError', 'Exception',
          'BufferError', 'StopAsyncIteration', 'FileNotFoundError',
          'UnicodeError', 'ImportError', 'NameError', 'ConnectionError',
          'ConnectionResetError', 'BrokenPipeError', 'InterruptedError', 'BlockingIOError',
          'PermissionError', 'ConnectionRefusedError', 'ConnectionAbortedError',
          'OverflowError', 'FloatingPointError', 'ReferenceError', 'ChildProcessError',
          'ProcessLookupError', 'UserWarning', 'Warning', 'DeprecationWarning',
          'SyntaxError', 'SystemError', 'UnboundLocalError', 'ModuleNotFoundError',
          'BaseException', 'CancelledError', 'Empty', 'error', 'SubprocessError',
          'UserValueError', 'UserKeyError', 'UserLookupError', 'UserTypeError']
# what code is most often guarded from
COMMON_EXC = ['ValueError', 'TypeError', 'KeyError', 'AttributeError', 'IndexError',
              'LookupError', 'RuntimeError', 'NotImplementedError', 'OSError', 'Exception']
PLAIN_EXC = [_ for _ in CB_EXC if _ not in ('StopIteration', 'StopAsyncIteration')]


POLICIES = ['geo', 'geo', 'pct', 'pct', 'focus', 'line', 'park', 'park', 'park',
            'spot', 'spot', 'spot', 'spot', 'spot', 'spot', 'duel', 'duel', 'duel']


LAYOUTS = ['lifo', 'fifo', 'random', 'down', 'scramble', 'low', 'high', 'hot', 'size', 'size',
           'sizerand']


def pick_site(rng, table, hot):
    """a site of an operation, more often next to a write"""
    r = rng.random()
    groups = hot[1] if r < 0.55 else hot[0] if r < 0.7 else None
    if not groups:
        return rng.randrange(len(table))
    if rng.random() < 0.5:
        return rng.choice(rng.choice(groups))
    return rng.choice([i for group in groups for i in group])


class Gen(object):
    """shared vocabulary of the plan generators"""

    def __init__(self, ctx, rng, prop):
        self.ctx = ctx
        self.rng = rng
        self.prop = prop
        self.short = False

    # ---- grammars and texts

    def names(self, k, share=True):
        """k grammar names, sharing parts with each other"""
        rng = self.rng
        if rng.random() < 0.25:
            seed = rng.randrange(600)
            pool = ['rnd:%d:t%d' % (seed, i) for i in range(2)]
        elif share:
            pool = rng.choice(catalog.GROUPS)
        else:
            pool = catalog.GRAMMARS
        if k == 1:
            return [rng.choice(pool)]
        if len(pool) >= k:
            names = rng.sample(pool, k)
            if rng.random() < 0.12:
                # one grammar is part of another
                names[-1] = 'wrap:%d:%s' % (rng.randrange(catalog.WRAPS), names[0])
            return names
        return [rng.choice(pool) for _ in range(k)]

    def spec(self, name, tok=None, tag=None, inst=0):
        rng = self.rng
        if tok is None and catalog.default_tok(name) == 'morph':
            tok = rng.choice(['morph', 'morph', 'morph', 'own', 'slow', rng.choice(
                ['memo', 'last', 'stem', 'hyph', 'words'])])
        if tag is None and catalog.default_tag(name) == 'none' and rng.random() < 0.2:
            tag = rng.choice(['pass', 'bio', 'comp', 'same', 'all', 'all.len', 'same.comp', 'bio.all'])
        return world.make_spec(name, tok, tag, inst)

    def text(self, spec):
        rng = self.rng
        name = spec.split('|')[0].split('~')[0]
        texts = catalog.texts_of(name)
        text = rng.choice(texts)
        r = rng.random()
        if self.short and r < 0.85:
            # a piece of it, runs are many times shorter
            words = text.split(' ')
            i = rng.randrange(len(words))
            return ' '.join(words[i:i + rng.choice([1, 1, 2])])
        if r < 0.15:
            text = text + ' ' + rng.choice(texts)
        if r < 0.04:
            text = text + rng.choice(['\n', ', ', ' ']) + rng.choice(texts)
        return text

    def ok(self, op):
        """is the operation small enough to be simulated"""
        return not self.ctx.solo(op).get('big')

    def parse(self, spec, methods=METHODS, op='parse', **extra):
        for _ in range(6):
            o = {'op': op, 'p': spec, 'm': self.rng.choice(methods),
                 't': self.text(spec)}
            o.update(extra)
            if self.ok(o):
                return o
        return {'op': 'gc'}

    def show(self, names, specs=()):
        rng = self.rng
        if specs and rng.random() < 0.3:
            return {'op': 'show', 'what': rng.choice(['bnf', 'dot']),
                    'p': rng.choice(specs)}
        name = rng.choice(names)
        parts = catalog.subparts(name)
        if parts and rng.random() < 0.3:
            name = rng.choice(parts)
        return {'op': 'show', 'what': rng.choice(['bnf', 'dot', 'ndot', 'repr']),
                'part': name}

    def trees(self, spec):
        o = {'op': 'trees', 'p': spec, 't': self.text(spec)}
        return o if self.ok(o) else {'op': 'gc'}

    def open(self, spec, slot, kinds=('extract', 'findall', 'tokens', 'tagged')):
        for _ in range(6):
            o = {'op': 'open', 's': slot, 'p': spec,
                 'k': self.rng.choice(kinds), 't': self.text(spec)}
            if self.ok(o):
                return o
        return {'op': 'gc'}

    # ---- sizes

    def steps(self, op):
        key = world.op_key(op)
        if key is None:
            return 60
        r = self.ctx.solo_key(key)
        return r.get('steps', 100) + (r.get('build_steps', 0)
                                      if op['op'] == 'x' else 0)

    def cbs(self, op):
        key = world.op_key(op)
        if key is None:
            return {}
        return self.ctx.solo_key(key).get('cb', {})

    # ---- schedules

    def sched(self, tasks, gran='line'):
        rng = self.rng
        est = sum(self.steps(op) for ops in tasks for op in ops)
        if gran == 'instr':
            est *= 8
        policy = rng.choice(POLICIES)
        if policy == 'duel':
            parks = self.duel(tasks, gran)
            if not parks:
                policy = 'geo'
            est = sum(self.steps(op) for ops in tasks for op in ops)
        conf = {'policy': policy, 'seed': rng.randrange(1 << 30), 'est': max(est, 20)}
        if policy == 'geo':
            conf['gap'] = rng.choice([2, 5, 20, 20, 100, 100, 400])
        elif policy == 'pct':
            conf['depth'] = rng.choice([1, 1, 2, 3, 5])
        elif policy in ('focus', 'line'):
            conf['sub'] = rng.choice([4, 8, 16] if policy == 'focus' else [8, 32, 128])
            conf['salt'] = rng.randrange(1 << 20)
            conf['p'] = rng.choice([0.2, 0.5, 0.9])
            conf['base_p'] = rng.choice([0.0, 0.002])
        elif policy == 'park':
            parks = []
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                t = rng.randrange(len(tasks))
                ops = [o for o in tasks[t] if world.op_key(o)]
                if not ops:
                    continue
                table, steps, hot = self.ctx.sites(rng.choice(ops), gran)
                if not table:
                    continue
                i = pick_site(rng, table, hot)
                n = len(steps[i])
                occ = rng.choice([0, 0, n - 1, rng.randrange(max(n, 1))])
                parks.append([t, table[i][0], table[i][1], max(occ, 0)])
            conf['parks'] = parks
        elif policy == 'duel':
            conf['parks'] = parks
        elif policy == 'spot':
            spots = set()
            for _ in range(rng.choice([2, 8, 16, 48])):
                ops = [o for o in rng.choice(tasks) if world.op_key(o)]
                if not ops:
                    continue
                table, steps, hot = self.ctx.sites(rng.choice(ops), gran)
                if table:
                    spots.add(tuple(table[pick_site(rng, table, hot)]))
            conf['spots'] = sorted(spots)
            conf['p'] = rng.choice([0.1, 0.3, 0.6, 1.0])
        return conf

    def duel(self, tasks, gran):
        """one task stops at many places, at each another task does one whole
        operation; there have to be enough of them"""
        rng = self.rng
        simple = [op for ops in tasks for op in ops
                  if op['op'] in ('parse', 'build', 'show') and not op.get('fault')
                  and world.op_key(op)]
        victim = rng.randrange(len(tasks))
        ops = [o for o in tasks[victim] if world.op_key(o)]
        if len(tasks) < 2 or not ops or not simple:
            return []
        k = rng.choice([4, 8, 12])
        every = rng.choice([1, 1, 2, 4])    # times at the same place
        parks = []
        for _ in range(k // every):
            table, steps, hot = self.ctx.sites(rng.choice(ops), gran)
            if not table:
                continue
            i = pick_site(rng, table, hot)
            n = len(steps[i])
            for _ in range(every):
                occ = rng.choice([0, n - 1, rng.randrange(max(n, 1))])
                parks.append([victim, table[i][0], table[i][1], max(occ, 0)])
        others = [t for t in range(len(tasks)) if t != victim]
        while sum(len(tasks[t]) for t in others) < k:
            op = min([rng.choice(simple) for _ in range(2)], key=self.steps)
            tasks[rng.choice(others)].append(dict(op))
        return parks

    def env(self, gran=None, cache=True, alloc=False):
        rng = self.rng
        env = {}
        env['gran'] = gran or ('instr' if rng.random() < 0.15 else 'line')
        if cache and rng.random() < 0.3:
            env['cache'] = rng.choice([1, 2, 5])
        if alloc and rng.random() < 0.5:
            env['alloc'] = rng.choice(LAYOUTS)
            env['alloc_seed'] = rng.randrange(1 << 20)
        return env

    def benign(self, op, p=0.3):
        """stalls and collections inside callbacks of the operation"""
        rng = self.rng
        if rng.random() > p or 'fault' in op:
            return op
        cbs = self.cbs(op)
        if not cbs:
            return op
        faults = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            cb = rng.choice(sorted(cbs))
            kind = rng.choice(['stall', 'stall', 'gc'])
            f = {'kind': kind, 'cb': cb, 'n': 1 + rng.randrange(cbs[cb])}
            if kind == 'stall':
                f['dt'] = rng.choice([0.001, 0.5, 30.0, 3600.0])
            faults.append(f)
        op['fault'] = {'kind': 'many', 'list': faults}
        return op

    def async_fault(self, op, gran='line'):
        """an outside exception at a site of the operation"""
        rng = self.rng
        table, steps, hot = self.ctx.sites(op)
        exc = rng.choice(ASYNC_KINDS)
        if not table:
            return op
        r = rng.random()
        if r < 0.8:
            s = steps[pick_site(rng, table, hot) if r < 0.5 else rng.randrange(len(table))]
            at = s[rng.choice([0, len(s) - 1, rng.randrange(len(s))])]
        else:
            at = 1 + rng.randrange(sum(len(s) for s in steps))
        return dict(op, fault={'kind': 'async', 'exc': exc, 'at': at})

    def fail_fault(self, op, kinds=None):
        rng = self.rng
        cbs = {k: n for k, n in self.cbs(op).items() if not kinds or k in kinds}
        if not cbs:
            return None
        cb = rng.choice(sorted(cbs))
        # errors that end iteration are the business of C08 alone
        excs = CB_EXC if self.prop == 'C08' else PLAIN_EXC
        if rng.random() < 0.4:
            excs = COMMON_EXC
        return dict(op, fault={'kind': 'fail', 'cb': cb,
                               'n': 1 + rng.randrange(cbs[cb]),
                               'exc': rng.choice(excs)})


def finish(g, plan):
    tasks = plan.get('tasks', [])
    est = sum(g.steps(op) for ops in [plan.get('pre', []), plan.get('post', [])] + tasks
              for op in ops)
    plan['cap'] = plan.get('cap', 0) + 400000 + 60 * est * (8 if plan['env'].get('gran') == 'instr' else 1)
    return plan


# ------------------------------------------------------------ generators

def gen_C01(g):
    rng = g.rng
    env = g.env()
    names = g.names(rng.choice([1, 1, 1, 2]))
    g.short = rng.random() < 0.3
    if g.short and rng.random() < 0.5:
        names[0] = rng.choice(catalog.PREDS)
    specs = [g.spec(n) for n in names]
    ntasks = rng.choice([2, 2, 2, 3, 4])
    pre = [{'op': 'build', 'p': s} for s in specs]
    tasks = []
    for t in range(ntasks):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3]) * (2 if g.short else 1)):
            spec = rng.choice(specs)
            r = rng.random()
            if r < 0.75:
                op = g.benign(g.parse(spec))
            elif r < 0.9:
                op = g.parse(spec, op='hold', s='h%d' % t)
                ops.append(op)
                op = {'op': 'read', 's': 'h%d' % t, 'rev': rng.random() < 0.5}
            else:
                op = {'op': 'parse', 'p': spec, 'm': rng.choice(['tokens', 'tagged', 'split']),
                      't': g.text(spec)}
            ops.append(op)
        tasks.append(ops)
    post = [g.parse(rng.choice(specs)) for _ in range(2)]
    return {'env': env, 'pre': pre, 'tasks': tasks, 'post': post,
            'sched': g.sched(tasks, env['gran'])}


def gen_C02(g):
    rng = g.rng
    env = g.env()
    k = rng.choice([1, 1, 2, 2, 3])
    names = g.names(k)
    ntasks = rng.choice([2, 2, 3])
    pre = []
    specs = []
    for n in names:
        for inst in range(ntasks):
            tok = rng.choice([None, None, 'rules', 'slow', 'hyph', 'words', 'stem', 'last'])
            if catalog.default_tok(n) != 'morph':
                tok = None
            specs.append(world.make_spec(n, tok, None, inst))
    pre.append({'op': 'parts', 'ps': specs})
    warm = []
    if rng.random() < 0.3:
        warm = [rng.choice(specs).rsplit('|', 1)[0] + '|9']
        pre.append({'op': 'build', 'p': warm[0]})
    tasks = []
    for t in range(ntasks):
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            r = rng.random()
            spec = rng.choice([s for s in specs if s.endswith('|%d' % t)])
            if r < 0.7:
                ops.append({'op': 'build', 'p': spec})
                ops.append(g.parse(spec))
            elif r < 0.9:
                ops.append(g.show(names))
            elif warm:
                ops.append(g.parse(warm[0]))
            else:
                ops.append(g.show(names))
        tasks.append(ops)
    post = [g.parse(s) for s in rng.sample(specs, min(2, len(specs)))]
    post.append(g.show(names))
    if warm:
        post.append(g.parse(warm[0]))
    return {'env': env, 'pre': pre, 'tasks': tasks, 'post': post,
            'sched': g.sched(tasks, env['gran'])}


def gen_C03(g):
    rng = g.rng
    env = g.env(gran='line', alloc=True)
    names = g.names(rng.choice([1, 2, 2, 3]))
    pre = []
    specs = []
    for i in range(rng.choice([3, 4, 6, 8, 12])):
        r = rng.random()
        if r < 0.35 or not specs:
            n = rng.choice(names)
            tok = None
            if catalog.default_tok(n) == 'morph' and rng.random() < 0.5:
                tok = rng.choice(['rules', 'slow', 'own', 'noeol', 'morph+b', 'hyph', 'words',
                                  'last', 'memo', 'stem', 'stem', 'words'])
            elif rng.random() < 0.25:
                tok = rng.choice(['tiny', 'nopunct', 'noru', 'plain', 'tinyplain', 'morph', 'rules'])
            tag = rng.choice([None, None, None, 'pass', 'same', 'all', 'same.all'])
            spec = world.make_spec(n, tok, tag, i)
            pre.append({'op': 'build', 'p': spec})
            specs.append(spec)
            if 'err' in (g.ctx.solo({'op': 'build', 'p': spec}).get('outcome') or {}):
                # this tokenizer does not do, and must not each time
                specs.pop()
            elif rng.random() < 0.5:
                pre.append(g.parse(spec))
        elif r < 0.65:
            pre.append(g.show(names, specs))
        elif r < 0.9:
            pre.append(g.parse(rng.choice(specs)))
        elif r < 0.93:
            pre.append(g.trees(rng.choice(specs)))
        elif r < 0.97 and len(specs) > 1:
            s = specs.pop(rng.randrange(len(specs)))
            pre.append({'op': 'drop_parser', 'p': s})
        else:
            pre.append({'op': 'gc'})
    post = [g.parse(s) for s in specs[:4]]
    post.append(g.show(names))
    spec = world.make_spec(rng.choice(names), None, None, 99)
    post += [{'op': 'build', 'p': spec}, g.parse(spec)]
    return {'env': env, 'pre': pre, 'tasks': [], 'post': post}


def gen_C04(g):
    rng = g.rng
    if rng.random() < 0.35:
        return gen_locality(g)
    env = g.env()
    names = g.names(rng.choice([1, 1, 2]))
    specs = [g.spec(n) for n in names]
    pre = [{'op': 'build', 'p': s} for s in specs]
    slots = []
    ntasks = rng.choice([1, 1, 2, 3])
    tasks = []
    for t in range(ntasks):
        ops = []
        mine = []
        for i in range(rng.choice([2, 4, 6])):
            spec = rng.choice(specs)
            r = rng.random()
            if r < 0.4 or not (mine or slots):
                s = 's%d.%d' % (t, i)
                ops.append(g.parse(spec, op='hold', s=s))
                mine.append(s)
            elif r < 0.7:
                ops.append({'op': 'read', 's': rng.choice(mine + slots),
                            'rev': rng.random() < 0.5})
            elif r < 0.8:
                ops.append({'op': 'mut', 's': rng.choice(mine + slots),
                            'i': rng.randrange(5)})
            elif r < 0.87:
                ops.append({'op': 'retree', 's': rng.choice(mine + slots)})
            elif r < 0.95:
                ops.append(g.parse(spec))
            else:
                ops.append({'op': 'gc'})
        slots += mine
        tasks.append(ops)
    post = [{'op': 'read', 's': s, 'rev': rng.random() < 0.5} for s in slots]
    post += [g.parse(rng.choice(specs))]
    return {'env': env, 'pre': pre, 'tasks': tasks, 'post': post,
            'sched': g.sched(tasks, env['gran'])}


def gen_locality(g):
    rng = g.rng
    name = g.names(1, share=False)[0]
    tag = catalog.default_tag(name)
    spec = world.make_spec(name, 'list', tag)
    if catalog.default_tok(name) != 'morph':
        return None
    o = g.parse(spec, methods=['extract'])
    if o['op'] == 'gc':
        return None
    ops = [dict(op='local', p=spec, t=o['t'],
                order=rng.choice(['eager', 'late', 'reverse']))]
    plan = {'env': g.env(gran='line', cache=False), 'pre': ops, 'tasks': [], 'post': []}
    # all stretches are parsed alone
    n = len(o['t'].split()) + len(o['t']) // 3 + 2
    plan['cap'] = 1000000 + 20 * n * n * g.steps(o)
    return plan


def gen_C05(g):
    rng = g.rng
    env = g.env()
    names = g.names(rng.choice([1, 1, 2]))
    specs = [g.spec(n) for n in names]
    pre = [{'op': 'build', 'p': s} for s in specs]
    shared = []
    for i in range(rng.choice([0, 1, 2])):
        s = 'g%d' % i
        pre.append(g.open(rng.choice(specs), s))
        if rng.random() < 0.5:
            pre.append({'op': 'next', 's': s, 'n': rng.choice([1, 2])})
        shared.append(s)
    ntasks = rng.choice([1, 2, 2, 3])
    tasks = []
    mine_all = []
    for t in range(ntasks):
        ops = []
        mine = []
        for i in range(rng.choice([3, 5, 8])):
            r = rng.random()
            if r < 0.3 or not (mine or shared):
                s = 'i%d.%d' % (t, i)
                ops.append(g.open(rng.choice(specs), s))
                mine.append(s)
            elif r < 0.8:
                ops.append({'op': 'next', 's': rng.choice(mine + shared),
                            'n': rng.choice([1, 1, 2, 9])})
            elif r < 0.86:
                ops.append({'op': 'close', 's': rng.choice(mine + shared)})
            elif r < 0.9:
                ops.append({'op': 'drop', 's': rng.choice(mine + shared)})
            elif r < 0.97:
                ops.append(g.parse(rng.choice(specs)))
            else:
                ops.append({'op': 'gc'})
        tasks.append(ops)
        mine_all += mine
    post = [{'op': 'next', 's': s, 'n': 99} for s in shared + mine_all]
    post += [g.parse(rng.choice(specs))]
    return {'env': env, 'pre': pre, 'tasks': tasks, 'post': post,
            'sched': g.sched(tasks, env['gran'])}


def gen_C06(g):
    rng = g.rng
    env = g.env(gran='line')
    names = g.names(rng.choice([1, 1, 2]))
    specs = [g.spec(n) for n in names]
    pre = [{'op': 'build', 'p': s} for s in specs]
    held = []
    if rng.random() < 0.4:
        pre.append(g.parse(rng.choice(specs), op='hold', s='h0'))
        held.append('h0')
    if rng.random() < 0.3:
        pre.append(g.parse(rng.choice(specs)))
    victims = []
    ntasks = rng.choice([1, 1, 1, 2, 2, 3])
    tasks = []
    if rng.random() < 0.06:
        # the same thing is interrupted again and again
        small = [o for o in (g.parse(rng.choice(specs)) for _ in range(4))
                 if o['op'] == 'parse' and g.steps(o) < 20000]
        if small:
            small = small[:rng.choice([1, 1, 2])]
            ops = []
            for i in range(rng.choice([20, 40, 70])):
                op = rng.choice(small)
                ops.append(g.async_fault(op))
                if rng.random() < 0.1:
                    ops.append(op)
            victims += small
            ntasks = rng.choice([0, 0, 1])
            tasks.append(ops)
    for t in range(ntasks):
        ops = []
        for i in range(rng.choice([1, 2, 3])):
            op = g.parse(rng.choice(specs))
            if op['op'] == 'parse' and (rng.random() < 0.7 or (t == 0 and i == 0)):
                victims.append(op)
                ops.append(g.async_fault(op))
                if rng.random() < 0.3:
                    ops.append(op)
            else:
                ops.append(op)
        if held and rng.random() < 0.3:
            ops.append({'op': 'read', 's': 'h0'})
        tasks.append(ops)
    post = [dict(v) for v in victims[:3]]
    post += [{'op': 'read', 's': s} for s in held]
    for v in victims[:1]:
        post.append(dict(v, m=rng.choice(METHODS)))
    post = [o for o in post if o['op'] != 'parse' or g.ok(o)]
    if rng.random() < 0.5:
        spec = world.make_spec(rng.choice(names), None, None, 7)
        post += [{'op': 'build', 'p': spec}, g.parse(spec)]
    else:
        post.append(g.parse(rng.choice(specs)))
    return {'env': env, 'pre': pre, 'tasks': tasks, 'post': post,
            'sched': g.sched(tasks)}


def gen_C07(g):
    rng = g.rng
    env = g.env(gran='line', alloc=True)
    names = g.names(rng.choice([1, 1, 2]))
    pre = []
    old = None
    if rng.random() < 0.5:
        old = world.make_spec(rng.choice(names), None, None, 8)
        pre.append({'op': 'build', 'p': old})
    tasks = []
    victims = []
    ntasks = rng.choice([1, 1, 1, 2])
    specs = []
    for n in names:
        specs.append(g.spec(n))
    pre.append({'op': 'parts', 'ps': specs})
    for t in range(ntasks):
        ops = []
        for i in range(rng.choice([1, 2, 3])):
            r = rng.random()
            if r < 0.6:
                op = {'op': 'build', 'p': rng.choice(specs)}
            elif r < 0.9 or old is None:
                op = g.show(names)
            elif r < 0.95:
                op = g.trees(old)
            else:
                op = {'op': 'show', 'what': rng.choice(['bnf', 'dot']), 'p': old}
            if op['op'] == 'gc':
                continue
            victims.append(op)
            ops.append(g.async_fault(op))
            if rng.random() < 0.3:
                ops.append({'op': 'gc'})
        tasks.append(ops)
    post = []
    order = list(victims)
    rng.shuffle(order)
    for v in order[:3]:
        post.append(v)
        if v['op'] == 'build':
            post.append(g.parse(v['p']))
    for s in specs:
        s = s.rsplit('|', 1)[0] + '|5'
        post += [{'op': 'build', 'p': s}, g.parse(s)]
    post.append(g.show(names))
    if old:
        post.append(g.parse(old))
    return {'env': env, 'pre': pre, 'tasks': tasks, 'post': post,
            'sched': g.sched(tasks)}


CALLBACK_GRAMMARS = ['date', 'money', 'amount', 'consts', 'preds', 'singles',
                     'userrel', 'tagged', 'tagged2', 'nested', 'steel2',
                     'inherit', 'person', 'names', 'gazet', 'items', 'chains', 'dicts2',
                     'oddnouns', 'tworel', 'hyphens', 'custpreds', 'ownpred', 'relcomp',
                     'factclass']


def gen_C08(g):
    rng = g.rng
    env = g.env(gran='line')
    if env.get('cache') is None and rng.random() < 0.5:
        env['cache'] = rng.choice([1, 2, 5])
    specs = []
    for _ in range(rng.choice([1, 1, 2])):
        n = rng.choice(CALLBACK_GRAMMARS) if rng.random() < 0.85 else g.names(1)[0]
        tok = None
        if catalog.default_tok(n) == 'morph':
            tok = rng.choice(['morph', 'slow', 'slow', 'own', 'last', 'stem', 'memo'])
        tag = catalog.default_tag(n)
        if tag == 'none' and rng.random() < 0.3:
            tag = rng.choice(['bio', 'comp', 'all', 'same', 'all.len', 'same.comp', 'bio.all'])
        specs.append(world.make_spec(n, tok, tag))
    pre = []
    build_victims = []
    for s in specs:
        op = {'op': 'build', 'p': s}
        if rng.random() < 0.3:
            f = g.fail_fault(op)
            if f:
                pre.append({'op': 'parts', 'ps': [s]})
                pre.append(f)
        pre.append(op)
    tasks = []
    victims = []
    for t in range(rng.choice([1, 1, 1, 2, 3])):
        ops = []
        for i in range(rng.choice([1, 2, 3])):
            op = g.parse(rng.choice(specs))
            f = None
            if op['op'] == 'parse':
                f = g.fail_fault(op)
            if f:
                victims.append(op)
                ops.append(f)
                if rng.random() < 0.5:
                    ops.append(op)
            else:
                ops.append(op)
        tasks.append(ops)
    post = [dict(v) for v in victims[:4]]
    post.append(g.parse(rng.choice(specs)))
    return {'env': env, 'pre': pre, 'tasks': tasks, 'post': post,
            'sched': g.sched(tasks)}


AMBIGUOUS = ['ambig', 'ambig', 'optreps', 'optreps2', 'expr', 'squash1', 'squash2', 'squash3',
             'squash4', 'squash5', 'reversed_rep', 'bounded']


def churn(g):
    """a few small things done over and over: what is dropped makes room"""
    rng = g.rng
    r = rng.random()
    if r < 0.5:
        names = [rng.choice(AMBIGUOUS)]
    else:
        names = [rng.choice(RELATION_GRAMMARS)]
    if rng.random() < 0.3:
        names += g.names(1)
    specs = []
    for n in names:
        tok = None
        if catalog.default_tok(n) == 'morph' and rng.random() < 0.5:
            tok = rng.choice(['raw', 'raw', 'slow', 'last'])
        specs.append(world.make_spec(n, tok))
    pre = [{'op': 'build', 'p': s} for s in specs]
    pool = []
    for s in specs:
        texts = sorted(catalog.texts_of(s.split('|')[0]), key=len)
        texts = texts[:rng.choice([2, 4, 99])]
        for t in texts:
            for m in rng.sample(['match', 'find', 'findall', 'extract'], 2):
                o = {'op': 'parse', 'p': s, 'm': m, 't': t}
                if len(t) < 60 and g.ok(o):
                    pool.append(o)
    for _ in range(rng.choice([20, 40, 80, 120])):
        if pool:
            pre.append(rng.choice(pool))
    return pre


def gen_C09(g):
    rng = g.rng
    names = g.names(rng.choice([1, 2, 2, 3]))
    specs = [world.make_spec(n) for n in names]
    if rng.random() < 0.4:
        return variants_of(g, churn(g))
    pre = [{'op': 'parts', 'ps': specs}]
    for s in specs:
        pre.append({'op': 'build', 'p': s})
    for s in specs:
        name = s.split('|')[0]
        texts = list(catalog.texts_of(name))
        if rng.random() < 0.5:
            texts.append(' '.join(rng.choice(texts) for _ in range(2)))
        for t in texts:
            o = {'op': 'parse', 'p': s, 'm': rng.choice(
                ['findall', 'extract', 'extract', 'match', 'find', 'reprs']), 't': t}
            if g.ok(o):
                pre.append(o)
        for what in ('bnf', 'dot', 'ndot'):
            if rng.random() < 0.6:
                pre.append({'op': 'show', 'what': what, 'part': name})
        pre.append({'op': 'show', 'what': rng.choice(['bnf', 'dot']), 'p': s})
        if rng.random() < 0.5:
            pre.append(g.trees(s))
        if rng.random() < 0.3:
            pre.append({'op': 'gc'})
        if rng.random() < 0.3:
            # garbage between uses: addresses get reused
            again = s.rsplit('|', 1)[0] + '|%d' % rng.randrange(1, 4)
            pre += [{'op': 'build', 'p': again}, {'op': 'drop_parser', 'p': again}]
    return variants_of(g, pre)


def variants_of(g, pre):
    rng = g.rng
    layouts = [None, None] + LAYOUTS
    variants = []
    for _ in range(3):
        variants.append({'hashseed': rng.randrange(HASH_WORKERS),
                         'alloc': rng.choice(layouts), 'alloc_seed': rng.randrange(1 << 20),
                         'gc': rng.choice([0, 0, 1]),
                         'cache': rng.choice([None, None, 1, 2, 3])})
    variants[0]['alloc'] = variants[0]['cache'] = None
    while variants[1]['hashseed'] == variants[0]['hashseed']:
        variants[1]['hashseed'] = rng.randrange(HASH_WORKERS)
    return {'kind': 'hash', 'env': {'gran': None}, 'pre': pre, 'tasks': [],
            'post': [], 'variants': variants}


HASH_WORKERS = 8

WORDS = ['мама', 'Мама', 'стали', 'Стали', 'Иван', 'иван', 'ИВАН', 'И', 'и', 'А', 'а',
         'стол', 'дом', 'дома', 'мыла', 'мыло', 'Москва', 'москва', 'ё', 'ёж', 'еж',
         'ель', 'Лев', 'лев', 'кот', 'Кот', 'КОТ', 'бутявка', 'хлюпнутый', 'три', 'два',
         'человек', 'люди', 'рой', 'суда', 'банка', 'пила', 'пили', 'Пили', 'XX', 'a',
         'весь', 'её', 'ее', 'Вася', 'вася', 'ООО', 'ооо', 'км', 'т', 'г', 'Г', 'ст']


def gen_C10(g):
    rng = g.rng
    env = {'gran': 'instr' if rng.random() < 0.3 else 'line'}
    if rng.random() < 0.8:
        env['cache'] = rng.choice([1, 1, 2, 2, 3, 5, 8])
    pre = []
    names = []
    for i in range(rng.choice([1, 2, 2, 3, 4])):
        name = rng.choice('catu') + str(i)
        pre.append({'op': 'new', 'a': name, 'tweak': rng.choice(
            [None, None, 'rev', 'first', 'last', 'known', 'infl'])})
        names.append(name)
    pool = rng.sample(WORDS, rng.choice([2, 4, 8, 16]))
    ntasks = rng.choice([1, 1, 2, 2, 3])
    total = rng.choice([10, 30, 60])
    if ntasks == 1 and rng.random() < 0.08:
        # a long history with really many words and the cache as shipped
        env.pop('cache', None)
        env['gran'] = 'line'
        total = 400
        pool = list(WORDS)

    # some runs do mostly one thing
    only = rng.choice([None, None, None, 0.1, 0.6, 0.6, 0.8])

    def op():
        r = only if only is not None and rng.random() < 0.8 else rng.random()
        a = rng.choice(names)
        if r < 0.55:
            o = {'op': 'word', 'a': a, 'w': rng.choice(pool)}
            n = 1
        elif r < 0.65:
            o = {'op': 'norm', 'a': a, 'w': rng.choice(pool)}
            n = 1
        elif r < 0.93:
            k = rng.choice([1, 3, 6])
            o = {'op': 'text', 'a': a, 't': rng.choice([' ', ', ', '-', '\n', '12 ']).join(
                rng.choice(pool) for _ in range(k))}
            n = k
        elif r < 0.95:
            return {'op': 'gc'}
        elif r < 0.97:
            return {'op': 'recheck'}
        elif r < 0.985:
            return {'op': 'forget', 'a': a}
        else:
            return {'op': 'new', 'a': a, 'tweak': rng.choice([None, 'rev', 'first', 'infl'])}
        r = rng.random()
        if r < 0.2:
            o['fault'] = {'kind': 'fail', 'cb': 'morph', 'n': 1 + rng.randrange(n),
                          'exc': rng.choice(PLAIN_EXC)}
        elif r < 0.3:
            o['fault'] = {'kind': 'async', 'exc': rng.choice(ASYNC_KINDS),
                          'at': 1 + rng.randrange(12 * n)}
        elif r < 0.4:
            o['fault'] = {'kind': 'many', 'list': [
                {'kind': 'stall', 'cb': 'morph', 'n': 1 + rng.randrange(n),
                 'dt': rng.choice([0.01, 5.0])}]}
        elif r < 0.5:
            # the analyser is asked again while it is being asked
            o['fault'] = {'kind': 'many', 'list': [
                {'kind': 'reenter', 'cb': 'morph', 'n': 1 + rng.randrange(n),
                 'ops': [{'op': 'word', 'a': rng.choice(names), 'w': rng.choice(pool)}]}]}
        return o
    tasks = []
    for t in range(ntasks):
        ops = []
        for _ in range(max(2, total // ntasks)):
            o = op()
            if ntasks > 1 and o['op'] in ('new', 'forget'):
                continue
            ops.append(o)
            if 'fault' in o and rng.random() < 0.6:
                ops.append({k: v for k, v in o.items() if k != 'fault'})
        tasks.append(ops)
    post = [{'op': 'recheck'}]
    for a in names:
        for w in pool[:6]:
            post.append({'op': 'word', 'a': a, 'w': w})
    est = 25 * sum(len(_) for _ in tasks)
    sched = {'policy': rng.choice(['geo', 'geo', 'pct', 'focus', 'line']),
             'seed': rng.randrange(1 << 30),
             'est': est * (6 if env['gran'] == 'instr' else 1),
             'gap': rng.choice([1, 3, 10, 40]), 'depth': rng.choice([1, 2, 3]),
             'sub': rng.choice([2, 4, 8]), 'salt': rng.randrange(1 << 20),
             'p': rng.choice([0.2, 0.5, 0.9]), 'base_p': 0.01}
    return {'kind': 'morph', 'env': env, 'pre': pre, 'tasks': tasks, 'post': post,
            'sched': sched}


RULE_SPECS = ['EMAIL', 'PHONE', ['DATE', r'\d+\.\d+'], ['ID', r'[a-z]\d+'],
              ['HASH', r'#\w+'], ['INT', r'\d\d'], ['RU', r'[а-я]'], ['SPACE', r'\s+'],
              ['URL', r'https?://\S+'], ['GRP', r'(a|b)c'], ['ОТВЕТ', r'да|нет'],
              ['WORD', r'\w+'], ['X', r'x(?=y)'], ['EOL2', r'\n\n']]

TOK_TEXTS = ['мама мыла раму 12.5 раз', 'a@b.ru, +7 913 123 45 67', 'x1 y2 xy #tag да',
             'abc ac bc 1234', 'дом\n\nстол', 'http://a.b/c нет', '', '№5 — «ок»',
             'a b c 1 2 3 . , !', 'ДА Нет дАх 99.99']


def gen_C11(g):
    rng = g.rng
    env = {'gran': 'line'}
    lists = {}
    for i in range(rng.choice([1, 2, 3])):
        specs = rng.sample(RULE_SPECS, rng.choice([1, 2, 3, 5]))
        if rng.random() < 0.7 and 'WORD' not in [s[0] for s in specs]:
            specs = specs + [['WORD', r'\w+']]
        lists['L%d' % i] = specs
    ntasks = rng.choice([1, 1, 2, 3])
    pre, tasks, post = [], [], []
    shared = []
    for i in range(rng.choice([1, 2])):
        a = 'p%d' % i
        pre.append({'op': 'new', 'a': a, 'morph': rng.random() < 0.5,
                    'list': rng.choice([None, None] + sorted(lists))})
        if rng.random() < 0.5:
            pre.append({'op': 'open', 'a': a, 's': 's' + a, 't': rng.choice(TOK_TEXTS)})
        shared.append(a)
    for t in range(ntasks):
        ops = []
        mine, streams = [], []
        if ntasks == 1:
            mine += shared
            streams += ['s' + a for a in shared]
        for i in range(rng.choice([5, 10, 20])):
            r = rng.random()
            if r < 0.12 or not mine:
                a = 't%d.%d' % (t, i)
                ops.append({'op': 'new', 'a': a, 'morph': rng.random() < 0.4,
                            'list': rng.choice([None, None] + sorted(lists))})
                mine.append(a)
                continue
            a = rng.choice(mine)
            reader = rng.choice(mine + shared)
            if r < 0.24:
                ops.append({'op': 'add', 'a': a, 'rules': rng.sample(
                    RULE_SPECS, rng.choice([1, 1, 2]))})
                if not allowed(ops, pre, lists, a):
                    ops.pop()
            elif r < 0.34:
                ops.append({'op': 'remove', 'a': a, 'types': rng.sample(
                    ['EOL', 'INT', 'LATIN', 'RU', 'OTHER', 'PUNCT', 'EMAIL', 'WORD', 'DATE'],
                    rng.choice([1, 1, 2]))})
            elif r < 0.4:
                ops.append({'op': 'reset', 'a': a,
                            'list': rng.choice([None, None] + sorted(lists))})
            elif r < 0.52:
                ops.append({'op': 'bad', 'a': a, 'what': rng.choice(
                    ['notrule', 'pattern', 'unknown', 'reset', 'resetnot', 'new'])})
            elif r < 0.68:
                ops.append({'op': 'split', 'a': reader, 't': rng.choice(TOK_TEXTS),
                            'how': rng.choice(['split', 'call'])})
            elif r < 0.78:
                s = 'o%d.%d' % (t, i)
                ops.append({'op': 'open', 'a': reader, 's': s, 't': rng.choice(TOK_TEXTS)})
                streams.append(s)
            elif r < 0.92 and streams:
                ops.append({'op': 'next', 's': rng.choice(streams),
                            'n': rng.choice([1, 1, 2, 99])})
            elif r < 0.96:
                ops.append({'op': 'parse', 'a': reader, 'type': rng.choice(
                    ['EMAIL', 'INT', 'RU', 'WORD', 'LATIN']), 't': rng.choice(TOK_TEXTS)})
            else:
                ops.append({'op': 'config', 'a': a})
        for s in streams:
            ops.append({'op': 'next', 's': s, 'n': 99})
        for a in mine:
            ops.append({'op': 'config', 'a': a})
            ops.append({'op': 'split', 'a': a, 't': rng.choice(TOK_TEXTS), 'how': 'call'})
        tasks.append(ops)
    for a in shared:
        post.append({'op': 'split', 'a': a, 't': rng.choice(TOK_TEXTS), 'how': 'call'})
    post.append({'op': 'new', 'a': 'last', 'morph': False, 'list': None})
    post.append({'op': 'split', 'a': 'last', 't': rng.choice(TOK_TEXTS), 'how': 'call'})
    for name in sorted(lists):
        post.append({'op': 'new', 'a': 'l' + name, 'morph': False, 'list': name})
        post.append({'op': 'split', 'a': 'l' + name, 't': rng.choice(TOK_TEXTS), 'how': 'call'})
    sched = {'policy': rng.choice(['geo', 'geo', 'pct', 'focus']),
             'seed': rng.randrange(1 << 30), 'est': 2500,
             'gap': rng.choice([2, 10, 40, 200]), 'depth': rng.choice([1, 2, 3, 5]),
             'sub': rng.choice([2, 4, 8]), 'salt': rng.randrange(1 << 20),
             'p': rng.choice([0.2, 0.5]), 'base_p': 0.01}
    return {'kind': 'tok', 'env': env, 'pre': pre, 'tasks': tasks, 'post': post,
            'sched': sched, 'lists': lists}


def allowed(ops, pre, lists, a):
    """the same rule object twice in one tokenizer is no use of interest: it
    is rejected for the name of its group"""
    rules = []
    for o in pre + ops:
        if o.get('a') != a:
            continue
        if o['op'] in ('new', 'reset'):
            rules = list(lists[o['list']]) if o.get('list') else []
        elif o['op'] == 'add':
            rules += o['rules']
    keys = [str(_) for _ in rules]
    return len(keys) == len(set(keys))


def gen_C12(g):
    rng = g.rng
    env = g.env(gran='line' if rng.random() < 0.7 else 'instr', cache=False)
    names = g.names(rng.choice([1, 2, 2]))
    specs = [world.make_spec(n) for n in names]
    pre = [{'op': 'build', 'p': s} for s in specs]

    few = []

    def target():
        if few and rng.random() < 0.3:
            # the same graph object as before
            o = dict(rng.choice(few))
            return o
        o = new_target()
        if rng.random() < 0.4:
            o['keep'] = rng.choice('ab')
            few.append(dict(o))
        return o

    def new_target():
        r = rng.random()
        if r < 0.4:
            return {'op': 'svg', 'part': rng.choice(names)}
        if r < 0.7:
            return {'op': 'svg', 'p': rng.choice(specs)}
        s = rng.choice(specs)
        return {'op': 'svg', 'p': s, 't': g.text(s)}

    def behaviour():
        r = rng.random()
        if r < 0.2:
            return {'spawn': rng.choice([['FileNotFoundError', 2], ['PermissionError', 13],
                                         ['OSError', 12], ['OSError', 24],
                                         ['BlockingIOError', 11], ['OSError', 7],
                                         ['NotADirectoryError', 20], ['OSError', 8]])}
        if r < 0.7:
            b = {'rc': rng.choice([1, 1, 2, 3, 126, 127, 255, -1, -2, -6, -9, -11, -13, -15])}
            cut = rng.choice([None, None, 0, 0.3, 0.7, 0.999])
            if cut is not None:
                b['cut'] = cut
            if rng.random() < 0.5:
                b['stderr'] = rng.choice(['Error: syntax error in line 1', 'Segmentation fault',
                                          'out of memory', 'Warning: x'])
            if rng.random() < 0.15:
                b['bad_stderr'] = True
            if rng.random() < 0.2:
                b['epipe'] = True
            return b
        if r < 0.8:
            return {'garble': True}
        if r < 0.9:
            return {'oserror': True}
        return {'delay': rng.choice([0.01, 2.0]),
                'rc': rng.choice([1, -9]), 'cut': rng.choice([0, 0.5, 1])}

    def benign():
        r = rng.random()
        if r < 0.5:
            return None
        if r < 0.75:
            return {'delay': rng.choice([0.001, 0.5, 4.0, 4.0, 40.0, 400.0, 1e5])}
        return {'stderr': rng.choice(['Warning: node size too small', 'Fontconfig error',
                                      'Error: Pango', 'x' * 3000,
                                      'x' * 70000 if rng.random() < 0.1 else 'Warning'])}
    ntasks = rng.choice([1, 1, 2, 2, 3])
    tasks = []
    for t in range(ntasks):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            o = target()
            if not g.ok(o):
                continue
            if rng.random() < 0.55:
                ops.append(dict(o, dot=behaviour()))
                if rng.random() < 0.6:
                    b = benign()
                    ops.append(dict(o, dot=b) if b else o)
            else:
                b = benign()
                ops.append(dict(o, dot=b) if b else o)
            if rng.random() < 0.15 and ops:
                ops[-1] = g.async_fault(dict(ops[-1]))
        tasks.append(ops)
    post = []
    for ops in tasks:
        for o in ops[:2]:
            post.append({k: v for k, v in o.items() if k not in ('dot', 'fault')})
    post.append(g.parse(rng.choice(specs)))
    return {'env': env, 'pre': pre, 'tasks': tasks, 'post': post,
            'sched': g.sched(tasks, env['gran'])}


def gen_C13(g):
    rng = g.rng
    env = {'gran': None, 'cache': 20}
    name = g.names(1, share=False)[0] if rng.random() < 0.8 else rng.choice(CALLBACK_GRAMMARS)
    spec = g.spec(name).replace('|memo|', '|morph|')    # keeps texts itself
    if rng.random() < 0.35:
        op = {'op': 'weak', 'p': world.make_spec(name), 'ts': list(catalog.texts_of(name))[:3]}
        o = {'op': 'parse', 'p': op['p'], 'm': 'findall', 't': op['ts'][0]}
        r = rng.random()
        if r < 0.3:
            f = g.fail_fault(o)
            if f:
                op['fault'] = f['fault']
        elif r < 0.6:
            op['fault'] = g.async_fault(o).get('fault')
            if op['fault'] is None:
                del op['fault']
        if rng.random() < 0.5:
            op['show'] = True
        env['gran'] = 'line'
        return {'kind': 'grow', 'env': env, 'pre': [op] * 2, 'tasks': [], 'post': []}
    acts = []
    far = 12000
    events = False
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(['parse', 'parse', 'words', 'words', 'abandon', 'abandon', 'build',
                           'rebuild', 'show', 'analyzer', 'tokenizer', 'mut', 'fail',
                           'fail', 'async'])
        act = {'act': kind, 'p': spec, 'm': rng.choice(METHODS), 't': g.text(spec)}
        o = {'op': 'parse', 'p': spec, 'm': act['m'], 't': act['t']}
        if not g.ok(o):
            act['t'] = catalog.texts_of(name)[0]
            o['t'] = act['t']
        if kind in ('fail', 'async'):
            f = g.fail_fault(o) if kind == 'fail' else g.async_fault(o)
            act['act'] = 'parse'
            if f and f.get('fault'):
                act['fault'] = f['fault']
                events = events or kind == 'async'
        elif kind == 'parse':
            act['fresh'] = rng.random() < 0.5
        elif kind == 'abandon':
            act['k'] = rng.choice(['extract', 'tokens'])
            act['n'] = rng.choice([0, 1, 2])
            act['close'] = rng.random() < 0.3
            act['fresh'] = rng.random() < 0.3
        elif kind == 'show':
            act['op'] = g.show([name], [spec])
            act['may_fail'] = True
        elif kind == 'rebuild':
            act['m'] = 'findall'
        if kind in ('build', 'rebuild', 'show', 'mut', 'tokenizer', 'analyzer'):
            far = min(far, 800)
        acts.append(act)
    if events:
        far = min(far, 400)
    heavy = any(a['act'] in ('build', 'rebuild', 'show', 'analyzer') for a in acts)
    op = {'op': 'cycles', 'acts': acts, 'n': 12 if heavy or events else rng.choice([25, 50]),
          'warm': 15, 'windows': 3, 'far': far, 'events': events}
    return {'kind': 'grow', 'env': env, 'pre': [op], 'tasks': [], 'post': [],
            'cap': 200000000}


FEEDS = ['list', 'same', 'tuple', 'deque', 'gen', 'stream', 'stream', 'slow', 'slow']


RELATION_GRAMMARS = ['prel', 'prel', 'tworel', 'nestedrel', 'oddnouns', 'relmix', 'casepair',
                     'relcomp', 'userrel', 'geo', 'names', 'singles']


def feed_spec(g, name, inst=0, tag=None):
    tok = {'plain': 'plist', 'rules': 'rlist'}.get(catalog.default_tok(name), 'list')
    rng = g.rng
    tag = tag or catalog.default_tag(name)
    if tag == 'none' and rng.random() < 0.3:
        tag = rng.choice(['pass', 'bio', 'comp', 'same', 'same', 'all', 'len.bio', 'all.len'])
    return world.make_spec(name, tok, tag, inst)


def feed_op(g, spec, pools=('A', None)):
    rng = g.rng
    for _ in range(6):
        o = {'op': 'feed', 'p': spec, 'm': rng.choice(METHODS), 't': g.text(spec),
             'how': rng.choice(FEEDS), 'pool': rng.choice(pools)}
        if rng.random() < 0.25:
            o['pool'] = rng.choice('TTF') + ':' + rng.choice(['len', 'bio', 'comp', 'all'])
        if g.ok(o):
            break
    else:
        return {'op': 'gc'}
    if o['how'] == 'slow' and rng.random() < 0.7:
        o['fault'] = {'kind': 'many', 'list': [
            {'kind': rng.choice(['stall', 'stall', 'gc']), 'cb': 'stream',
             'n': 1 + rng.randrange(8), 'dt': rng.choice([0.01, 1.0, 600.0])}
            for _ in range(rng.choice([1, 2, 3]))]}
    return o


def gen_C14(g):
    rng = g.rng
    env = g.env(cache=True)
    names = g.names(rng.choice([1, 2, 2, 3]))
    if rng.random() < 0.15:
        names = [rng.choice(RELATION_GRAMMARS)] + names[1:]
    if rng.random() < 0.25:
        # unrelated grammars fed with the tokens of one text
        names = names[:1] + [n for n in [rng.choice(catalog.GRAMMARS)]
                             if catalog.default_tok(n) == catalog.default_tok(names[0])]
    specs = [feed_spec(g, n, i) for i, n in enumerate(names)]
    pre = [{'op': 'build', 'p': s} for s in specs]
    texts = [g.text(s) for s in specs]
    same_tok = len({catalog.default_tok(n) for n in names}) == 1
    ntasks = rng.choice([1, 1, 2, 2, 3])
    tasks = []
    for t in range(ntasks):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            o = feed_op(g, rng.choice(specs))
            if o['op'] == 'feed' and same_tok and rng.random() < 0.7:
                c = dict(o, t=rng.choice(texts), pool='A')
                if g.ok(c):
                    o = c
            if o['op'] == 'feed' and o['how'] == 'slow' and rng.random() < 0.15:
                o['fault'] = {'kind': 'fail', 'cb': 'stream', 'n': 1 + rng.randrange(4),
                              'exc': rng.choice(PLAIN_EXC)}
            elif o['op'] == 'feed' and 'fault' not in o and rng.random() < 0.15:
                o = g.async_fault(o)
            ops.append(o)
            if rng.random() < 0.3:
                ops.append({'op': 'peek'})
        tasks.append(ops)
    post = []
    for s in specs:
        for t in texts[:2]:
            o = {'op': 'feed', 'p': s, 'm': 'findall', 't': t, 'how': 'same', 'pool': 'A'}
            if same_tok and g.ok(o):
                post.append(o)
    return {'env': env, 'pre': pre, 'tasks': tasks, 'post': post,
            'sched': g.sched(tasks, env['gran'])}


def gen_C15(g):
    rng = g.rng
    env = g.env()
    names = [rng.choice(CALLBACK_GRAMMARS) for _ in range(rng.choice([1, 1, 2]))]
    specs = []
    for n in names:
        tok = None
        if catalog.default_tok(n) == 'morph':
            tok = rng.choice(['morph', 'slow', 'slow', 'stem', 'memo'])
        tag = catalog.default_tag(n)
        if tag == 'none' and rng.random() < 0.3:
            tag = rng.choice(['bio', 'comp', 'all', 'same', 'all.len', 'same.comp', 'bio.all'])
        specs.append(world.make_spec(n, tok, tag))
    pre = [{'op': 'build', 'p': s} for s in specs]
    other = g.names(1)
    pre.append({'op': 'parts', 'ps': [world.make_spec(n) for n in other]})

    def inner(depth):
        r = rng.random()
        if r < 0.6:
            o = g.parse(rng.choice(specs))
        elif r < 0.7:
            s = world.make_spec(rng.choice(names + other), None, None, rng.randrange(3))
            o = g.parse(s)
        elif r < 0.8:
            o = {'op': 'build', 'p': world.make_spec(
                rng.choice(names + other), None, None, rng.randrange(3, 6))}
        elif r < 0.9:
            o = g.show(names + other)
        elif r < 0.95:
            o = {'op': 'read', 's': 'h0', 'rev': False}
        else:
            o = g.open(rng.choice(specs), 'n%d' % rng.randrange(3))
        if depth < 2 and rng.random() < 0.4:
            o = reenter(o, depth + 1)
        return o

    def reenter(o, depth=0):
        if o['op'] not in ('parse', 'build', 'hold'):
            return o
        cbs = g.cbs(o)
        if not cbs:
            return o
        faults = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            cb = rng.choice(sorted(cbs))
            if rng.random() < 0.12:
                # a callback that calls back and then fails
                faults.append({'kind': 'fail', 'cb': cb, 'n': cbs[cb],
                               'exc': rng.choice(PLAIN_EXC)})
                continue
            faults.append({'kind': 'reenter', 'cb': cb, 'n': 1 + rng.randrange(cbs[cb]),
                           'ops': [inner(depth) for _ in range(rng.choice([1, 1, 2]))]})
        return dict(o, fault={'kind': 'many', 'list': faults})
    pre.append(g.parse(rng.choice(specs), op='hold', s='h0'))
    tasks = []
    for t in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 2])):
            o = g.parse(rng.choice(specs))
            ops.append(reenter(o))
        tasks.append(ops)
    post = [{'op': 'read', 's': 'h0', 'rev': True}]
    post += [g.parse(rng.choice(specs)) for _ in range(2)]
    return {'env': env, 'pre': pre, 'tasks': tasks, 'post': post,
            'sched': g.sched(tasks, env['gran'])}


GENERATORS = {'C01': gen_C01, 'C02': gen_C02, 'C03': gen_C03, 'C04': gen_C04,
              'C05': gen_C05, 'C06': gen_C06, 'C07': gen_C07, 'C08': gen_C08,
              'C09': gen_C09, 'C10': gen_C10, 'C11': gen_C11, 'C12': gen_C12,
              'C13': gen_C13, 'C14': gen_C14, 'C15': gen_C15}


def generate(ctx, prop, seed, i, opts):
    rng = Random('%s:%d:%d' % (prop, seed, i))
    g = Gen(ctx, rng, prop)
    plan = GENERATORS[prop](g)
    if plan is None:
        return None
    plan['prop'] = prop
    plan['seed'] = seed
    plan['i'] = i
    plan.setdefault('kind', 'generic')
    return finish(g, plan) if plan["kind"] == "generic" else plan


def run(ctx, plan, forked):
    from . import special
    from .worker import expectations
    kind = plan.get('kind', 'generic')
    if kind == 'generic':
        expect = expectations(ctx, plan)
        return forked(lambda: world.Run(plan, expect).execute())
    klass = {'morph': special.MorphRun, 'tok': special.TokRun,
             'grow': special.GrowRun, 'hash': special.HashRun}[kind]
    return forked(lambda: klass(plan, {}).execute(), 300.0)
