"""Worlds with an executable reference model of their own: morphology cache
(C10), tokenizer configuration (C11), accumulation (C13), reproducibility
across processes (C09)."""
import gc
import json
import re
import sys
import weakref

from . import catalog, seams, simcore, world
from .ser import dumps, digest, ser_match
from .simcore import SimFatal
from .world import Run, Skip, dumps as _dumps     # noqa: F401


# ------------------------------------------------------------ C10

class OwnRecord(object):
    """record of a dictionary that inflects its own way"""

    def __init__(self, record):
        self.record = record
        self.word = record.word
        self.tag = record.tag
        self.normal_form = record.normal_form

    def inflect(self, grams):
        record = self.record.inflect(grams)
        if record:
            return OwnRecord(record._replace(word=record.word + '*'))


def inflections(form):
    out = []
    for grams in (None, {'gent'}):
        if grams is None and not hasattr(form, 'normal_form'):
            word = form.inflect()
        else:
            word = form.inflect(grams or {'nomn', 'sing'})
        out.append(word if word is None or isinstance(word, str) else word.word)
    return out


def tweak_fn(name):
    """dictionaries that disagree with each other"""
    if name == 'rev':
        return lambda word, parses: parses[::-1]
    if name == 'first':
        return lambda word, parses: parses[:1]
    if name == 'last':
        return lambda word, parses: parses[-1:]
    if name == 'infl':
        return lambda word, parses: [OwnRecord(p) for p in parses]
    if name == 'known':
        return lambda word, parses: [p for p in parses if p.is_known]
    return None


_reference = {}


def reference_forms(tweak, word):
    """what the underlying analyser says, from the analyser itself"""
    if (tweak, word) not in _reference:
        _reference[tweak, word] = analyse(tweak, word)
    return _reference[tweak, word]


def analyse(tweak, word):
    parses = seams.shared_raw().parse(word)
    fn = tweak_fn(tweak)
    if fn:
        parses = fn(word, parses)
    forms = [[p.normal_form, sorted(p.tag.grammemes)] for p in parses]
    if parses:
        p = parses[len(word) % len(parses)]
        forms.append([w or p.normal_form for w in inflections(p)])
    return forms


def seen_forms(word, forms):
    seen = [[f.normalized, sorted(f.grams.values)] for f in forms]
    if forms:
        # inflecting is slow: one of the forms
        seen.append(inflections(forms[len(word) % len(forms)]))
    return seen


class MorphRun(Run):
    """words asked of several analysers, directly and through tokenizers"""

    def execute(self):
        self.analyzers = {}
        self.tokenizers = {}
        self.tweaks = {}
        self.held = []
        self.next_tweak = None
        seams.TWEAK = lambda: tweak_fn(self.next_tweak)
        self.raw_word = re.compile(r'[а-яё]+', re.I)
        return Run.execute(self)

    def make(self, name, tweak):
        from yargy.morph import CachedMorphAnalyzer, MorphAnalyzer
        from yargy.tokenizer import MorphTokenizer
        # no other task may create a dictionary in between
        sim = self.sim
        multi, sim.multi = sim.multi, False
        self.next_tweak = tweak
        try:
            if name.startswith('t'):
                self.tokenizers[name] = MorphTokenizer()
                self.analyzers[name] = self.tokenizers[name].morph
            elif name.startswith('u'):
                self.analyzers[name] = MorphAnalyzer()
                self.tokenizers[name] = MorphTokenizer(morph=self.analyzers[name])
            else:
                self.analyzers[name] = CachedMorphAnalyzer()
                self.tokenizers[name] = MorphTokenizer(morph=self.analyzers[name])
            # dictionary may be loaded on demand
            getattr(self.analyzers[name], 'raw', None)
        finally:
            sim.multi = multi
        self.tweaks[name] = tweak

    def one(self, task, op, where, nested=False):
        self.ops_done += 1
        kind = op['op']
        if kind == 'new':
            self.make(op['a'], op['tweak'])
            return
        if kind == 'gc':
            gc.collect()
            return
        if kind == 'forget':
            self.analyzers.pop(op['a'], None)
            self.tokenizers.pop(op['a'], None)
            return
        if kind == 'recheck':
            for words, forms, tweak in list(self.held):
                for word, item in zip(words, forms):
                    got = seen_forms(word, item)
                    want = reference_forms(tweak, word)
                    if got != want:
                        self.violation('forms-changed', where, '%s: %s want %s' % (
                            word, dumps(got)[:500], dumps(want)[:500]))
            return
        analyzer = self.analyzers.get(op['a'])
        if analyzer is None:
            return
        tweak = self.tweaks[op['a']]
        saved = None
        if nested:
            saved = (task.fault, task.fault_fired, task.injected, task.cb,
                     task.op_steps)
        task.begin_op(op.get('fault'))
        exc = None
        words, result = [], []
        try:
            if kind == 'word':
                words = [op['w']]
                result = [analyzer(op['w'])]
            elif kind == 'norm':
                words = [op['w']]
                result = analyzer.normalized(op['w'])
            elif kind == 'text':
                for token in self.tokenizers[op['a']](op['t']):
                    if token.type == 'RU':
                        words.append(token.value)
                        result.append(token.forms)
        except SimFatal:
            raise
        except BaseException as e:
            exc = e
        fired, injected = task.fault_fired, task.injected
        task.end_op()
        if saved:
            (task.fault, task.fault_fired, task.injected, task.cb,
             task.op_steps) = saved
        if fired:
            self.fired += 1
            if exc is None:
                self.violation('swallowed', where, '%s injected, caller got %s' % (
                    type(injected).__name__, repr(result)[:300]))
            elif not world.surfaced(injected, exc):
                self.violation('replaced', where, '%s injected, caller got %r' % (
                    type(injected).__name__, exc))
            return
        if op.get('fault'):
            self.unfired += 1
        if exc is not None:
            self.violation('error', where, repr(exc)[:400])
            return
        if kind == 'norm':
            want = sorted({f[0] for f in reference_forms(tweak, op['w'])[:-1]})
            if sorted(result) != want:
                self.violation('forms', where, '%s: %s want %s' % (
                    op['w'], sorted(result), want))
            return
        if kind == 'text':
            want_words = self.raw_word.findall(op['t'])
            if words != want_words:
                self.violation('words', where, '%s want %s' % (words, want_words))
        for word, forms in zip(words, result):
            got = seen_forms(word, forms)
            want = reference_forms(tweak, word)
            if got != want:
                self.violation('forms', where, 'analyser %s (%s), word %s: %s want %s' % (
                    op['a'], tweak, word, dumps(got)[:500], dumps(want)[:500]))
        if len(self.held) < 40:
            self.held.append((words, result, tweak))


# ------------------------------------------------------------ C11

def model_tokens(rules, text):
    """tokens of a text under a list of (type, pattern): at every place the
    first rule that matches there; places no rule matches are skipped"""
    compiled = [(t, re.compile(p, re.UNICODE | re.IGNORECASE)) for t, p in rules]
    out = []
    i = 0
    while i < len(text):
        for t, p in compiled:
            m = p.match(text, i)
            if m and m.end() > i:
                out.append([m.group(0), i, m.end(), t])
                i = m.end()
                break
        else:
            i += 1
    return out


class TokRun(Run):
    """tokenizers configured, reconfigured and read in any order"""

    def execute(self):
        self.tokenizers = {}
        self.model = {}
        self.streams = {}
        self.lists = {}
        self.parsers = {}
        self.rules = {}
        return Run.execute(self)

    # rules and rule lists are objects of the user, shared between tokenizers

    def rule(self, spec):
        from yargy import tokenizer as T
        key = dumps(spec)
        if key not in self.rules:
            if spec == 'EMAIL':
                self.rules[key] = T.EMAIL_RULE
            elif spec == 'PHONE':
                self.rules[key] = T.PHONE_RULE
            else:
                self.rules[key] = T.TokenRule(*spec)
        return self.rules[key]

    def list(self, name):
        """a list the user keeps and passes around"""
        if name not in self.lists:
            rules = [self.rule(_) for _ in self.plan['lists'][name]]
            self.lists[name] = (rules, list(rules), self.pairs(rules))
        return self.lists[name][0]

    def pairs(self, rules):
        return [(r.type, r.pattern) for r in rules]

    def default(self):
        from yargy import tokenizer as T
        if not hasattr(self, 'default_'):
            self.default_ = (T.RULES, list(T.RULES), self.pairs(T.RULES))
        return self.default_

    def check_lists(self, where):
        for name, (now, items, pairs) in [('RULES', self.default())] + sorted(self.lists.items()):
            if len(now) != len(items) or any(a is not b for a, b in zip(now, items)) \
                    or self.pairs(now) != pairs:
                self.violation('list-changed', where, '%s was %s is %s' % (
                    name, pairs, self.pairs(now)))

    def seen(self, token):
        data = [token.value, token.span.start, token.span.stop, token.type]
        return data

    def check_forms(self, where, token):
        """a morph tokenizer gives forms to Russian words only"""
        forms = getattr(token, 'forms', None)
        if token.type == 'RU':
            want = [[p.normal_form, sorted(p.tag.grammemes)]
                    for p in seams.shared_raw().parse(token.value)]
            got = [[f.normalized, sorted(f.grams.values)] for f in forms or []]
            if want != got:
                self.violation('forms', where, '%s: %s want %s' % (token.value, got, want))
        elif forms is not None:
            self.violation('forms', where, '%s %s has forms' % (token.value, token.type))

    def one(self, task, op, where, nested=False):
        self.ops_done += 1
        self.default()
        task.begin_op(op.get('fault'))
        try:
            self.step(task, op, where)
        except SimFatal:
            raise
        except Skip:
            pass
        except BaseException as e:
            if task.fault_fired and world.surfaced(task.injected, e):
                self.fired += 1
            else:
                self.violation('error', where, '%s: %s' % (dumps(op)[:200], repr(e)[:400]))
        finally:
            task.end_op()
        # checks between operations of one user; exact, as no operation of
        # anybody may touch the lists
        self.check_lists(where)

    def rejected(self, where, op, fn, kinds):
        try:
            fn()
        except SimFatal:
            raise
        except Exception as e:
            return
        self.violation('not-rejected', where, dumps(op)[:300])

    def step(self, task, op, where):
        from yargy import tokenizer as T
        kind = op['op']
        if kind == 'gc':
            gc.collect()
            return
        if kind == 'new':
            klass = T.MorphTokenizer if op['morph'] else T.Tokenizer
            if op.get('list') is None:
                tokenizer = klass()
                rules = self.default()[2]
            else:
                tokenizer = klass(self.list(op['list']))
                rules = self.lists[op['list']][2]
            self.tokenizers[op['a']] = tokenizer
            self.model[op['a']] = list(rules)
            return
        if kind == 'next':
            stream = self.streams.get(op['s'])
            if stream is None:
                raise Skip
            self.advance(stream, op.get('n', 1), where)
            return
        if kind == 'drop':
            self.streams.pop(op['s'], None)
            return
        tokenizer = self.tokenizers.get(op['a'])
        if tokenizer is None:
            raise Skip
        model = self.model[op['a']]
        if kind == 'add':
            new = [self.rule(_) for _ in op['rules']]
            pairs = self.pairs(new)
            tokenizer.add_rules(*new)
            self.model[op['a']] = pairs + model
        elif kind == 'remove':
            types = [t for t in op['types'] if t in {m[0] for m in model}]
            left = [m for m in model if m[0] not in types]
            if not left or not types:
                raise Skip
            tokenizer.remove_types(*types)
            self.model[op['a']] = left
        elif kind == 'reset':
            if op.get('list') is None:
                tokenizer.reset(T.RULES)
                self.model[op['a']] = list(self.default()[2])
            else:
                tokenizer.reset(self.list(op['list']))
                self.model[op['a']] = list(self.lists[op['list']][2])
        elif kind == 'bad':
            what = op['what']
            good = self.rule(['W', r'w+'])
            if what == 'notrule':
                fn = lambda: tokenizer.add_rules(good, 'oops')
            elif what == 'pattern':
                fn = lambda: tokenizer.add_rules(good, T.TokenRule('BAD', r'(unclosed'))
            elif what == 'unknown':
                first = model[0][0]
                fn = lambda: tokenizer.remove_types(first, 'NO_SUCH_TYPE')
            elif what == 'reset':
                fn = lambda: tokenizer.reset([good, T.TokenRule('BAD', r'[z-a]')])
            elif what == 'resetnot':
                fn = lambda: tokenizer.reset([good, None])
            elif what == 'new':
                fn = lambda: T.Tokenizer([good, T.TokenRule('BAD', r'*')])
            self.sim.count('rejected:' + what)
            self.rejected(where, op, fn, None)
            self.config(tokenizer, model, where)
        elif kind == 'config':
            self.config(tokenizer, model, where)
        elif kind == 'split':
            want = model_tokens(model, op['t'])
            if op.get('how') == 'split':
                got = tokenizer.split(op['t'])
                want = [_[0] for _ in want]
            else:
                got = []
                for token in tokenizer(op['t']):
                    got.append(self.seen(token))
                    if isinstance(tokenizer, T.MorphTokenizer):
                        self.check_forms(where, token)
            if got != want:
                self.violation('tokens', where, 'rules %s text %r: got %s want %s' % (
                    [m[0] for m in model], op['t'], dumps(got), dumps(want)))
        elif kind == 'open':
            want = model_tokens(model, op['t'])
            stream = {'it': iter(tokenizer(op['t'])), 'want': want, 'i': 0,
                      'rules': [m[0] for m in model], 'busy': False, 'over': False}
            # started: the first token has been asked for
            self.advance(stream, 1, where)
            self.streams[op['s']] = stream
        elif kind == 'parse':
            self.parse(op, tokenizer, model, where)

    def config(self, tokenizer, model, where):
        for t in sorted({m[0] for m in model}):
            try:
                tokenizer.check_type(t)
            except ValueError:
                self.violation('config', where, 'type %s is not known any more' % t)
        for t in ['NO_SUCH_TYPE', 'BAD', 'W']:
            if t in {m[0] for m in model}:
                continue
            try:
                tokenizer.check_type(t)
            except ValueError:
                continue
            self.violation('config', where, 'type %s is known' % t)

    def parse(self, op, tokenizer, model, where):
        """tokens of one type, found by a parser over the tokenizer"""
        from yargy import Parser, rule
        from yargy.predicates import type as type_
        key = (op['a'], op['type'])
        known = op['type'] in {m[0] for m in model}
        if key not in self.parsers:
            if not known:
                return
            self.parsers[key] = Parser(rule(type_(op['type'])), tokenizer=tokenizer)
        got = [[m.tokens[0].value, m.span.start, m.span.stop]
               for m in self.parsers[key].findall(op['t'])]
        want = [_[:3] for _ in model_tokens(model, op['t']) if _[3] == op['type']]
        if got != want:
            self.violation('tokens', where, 'parser of %s: got %s want %s' % (
                op['type'], got, want))

    def advance(self, stream, n, where):
        if stream['busy']:
            raise Skip
        stream['busy'] = True
        try:
            for _ in range(n):
                token = next(stream['it'], None)
                i = stream['i']
                want = stream['want'][i] if i < len(stream['want']) else None
                got = self.seen(token) if token is not None else None
                if stream['over'] and got is None:
                    return
                if got != want:
                    self.violation('stream', where, 'started under %s, item %d: got %s want %s' % (
                        stream['rules'], i, got, want))
                    stream['over'] = True
                    return
                if got is None:
                    stream['over'] = True
                    return
                stream['i'] += 1
        finally:
            stream['busy'] = False


# ------------------------------------------------------------ C13

class GrowRun(Run):
    """the same kind of work over and over on ever new texts: what is alive
    afterwards must not depend on how long it went on"""

    def execute(self):
        return Run.execute(self)

    def one(self, task, op, where, nested=False):
        self.ops_done += 1
        if op['op'] == 'cycles':
            self.cycles(task, op, where)
        elif op['op'] == 'weak':
            self.weak(task, op, where)

    def words(self, k):
        """text of words never seen before; k counts texts"""
        alphabet = 'бвгджзклмнпрст'
        out = []
        for j in range(2):
            n = k * 2 + j
            w = ''
            for _ in range(4):
                w += alphabet[n % len(alphabet)] + 'аоуие'[n % 5]
                n //= len(alphabet)
            out.append(w)
        return ' '.join(out)

    def act(self, task, act, k, where):
        """one piece of work; everything it made is dropped when it returns"""
        env = self.env
        kind = act['act']
        task.begin_op(act.get('fault') if k % act.get('every', 1) == 0 else None)
        injected = None
        try:
            text = act.get('t', '')
            if act.get('fresh'):
                text = text + ' ' + self.words(k)
            spec = act.get('p')
            if kind == 'parse':
                parser = env.parser(spec)
                data = env.input(spec, text)
                world.do_parse(env, parser, act['m'], data)
            elif kind == 'words':
                # nothing of the grammar in it, only new words
                parser = env.parser(spec)
                world.do_parse(env, parser, act['m'], self.words(k))
            elif kind == 'abandon':
                parser = env.parser(spec)
                it = iter(parser.extract(text)) if act['k'] == 'extract' else iter(
                    parser.tokenizer(text))
                for _ in range(act['n']):
                    next(it, None)
                if act.get('close') and hasattr(it, 'close'):
                    it.close()
                del it
            elif kind == 'build':
                # another parser from the same grammar
                parser = env.make_parser(spec)
                world.do_parse(env, parser, act['m'], text)
            elif kind == 'rebuild':
                # another parser from a fresh grammar of its own
                g, tok, tag, inst = world.parse_spec(spec)
                copy = 'copy%d' % k
                parser = env.make_parser('|'.join([g + '~' + copy, tok, tag, inst]))
                world.do_parse(env, parser, act['m'], text)
                for key in [_ for _ in env.parts if _[1] == copy]:
                    del env.parts[key]
            elif kind == 'show':
                world.show(env, act['op'])
            elif kind == 'analyzer':
                from yargy.morph import CachedMorphAnalyzer
                analyzer = CachedMorphAnalyzer()
                for word in self.words(k).split():
                    analyzer(word)
            elif kind == 'tokenizer':
                from yargy.tokenizer import Tokenizer, TokenRule
                tokenizer = Tokenizer().add_rules(TokenRule('K%d' % k, 'k%dk' % k))
                tokenizer.split(text)
                tokenizer.remove_types('INT').split(text)
            elif kind == 'mut':
                parser = env.parser(spec)
                for match in parser.findall(text):
                    if world.has_interpretation(match):
                        world.spoil(match.fact)
        except SimFatal:
            raise
        except BaseException as e:
            if not (task.fault_fired and world.surfaced(task.injected, e)):
                if not act.get('may_fail'):
                    self.violation('error', where, '%s: %r' % (dumps(act)[:200], e))
            e.__traceback__ = None
        self.fired += bool(task.fault_fired)
        task.end_op()
        task.injected = None
        if seams.GC_OFF:
            self.violation('collector-off', where,
                           'garbage is not collected any more after %s' % dumps(act)[:200])
            seams.GC_OFF = False

    def measure(self):
        for module in ('re',):
            sys.modules[module].purge()
        sys._clear_type_cache()     # keeps names of attributes looked up
        gc.collect()
        gc.collect()
        return sys.getallocatedblocks()

    def types(self):
        from collections import Counter
        return Counter(type(o).__name__ for o in gc.get_objects())

    def cycles(self, task, op, where):
        n = op['n']
        k = 0
        blocks = []
        simcore.set_granularity(None if not op.get('events') else 'line')
        for window in range(op['windows'] + 1):
            for i in range(n if window else op['warm']):
                for act in op['acts']:
                    self.act(task, act, k, where)
                k += 1
            blocks.append(self.measure())
        simcore.set_granularity(None)
        self.sim.count('cycles', k)
        deltas = [b - a for a, b in zip(blocks, blocks[1:])]
        # something that is kept for every piece of work grows in each window
        if min(deltas) >= 0.4 * n:
            # a bounded cache that is not full yet is no accumulation
            for i in range(op['far']):
                for act in op['acts']:
                    self.act(task, act, k, where)
                k += 1
            a = self.measure()
            types = self.types()
            for i in range(n):
                for act in op['acts']:
                    self.act(task, act, k, where)
                k += 1
            far = self.measure() - a
            self.sim.count('cycles_far', op['far'])
            deltas.append(far)
            if far < 0.4 * n:
                return
            after = self.types()
            grown = sorted(((after[t] - types[t], t) for t in after), reverse=True)[:6]
            self.violation('growth', where, 'blocks %s over %s cycles each; kept objects %s' % (
                deltas, n, [[t, d] for d, t in grown if d > 0]))

    def weak(self, task, op, where):
        """what a dropped parser used is dead"""
        env = self.env
        spec = op['p']
        refs = []

        def watch(what, obj):
            try:
                refs.append((what, weakref.ref(obj)))
            except TypeError:
                pass

        def work():
            g, tok, tag, inst = world.parse_spec(spec)
            from yargy import Parser
            rule = env.part(g.split('~')[0], 'weak')
            tokenizer = env.make_tokenizer(tok)
            parser = Parser(rule, tokenizer=tokenizer, tagger=env.tagger(tag))
            watch('parser', parser)
            watch('rule of the parser', parser.rule)
            watch('grammar', rule)
            watch('tokenizer', parser.tokenizer)
            morph = getattr(parser.tokenizer, 'morph', None)
            if morph is not None:
                watch('analyser', morph)
                watch('dictionary', morph.raw)
            del morph
            for text in op['ts']:
                for match in parser.findall(text):
                    watch('match', match)
                    watch('tree', match.tree.root)
                    for token in match.tokens:
                        watch('token', token)
                        forms = getattr(token, 'forms', None)
                        if forms:
                            watch('form', forms[0])
                    if world.has_interpretation(match):
                        watch('fact', match.fact)
                it = parser.extract(text)
                for match in it:
                    watch('match', match)
                    break
                if op.get('fault'):
                    task.begin_op(op['fault'])
                    try:
                        list(parser.findall(text))
                    except SimFatal:
                        raise
                    except BaseException:
                        self.fired += 1
                    task.end_op()
                    task.injected = None
            if op.get('show'):
                list(parser.rule.as_bnf.source)
                list(rule.as_dot.source)
            for key in [_ for _ in env.parts if _[1] == 'weak']:
                del env.parts[key]

        work()
        gc.collect()
        alive = sorted({what for what, ref in refs if ref() is not None})
        self.sim.count('weakrefs', len(refs))
        if alive:
            self.violation('kept-alive', where, 'still alive after everything was dropped: %s' % alive)


# ------------------------------------------------------------ C09

class HashRun(Run):
    """the outcome of every operation is recorded, the master compares
    processes"""

    def execute(self):
        self.digests = []
        self.texts = []
        if self.plan['env'].get('gc'):
            # collections at ever other places
            seams.gc_set_threshold(self.plan['env']['gc'], 3, 3)
            self.auto_gc = True
        result = Run.execute(self)
        result['digests'] = self.digests
        if self.plan.get('full') is not None:
            result['full'] = self.texts
        # switches, steps may well differ between layouts: not compared
        return result

    def judge(self, op, where, value, exc, fired, injected, used=0):
        got = {'ok': value} if exc is None else {'err': world.describe(exc)}
        text = dumps(got)
        self.digests.append(digest(text))
        if self.plan.get('full') is not None:
            self.texts.append(text if len(self.digests) - 1 in self.plan['full'] else None)
