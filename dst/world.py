"""Simulated users: environment, operations, outcomes.

Everything here runs inside a forked child.  An operation is a small JSON
object; executing it yields an outcome string (canonical) that is compared
with the outcome the same operation has alone in a pristine process.
"""
import gc
import re
import sys

from . import catalog, seams, simcore
from .ser import (dumps, digest, ser_match, ser_tokens, ser_fact, ser_value,
                  has_interpretation, ser_token)
from .simcore import SimFatal, make_exception

ADDRESS = re.compile(r' at 0x[0-9a-f]+')


def parse_spec(spec):
    g, tok, tag, inst = spec.split('|')
    return g, tok, tag, inst


def make_spec(g, tok=None, tag=None, inst=0):
    base = g.split('~')[0]
    return '|'.join([g, tok or catalog.default_tok(base),
                     tag or catalog.default_tag(base), str(inst)])


class Slot(object):
    def __init__(self):
        self.it = None
        self.index = 0
        self.key = None
        self.busy = False
        self.matches = None
        self.op = None
        self.ended = False


_harness = {}


def harness_classes():
    """stub tokenizers and taggers, made against the imported package"""
    import yargy.tokenizer as T
    key = T
    if key in _harness:
        return _harness[key]
    from yargy.tokenizer import Tokenizer, MorphTokenizer
    from yargy.morph import MorphAnalyzer
    from yargy.tagger import Tagger, TaggersComposition, PassTagger

    class HookTokenizer(MorphTokenizer):
        """user tokenizer: filters nothing, may be slow or fail at any item"""

        def __call__(self, text):
            for token in MorphTokenizer.__call__(self, text):
                seams.hook('tok', token.value)
                yield token

    class MemoTokenizer(MorphTokenizer):
        """user tokenizer that keeps the tokens of a text, and gives the same
        list again"""

        def __call__(self, text):
            kept = self.__dict__.setdefault('kept', {})
            if text not in kept:
                kept[text] = list(MorphTokenizer.__call__(self, text))
                seams.hook('tok', text)
            return kept[text]

    class LastMorph(MorphAnalyzer):
        """analyser of the user: disagrees with the standard one"""

        def __call__(self, word):
            forms = MorphAnalyzer.__call__(self, word)
            seams.hook('analyser', word)
            return forms[-1:]

    class StemRecord(object):
        def __init__(self, record):
            self.record = record
            self.word = record.word
            self.tag = record.tag
            self.normal_form = record.normal_form[:3]

        def inflect(self, grams):
            record = self.record.inflect(grams)
            if record:
                return StemRecord(record)

    class StemRaw(object):
        """dictionary of the user: stems for normal forms"""

        def __init__(self, raw):
            self.raw = raw
            self.TagClass = raw.TagClass

        def parse(self, word):
            seams.hook('analyser', word)
            return [StemRecord(_) for _ in self.raw.parse(word)]

    def stem_morph():
        return MorphAnalyzer(StemRaw(seams.shared_raw()))

    class ListTokenizer(Tokenizer):
        """cookbook IdTokenizer: tokens come ready made"""

        def __init__(self, tokenizer):
            self.tokenizer = tokenizer

        def split(self, text):
            return self.tokenizer.split(text)

        def check_type(self, type):
            return self.tokenizer.check_type(type)

        @property
        def morph(self):
            return self.tokenizer.morph

        def __call__(self, tokens):
            return tokens

    class SameTagger(Tagger):
        """gives back what it is given"""

        def __call__(self, tokens):
            seams.hook('tagger', 'all')
            return tokens

    class ListTagger(Tagger):
        """needs the whole text, answers with a list"""
        tags = ['B-PER', 'CAP']

        def __call__(self, tokens):
            out = []
            for token in tokens:
                seams.hook('tagger', token.value)
                out.append(token.tagged('CAP') if token.value[:1].isupper() else token)
            return out

    class BioTagger(Tagger):
        tags = ['B-PER', 'I-PER', 'B-LOC', 'O']
        known = {'Иван': 'B-PER', 'Ивана': 'B-PER', 'Петров': 'I-PER',
                 'Петрова': 'I-PER', 'Москва': 'B-LOC', 'Москве': 'B-LOC'}

        def __call__(self, tokens):
            for token in tokens:
                seams.hook('tagger', token.value)
                yield token.tagged(self.known.get(token.value, 'O'))

    class LenTagger(Tagger):
        tags = ['L1', 'L2', 'L3']

        def __call__(self, tokens):
            for token in tokens:
                seams.hook('tagger', token.value)
                yield token.tagged('L%d' % min(len(token.value), 3))

    class CapTagger(Tagger):
        tags = ['CAP']

        def __call__(self, tokens):
            for token in tokens:
                seams.hook('tagger', token.value)
                if token.value[:1].isupper():
                    token = token.tagged('CAP')
                yield token

    class LocTagger(Tagger):
        tags = ['B-LOC']

        def __call__(self, tokens):
            pending = None      # one token of look-ahead
            for token in tokens:
                seams.hook('tagger', token.value)
                if pending is not None:
                    yield pending
                pending = token
                if token.value.startswith('Москв'):
                    pending = token.tagged('B-LOC')
            if pending is not None:
                yield pending

    classes = dict(
        HookTokenizer=HookTokenizer, ListTokenizer=ListTokenizer,
        MemoTokenizer=MemoTokenizer, LastMorph=LastMorph, stem_morph=stem_morph, TokenRule=T.TokenRule, RULES=T.RULES,
        SameTagger=SameTagger, ListTagger=ListTagger,
        BioTagger=BioTagger, LenTagger=LenTagger, CapTagger=CapTagger, LocTagger=LocTagger,
        Tokenizer=Tokenizer, MorphTokenizer=MorphTokenizer,
        MorphAnalyzer=MorphAnalyzer,
        PassTagger=PassTagger, TaggersComposition=TaggersComposition)
    _harness.clear()
    _harness[key] = classes
    return classes


LISTS = {'list': 'morph', 'plist': 'plain', 'rlist': 'rules'}


class Env(object):
    def __init__(self):
        self.parts = {}
        self.parsers = {}
        self.tokenizers = {}
        self.taggers = {}
        self.slots = {}
        self.raw = {}
        self.pools = {}
        self.origins = {}
        self.graphs = {}
        self.cls = harness_classes()

    # -- grammar parts: one object per (name, copy)

    def part(self, name, copy=''):
        key = (name, copy)
        if key in self.parts:
            return self.parts[key]

        def E(other):
            return self.part(other, copy)
        if name.startswith('rnd:'):
            value = catalog.build_random(E, name)
        elif name.startswith('wrap:'):
            value = catalog.build_wrap(E, name)
        else:
            value = catalog.PARTS[name](E)
        self.parts[key] = value
        return value

    def grammar(self, g):
        name, _, copy = g.partition('~')
        return self.part(name, copy)

    def tokenizer(self, kind):
        if kind == 'own':
            return None
        if kind not in self.tokenizers:
            self.tokenizers[kind] = self.make_tokenizer(kind)
        return self.tokenizers[kind]

    def make_tokenizer(self, kind):
        name = kind.split('+')[0]
        C = self.cls
        if name == 'morph':
            value = C['MorphTokenizer']()
        elif name == 'plain':
            value = C['Tokenizer']()
        elif name == 'slow':
            value = C['HookTokenizer']()
        elif name == 'rules':
            from yargy.tokenizer import EMAIL_RULE, PHONE_RULE
            value = C['MorphTokenizer']().remove_types('EOL').add_rules(
                EMAIL_RULE, PHONE_RULE)
        elif name == 'memo':
            value = C['MemoTokenizer']()
        elif name == 'last':
            value = C['MorphTokenizer'](morph=C['LastMorph']())
        elif name == 'stem':
            value = C['MorphTokenizer'](morph=C['stem_morph']())
        elif name == 'hyph':
            value = C['MorphTokenizer']().add_rules(
                C['TokenRule']('HYPH', r'[а-яё]+(-[а-яё]+)+'))
        elif name == 'words':
            # hyphenated words are words
            value = C['MorphTokenizer']([C['TokenRule']('RU', r'[а-яё]+(?:-[а-яё]+)*')] + [
                _ for _ in C['RULES'] if _.type != 'RU'])
        elif name == 'noeol':
            value = C['MorphTokenizer']().remove_types('EOL', 'LATIN')
        elif name == 'raw':
            # an analyser without a cache
            value = C['MorphTokenizer'](morph=C['MorphAnalyzer']())
        elif name == 'tiny':
            value = C['MorphTokenizer']().remove_types('EOL', 'LATIN', 'INT', 'PUNCT')
        elif name == 'nopunct':
            value = C['MorphTokenizer']().remove_types('PUNCT', 'OTHER')
        elif name == 'noru':
            value = C['MorphTokenizer']().remove_types('RU')
        elif name == 'tinyplain':
            value = C['Tokenizer']().remove_types('INT', 'LATIN', 'EOL')
        elif name == 'list':
            value = C['ListTokenizer'](self.tokenizer('morph'))
        elif name == 'rlist':
            value = C['ListTokenizer'](self.tokenizer('rules'))
        elif name == 'plist':
            value = C['ListTokenizer'](self.tokenizer('plain'))
        else:
            raise KeyError(kind)
        return value

    def tagger(self, kind):
        if kind == 'none':
            return None
        if kind in self.taggers:
            return self.taggers[kind]
        C = self.cls
        name = kind.split('+')[0]
        if '.' in name:
            value = C['TaggersComposition']([self.tagger(_) for _ in name.split('.')])
        elif name == 'bio':
            value = C['BioTagger']()
        elif name == 'len':
            value = C['LenTagger']()
        elif name == 'same':
            value = C['SameTagger']()
        elif name == 'all':
            value = C['ListTagger']()
        elif name == 'pass':
            value = C['PassTagger']()
        elif name == 'comp':
            value = C['TaggersComposition']([C['CapTagger'](), C['LocTagger']()])
        else:
            raise KeyError(kind)
        self.taggers[kind] = value
        return value

    def make_parser(self, spec):
        from yargy import Parser
        g, tok, tag, _ = parse_spec(spec)
        return Parser(self.grammar(g), tokenizer=self.tokenizer(tok),
                      tagger=self.tagger(tag))

    def prepare(self, spec):
        """user code around a build: create the parts"""
        g, tok, tag, _ = parse_spec(spec)
        self.grammar(g)
        self.tokenizer(tok)
        self.tagger(tag)

    def parser(self, spec):
        if spec not in self.parsers:
            self.parsers[spec] = self.make_parser(spec)
        return self.parsers[spec]

    def pool(self, spec, text, name):
        """tokens of a text; the same objects for everyone naming the pool"""
        g = parse_spec(spec)[0].split('~')[0]
        kind = catalog.default_tok(g)
        key = (kind, text, name)
        if key in self.pools:
            return self.pools[key]
        tokens = list(self.tokenizer(kind)(text))
        tag = pool_tag(name)
        if tag:
            # the caller tagged them before
            tokens = list(self.tagger(tag)(tokens))
        if name and not name.startswith('F:'):
            self.pools[key] = tokens
            self.origins[key] = [shot(_) for _ in tokens]
        return tokens

    def graph(self, op):
        """graph of a grammar or match; one object for all who keep it"""
        name = op.get('keep')
        if not name:
            return graph_of(self, op)
        key = (name, op.get('p'), op.get('part'), op.get('t'))
        if key not in self.graphs:
            graph = graph_of(self, op)
            # somebody else may have made it meanwhile
            self.graphs.setdefault(key, graph)
        return self.graphs[key]

    def peek(self):
        """the shared tokens must be as they were at first, at any time"""
        for key in list(self.origins):
            self.untouched(self.pools[key], self.origins[key])

    @staticmethod
    def untouched(tokens, before):
        after = [shot(_) for _ in tokens]
        if before != after:
            for i, (a, b) in enumerate(zip(before, after)):
                if a != b:
                    raise Broken('token-modified', 'token %d was %s is %s' % (
                        i, a[1], b[1]))
            raise Broken('token-modified', 'tokens were added or removed')

    def input(self, spec, text):
        """what the caller hands to the parser"""
        tok = parse_spec(spec)[1]
        base = LISTS.get(tok.split('+')[0])
        if base:
            return list(self.tokenizer(base)(text))
        return text


def pool_tag(name):
    return name.partition(':')[2] if name else ''


def norm_spec(spec):
    """the same thing, alone"""
    g, tok, tag, _ = parse_spec(spec)
    g = g.split('~')[0]
    tok = tok.split('+')[0]
    tag = tag.split('+')[0]
    return '|'.join([g, tok, tag, '0'])


# ------------------------------------------------------------ operations

def op_key(op):
    """identity of the operation for its expected outcome; None if it has none
    of its own"""
    kind = op['op']
    if kind in ('parse', 'hold'):
        return dumps(['parse', norm_spec(op['p']), op['m'], op['t']])
    if kind == 'feed':
        g, _, tag, _ = parse_spec(norm_spec(op['p']))
        before = pool_tag(op.get('pool'))
        if before:
            tag = before if tag == 'none' else before + '.' + tag
        return dumps(['parse', '|'.join([g, catalog.default_tok(g), tag, '0']),
                      op['m'], op['t']])
    if kind == 'open':
        return dumps(['parse', norm_spec(op['p']), op['k'], op['t']])
    if kind == 'build':
        return dumps(['build', norm_spec(op['p'])])
    if kind == 'show':
        if 'p' in op:
            return dumps(['show', op['what'], norm_spec(op['p'])])
        return dumps(['show', op['what'], None, op['part'].split('~')[0]])
    if kind == 'trees':
        return dumps(['trees', norm_spec(op['p']), op['t']])
    if kind == 'svg':
        if 'p' in op:
            return dumps(['svg', norm_spec(op['p']), op.get('t')])
        return dumps(['svg', op['part'].split('~')[0], None])
    return None


def key_op(key):
    """operation to run alone for a key"""
    import json
    k = json.loads(key)
    if k[0] == 'parse':
        return {'op': 'parse', 'p': k[1], 'm': k[2], 't': k[3]}
    if k[0] == 'build':
        return {'op': 'build', 'p': k[1]}
    if k[0] == 'show':
        if k[2] is not None:
            return {'op': 'show', 'what': k[1], 'p': k[2]}
        return {'op': 'show', 'what': k[1], 'part': k[3]}
    if k[0] == 'trees':
        return {'op': 'trees', 'p': k[1], 't': k[2]}
    if k[0] == 'svg':
        if k[2] is not None or '|' in k[1]:
            return {'op': 'svg', 'p': k[1], 't': k[2]}
        return {'op': 'svg', 'part': k[1]}
    raise ValueError(key)


def do_parse(env, parser, method, data):
    if method == 'findall':
        return [ser_match(_) for _ in parser.findall(data)]
    if method == 'extract':
        return [ser_match(_) for _ in parser.extract(data)]
    if method == 'find':
        match = parser.find(data)
        return ser_match(match) if match else None
    if method == 'match':
        match = parser.match(data)
        return ser_match(match) if match else None
    if method == 'reprs':
        out = []
        for match in parser.extract(data):
            out.append(clean(repr(match)))
            if has_interpretation(match):
                out.append(clean(repr(match.fact)))
        return out
    if method == 'tokens':
        return ser_tokens(parser.tokenizer(data))
    if method == 'tagged':
        return ser_tokens(parser.tagger(parser.tokenizer(data)))
    if method == 'split':
        return list(parser.tokenizer.split(data))
    raise ValueError(method)


class Stream(object):
    """one-shot source of tokens that keeps account of its reader"""

    def __init__(self, tokens, slow=False):
        self.tokens = list(tokens)
        self.slow = slow
        self.index = 0
        self.iters = 0
        self.ended = 0

    def __iter__(self):
        self.iters += 1
        return self

    def __next__(self):
        if self.slow:
            seams.hook('stream', 'token')
        if self.index >= len(self.tokens):
            self.ended += 1
            raise StopIteration
        self.index += 1
        return self.tokens[self.index - 1]


def shot(token):
    """everything a user can see in a token, down to the identity of its forms"""
    state = [type(token).__name__]
    names = set(vars(token)) if hasattr(token, '__dict__') else set()
    for name in sorted(names | {'value', 'span', 'type', 'forms', 'tag'}):
        if name.startswith('_'):
            continue
        value = getattr(token, name, None)
        if isinstance(value, (str, int)):
            state.append([name, value])
        elif isinstance(value, (list, tuple)):
            state.append([name, [id(_) for _ in value]])
    return [state, ser_token(token)]


def feed(env, op, tokens):
    how = op['how']
    env.peek()
    before = [shot(_) for _ in tokens]
    stream = None
    if how == 'list':
        data = list(tokens)
    elif how == 'same':
        data = tokens
    elif how == 'tuple':
        data = tuple(tokens)
    elif how == 'deque':
        from collections import deque
        data = deque(tokens)
    elif how == 'gen':
        data = (_ for _ in tokens)
    else:
        data = stream = Stream(tokens, how == 'slow')
    try:
        result = do_parse(env, env.parser(op['p']), op['m'], data)
    finally:
        env.untouched(tokens, before)
        env.peek()
    if stream is not None:
        if stream.iters > 1:
            raise Broken('stream-read', 'stream was started %d times' % stream.iters)
        if stream.index < len(stream.tokens) or not stream.ended:
            raise Broken('stream-read', 'stream of %d tokens was read up to %d' % (
                len(stream.tokens), stream.index))
        if stream.ended > 1:
            raise Broken('stream-read', 'stream was read past its end')
    elif how == 'gen':
        if next(data, None) is not None:
            raise Broken('stream-read', 'stream was not read to its end')
    return result


class Broken(BaseException):
    """found while performing, not an outcome of the operation"""

    def __init__(self, kind, detail):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail


def graph_of(env, op):
    if 'p' in op:
        parser = env.parser(op['p'])
        if op.get('t') is not None:
            match = parser.find(env.input(op['p'], op['t']))
            return match.tree.as_dot if match else None
        return parser.rule.as_dot
    return env.grammar(op['part']).as_dot


def clean(value):
    """functions of the user print with their address"""
    if isinstance(value, str):
        return ADDRESS.sub('', value)
    return [clean(_) for _ in value]


def do_show(env, op):
    return clean(show(env, op))


def show(env, op):
    what = op['what']
    if 'p' in op:
        parser = env.parser(op['p'])
        if what == 'bnf':
            return list(parser.rule.as_bnf.source)
        if what == 'dot':
            return list(parser.rule.as_dot.source)
        raise ValueError(what)
    rule = env.grammar(op['part'])
    if what == 'bnf':
        return list(rule.normalized.as_bnf.source)
    if what == 'dot':
        return list(rule.as_dot.source)
    if what == 'ndot':
        return list(rule.normalized.as_dot.source)
    if what == 'repr':
        return repr(rule)
    raise ValueError(what)


def prepare(env, op):
    """user-side preparation, not part of the operation"""
    kind = op['op']
    if kind == 'feed':
        env.parser(op['p'])
        return env.pool(op['p'], op['t'], op.get('pool'))
    if kind in ('parse', 'hold', 'open', 'trees') or (
            kind in ('show', 'svg') and 'p' in op):
        env.parser(op['p'])
        if op.get('t') is not None:
            return env.input(op['p'], op['t'])
        return None
    elif kind == 'build':
        env.prepare(op['p'])
    elif kind in ('show', 'svg'):
        env.grammar(op['part'])
    elif kind == 'parts':
        for p in op['ps']:
            env.prepare(p)
    elif kind == 'local':
        env.parser(op['p'])
        return op['t']
    return None


class Skip(Exception):
    pass


def perform(env, op, data=None):
    """the operation itself; returns a JSON-able value or raises"""
    kind = op['op']
    if kind == 'parse':
        return do_parse(env, env.parser(op['p']), op['m'], data)
    if kind == 'feed':
        return feed(env, op, data)
    if kind == 'build':
        env.parsers[op['p']] = env.make_parser(op['p'])
        return 'built'
    if kind == 'show':
        return do_show(env, op)
    if kind == 'trees':
        parser = env.parser(op['p'])
        return clean([list(_.tree.as_dot.source) for _ in parser.findall(data)])
    if kind == 'svg':
        graph = env.graph(op)
        if graph is None:
            return None
        task = simcore.CUR
        task.dot, task.dot_used = op.get('dot'), 0
        try:
            return graph._repr_svg_()
        finally:
            task.dot = None
    if kind == 'open':
        slot = Slot()
        slot.op = op
        slot.key = op_key(op)
        parser = env.parser(op['p'])
        k = op['k']
        if k == 'extract':
            slot.it = parser.extract(data)
        elif k == 'findall':
            slot.it = parser.findall(data)
        elif k == 'tokens':
            slot.it = iter(parser.tokenizer(data))
        elif k == 'tagged':
            slot.it = iter(parser.tagger(parser.tokenizer(data)))
        env.slots[op['s']] = slot
        return 'opened'
    if kind == 'hold':
        parser = env.parser(op['p'])
        matches = []
        first = []
        if op['m'] in ('find', 'match'):
            match = getattr(parser, op['m'])(data)
            first = None
            if match:
                matches.append(match)
                first = ser_match(match)
        else:
            for match in getattr(parser, op['m'])(data):
                matches.append(match)
                first.append(ser_match(match))
        slot = Slot()
        slot.op = op
        slot.key = op_key(op)
        slot.matches = matches
        env.slots[op['s']] = slot
        return first
    if kind == 'gc':
        gc.collect()
        return None
    if kind == 'peek':
        env.peek()
        return None
    if kind == 'sleep':
        simcore.SIM.sleep(op['dt'])
        return None
    if kind == 'clock':
        simcore.SIM.clock += op['dt']
        simcore.SIM.count('clock_jump')
        return None
    if kind == 'parts':
        return None
    if kind == 'local':
        return locality(env, op)
    if kind == 'drop_parser':
        env.parsers.pop(op['p'], None)
        return None
    raise ValueError(kind)


def perform_slot(env, op, expect, bad):
    """operations on live iterators and held matches; check as they go"""
    kind = op['op']
    slot = env.slots.get(op['s'])
    if slot is None or slot.busy:
        raise Skip()
    if kind in ('next', 'close', 'drop') and slot.it is None:
        raise Skip()
    if kind in ('read', 'mut', 'retree') and slot.matches is None:
        raise Skip()
    full = expect.get(slot.key)
    if full is None or 'ok' not in full:
        raise Skip()
    full = full['ok']
    slot.busy = True
    try:
        if kind == 'next':
            fn = ser_token if slot.op['k'] in ('tokens', 'tagged') else ser_match
            for _ in range(op.get('n', 1)):
                try:
                    item = next(slot.it)
                except StopIteration:
                    if not slot.ended and slot.index < len(full):
                        bad('stream-short', 'ended after %d of %d items' % (
                            slot.index, len(full)))
                    slot.ended = True
                    break
                if slot.ended or slot.index >= len(full):
                    bad('stream-long', 'more than %d items' % len(full))
                    break
                got = dumps(fn(item))
                want = dumps(full[slot.index])
                if got != want:
                    bad('stream-item', 'item %d: got %s want %s' % (
                        slot.index, got, want))
                slot.index += 1
        elif kind == 'close':
            close = getattr(slot.it, 'close', None)
            if close:
                close()
            slot.it = None
        elif kind == 'drop':
            slot.it = None
        elif kind == 'read':
            order = list(range(len(slot.matches)))
            if op.get('rev'):
                order.reverse()
            want = full if isinstance(full, list) else (
                [full] if full is not None else [])
            for i in order:
                got = dumps(ser_match(slot.matches[i]))
                if got != dumps(want[i]):
                    bad('match-changed', 'match %d reads %s, first read %s' % (
                        i, got, dumps(want[i])))
        elif kind == 'mut':
            if slot.matches:
                match = slot.matches[op['i'] % len(slot.matches)]
                if has_interpretation(match):
                    fact = match.fact
                    if hasattr(type(fact), 'as_json') and op['i'] % 2:
                        # what is made of a fact is the caller's
                        was = dumps(ser_fact(fact))
                        spoil_json(fact.as_json, fact)
                        now = dumps(ser_fact(fact))
                        if was != now:
                            bad('changed', 'fact after its json was changed: %s' % clip(now, was))
                    else:
                        spoil(fact)
        elif kind == 'retree':
            for match in slot.matches:
                list(match.tree.as_dot.source)
    finally:
        slot.busy = False


def spoil_json(data, fact):
    """change what was made for the caller; values of the user stay"""
    for name in getattr(fact, '__attributes__', []):
        value, source = data.get(name), getattr(fact, name)
        if value is source:
            continue
        if isinstance(value, list) and isinstance(source, list):
            for item, part in zip(value, source):
                if isinstance(item, dict) and hasattr(part, '__attributes__'):
                    spoil_json(item, part)
            value.append('SPOILED')
        elif isinstance(value, dict) and hasattr(source, '__attributes__'):
            spoil_json(value, source)
    for key in list(data)[:1]:
        data[key] = 'SPOILED'
    data['SPOILED'] = 'SPOILED'


def spoil(fact):
    if hasattr(type(fact), 'as_json'):
        spoil_json(fact.as_json, fact)
    for name in getattr(fact, '__attributes__', []):
        value = getattr(fact, name)
        if isinstance(value, list):
            value.append('SPOILED')
            value.reverse()
        elif hasattr(value, '__attributes__'):
            spoil(value)
        setattr(fact, name, 'SPOILED' if not isinstance(value, list) else value)


def locality(env, op):
    """matches over every stretch of tokens, found inside the whole text and
    found with the stretch alone"""
    from collections import Counter
    parser = env.parser(op['p'])
    tokens = list(env.tokenizer('morph')(op['t']))

    def copy(items):
        # fresh token objects, as a tokenizer would make them
        out = []
        for t in items:
            forms = getattr(t, 'forms', None)
            from yargy.token import Token
            new = Token(t.value, t.span, t.type)
            if forms is not None:
                new = new.morphed(list(forms))
            out.append(new)
        return out
    iterator = parser.extract(copy(tokens))
    if op['order'] == 'eager':
        whole = [dumps(ser_match(_)) for _ in iterator]
    else:
        matches = list(iterator)
        if op['order'] == 'reverse':
            matches.reverse()
        whole = [dumps(ser_match(_)) for _ in matches]
    starts = {t.span.start: i for i, t in enumerate(tokens)}
    stops = {t.span.stop: i + 1 for i, t in enumerate(tokens)}
    problems = []
    import json
    by_span = {}
    for s in whole:
        a, b = json.loads(s)['span']
        by_span.setdefault((starts[a], stops[b]), []).append(s)
    n = len(tokens)
    for i in range(n):
        for j in range(i + 1, n + 1):
            alone = [dumps(ser_match(_)) for _ in parser.extract(copy(tokens[i:j]))]
            alone = [s for s in alone
                     if json.loads(s)['span'] == [tokens[i].span.start,
                                                  tokens[j - 1].span.stop]]
            here = by_span.get((i, j), [])
            if Counter(alone) != Counter(here):
                problems.append([i, j, sorted(here), sorted(alone)])
    return problems[:3]


SLOT_OPS = ('next', 'close', 'drop', 'read', 'mut', 'retree')


# ------------------------------------------------------------ faults

def dot_fails(b):
    if not b:
        return False
    return bool(b.get('spawn') or b.get('oserror') or b.get('rc') or b.get('garble'))


def dot_missing():
    task = simcore.CUR
    missing = bool(task and task.dot and task.dot.get('spawn', [''])[0] == 'FileNotFoundError')
    if missing:
        task.dot_used += 1
    return missing


def dot_plan(args):
    task = simcore.CUR
    if task is None or not task.dot:
        return {}
    if set(task.dot) != {'oserror'}:        # that one counts when it happens
        task.dot_used += 1
    for key in task.dot:
        task.sim.count('dot:%s%s' % (key, ':%s' % task.dot[key] if key == 'rc' else ''))
    return task.dot


def on_hook(kind, label):
    task = simcore.CUR
    if task is None:
        return
    sim = task.sim
    n = task.cb.get(kind, 0) + 1
    task.cb[kind] = n
    simcore.point('hook:' + kind)
    sim.count('hook:' + kind)
    fault = task.fault
    if not fault or fault['kind'] == 'async':
        return
    for f in ([fault] if fault['kind'] != 'many' else fault['list']):
        if f.get('cb') not in (kind, '*'):
            continue
        count = n if f['cb'] == kind else sum(task.cb.values())
        if f['kind'] == 'fail':
            if count == f['n'] and not task.fault_fired:
                task.fault_fired = True
                sim.count('fail:%s:%s' % (kind, f['exc']))
                exc = make_exception(f['exc'])
                task.injected = exc
                raise exc
        elif count == f['n']:
            if f['kind'] == 'stall':
                sim.count('stall:' + kind)
                sim.sleep(f['dt'])
            elif f['kind'] == 'gc':
                sim.count('gc_in_callback')
                gc.collect()
            elif f['kind'] == 'reenter':
                sim.count('reenter:' + kind)
                task.sim.reenter(task, f['ops'])


def surfaced(injected, exc):
    """does exc (what the caller got) carry the injected failure?"""
    if exc is injected:
        return True
    if isinstance(injected, (StopIteration, StopAsyncIteration, GeneratorExit)):
        seen = set()
        while exc is not None and id(exc) not in seen:
            seen.add(id(exc))
            if exc is injected:
                return True
            exc = exc.__cause__ or exc.__context__
    return False


def describe(exc):
    return [type(exc).__name__]


# ------------------------------------------------------------ runner

class Run(object):
    """one simulated execution of a plan, inside a forked child"""

    auto_gc = False

    def __init__(self, plan, expect, record_sites=False):
        self.plan = plan
        self.expect = expect
        self.bad = []
        self.outcomes = []
        self.env = None
        self.ops_done = 0
        self.fired = 0
        self.unfired = 0
        self.record_sites = record_sites

    def violation(self, kind, where, detail):
        if len(self.bad) < 5:
            self.bad.append({'kind': kind, 'where': where,
                             'detail': detail[:1500]})
        else:
            self.bad.append(None)
            self.bad.pop()

    def one(self, task, op, where, nested=False):
        env = self.env
        saved = None
        try:
            # user-side preparation is not the operation: no fault inside
            if nested:
                saved = (task.fault, task.fault_fired, task.injected,
                         task.cb, task.op_steps)
            task.fault = None
            if op['op'] not in SLOT_OPS:
                try:
                    data = prepare(env, op)
                except SimFatal:
                    raise
                except BaseException as e:
                    # building the parser fails: so must it alone
                    expected = self.expect.get(op_key(op))
                    got = {'err': describe(e), 'at': 'build'}
                    if expected is not None and dumps(expected) != dumps(got):
                        self.violation('mismatch', where, 'got %s want %s' % (
                            dumps(got), dumps(expected)))
                    return
            task.begin_op(op.get('fault'))
            exc = None
            value = None
            try:
                if op['op'] in SLOT_OPS:
                    perform_slot(env, op, self.expect,
                                 lambda k, d: self.violation(k, where, d))
                else:
                    value = perform(env, op, data)
            except SimFatal:
                raise
            except Skip:
                return
            except Broken as e:
                self.violation(e.kind, where, e.detail)
                return
            except BaseException as e:
                exc = e
            fired, injected = task.fault_fired, task.injected
            task.end_op()
            self.judge(op, where, value, exc, fired, injected, task.dot_used)
            task.dot_used = 0
        finally:
            task.end_op()
            if saved:
                (task.fault, task.fault_fired, task.injected,
                 task.cb, task.op_steps) = saved
            self.ops_done += 1

    def judge(self, op, where, value, exc, fired, injected, used=0):
        if fired:
            self.fired += 1
            if exc is None:
                self.violation('swallowed', where,
                               '%s injected, caller got a normal answer %s' % (
                                   type(injected).__name__, dumps(value)[:600]))
            elif not surfaced(injected, exc):
                self.violation('replaced', where,
                               '%s injected, caller got %s: %s' % (
                                   type(injected).__name__,
                                   type(exc).__name__, str(exc)[:300]))
            return
        if op.get('fault', {}).get('kind') in ('async', 'fail'):
            self.unfired += 1
        if op['op'] in SLOT_OPS:
            if exc is not None:
                self.violation('error', where, '%s: %s' % (
                    type(exc).__name__, str(exc)[:300]))
            return
        if dot_fails(op.get('dot')) and used:
            # may only surface as an error
            sim = self.sim
            sim.count('dot_failed')
            if exc is None:
                self.violation('failed-drawing-passed', where, 'program: %s, caller got %r' % (
                    dumps(op['dot']), value))
            elif not isinstance(exc, Exception):
                self.violation('error', where, 'program: %s, caller got %r' % (
                    dumps(op['dot']), exc))
            return
        if ((op.get('dot') or {}).get('delay', 0) >= seams.SLOW and used
                and isinstance(exc, Exception)):
            # may be given up, the whole picture is as good
            self.sim.count('dot_given_up')
            return
        key = op_key(op)
        expected = self.expect.get(key) if key else None
        got = {'ok': value} if exc is None else {'err': describe(exc)}
        if op['op'] == 'open':
            if expected is not None and exc is not None and 'ok' in expected:
                self.violation('error', where, '%s: %s' % (
                    type(exc).__name__, str(exc)[:300]))
            return
        if op['op'] == 'local':
            if exc is not None:
                expected = self.expect.get(dumps(['parse', norm_spec(op['p']), 'extract', op['t']]))
                if expected is None or 'ok' in expected:
                    self.violation('error', where, '%s: %s' % (type(exc).__name__, str(exc)[:300]))
            elif value:
                i, j, here, alone = value[0]
                self.violation('not-local', where, 'tokens [%d, %d): within the text %s, alone %s' % (
                    i, j, here, alone))
            return
        if key is None:
            if exc is not None:
                raise exc
            return
        if expected is None:
            return
        a, b = dumps(got), dumps({k: v for k, v in expected.items() if k != 'at'})
        if a != b:
            extra = '' if exc is None else ' (%s)' % str(exc)[:200]
            self.violation('mismatch', where, 'got %s%s want %s' % (
                clip(a, b), extra, clip(b, a)))

    def reenter(self, task, ops):
        if task.depth >= 3:
            return
        task.depth += 1
        try:
            for i, op in enumerate(ops):
                self.one(task, op, 'nested op %d' % i, nested=True)
        finally:
            task.depth -= 1

    def body(self, ops, name):
        def run(task):
            for i, op in enumerate(ops):
                self.one(task, op, '%s op %d' % (name, i))
                if i + 1 < len(ops):
                    simcore.turn(task)
        return run

    def execute(self):
        plan = self.plan
        conf = plan.get('env', {})
        if self.auto_gc:
            gc.collect()
            seams.gc_enable()
        else:
            seams.gc_disable()
        if conf.get('cache') is not None:
            seams.import_package(conf['cache'])
        alloc = None
        if conf.get('alloc'):
            alloc = simcore.SimAlloc(conf['alloc'], conf.get('alloc_seed', 0))
        seams.set_allocator(alloc)
        sim = simcore.Sim(plan.get('sched'), cap=plan.get('cap', 3000000))
        sim.reenter = self.reenter
        simcore.SIM = sim
        seams.HANDLER = on_hook
        seams.DOT_PLAN = dot_plan
        seams.DOT_MISSING = dot_missing
        simcore.set_granularity(conf.get('gran', 'line'))
        self.sim = sim
        try:
            self.env = Env()
            sim.run_inline(self.body(plan.get('pre', []), 'pre'))
            sim.run_tasks([self.body(ops, 'task %d' % i)
                           for i, ops in enumerate(plan.get('tasks', []))])
            sim.run_inline(self.body(plan.get('post', []), 'post'))
        except SimFatal as e:
            self.violation(e.kind, 'run', e.detail)
        except Exception as e:
            # what the package raises where nothing may fail is an answer too
            import traceback
            last = traceback.extract_tb(e.__traceback__)[-1]
            if not last.filename.startswith(seams.PKG_DIR):
                raise
            self.violation('error', 'run', '%s: %s (%s)' % (
                type(e).__name__, str(e)[:300], last.name))
        finally:
            simcore.CUR = None
            simcore.set_granularity(None)
            seams.HANDLER = None
        if alloc is not None:
            sim.count('id_reused', alloc.reused)
        return {
            'bad': self.bad, 'stats': sim.stats, 'switches': sim.switches,
            'hash': sim.hash, 'sw': sim.sw_hash, 'steps': sim.total,
            'clock': sim.clock, 'ops': self.ops_done, 'fired': self.fired,
            'unfired': self.unfired,
            'pre': sum(1 for s in sim.switches if s[0] == 'p'),
        }


def clip(a, b, width=700):
    """part of a around the first difference with b"""
    if len(a) <= width:
        return a
    i = 0
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            break
    start = max(0, i - 150)
    return ('...' if start else '') + a[start:start + width] + '...'


def run_solo(key, cache=None, gran='line', sites=False):
    """expected outcome of an operation: alone, pristine process"""
    op = key_op(key)
    table = {}
    seams.gc_disable()
    if cache is not None:
        seams.import_package(cache)
    seams.set_allocator(None)
    sim = simcore.Sim({'policy': 'serial'}, cap=150000)
    sim.reenter = None
    simcore.SIM = sim
    seams.HANDLER = on_hook
    simcore.set_granularity(gran)
    env = Env()
    result = {}

    def body(task):
        try:
            data = prepare(env, op)
        except SimFatal:
            raise
        except BaseException as e:
            result['outcome'] = {'err': describe(e), 'at': 'build'}
            return
        result['build_steps'] = sim.total
        task.begin_op(None)
        if sites:
            task.sites = []
        try:
            value = perform(env, op, data)
            result['outcome'] = {'ok': value}
        except SimFatal:
            raise
        except BaseException as e:
            result['outcome'] = {'err': describe(e)}
        if sites:
            # site table and the sequence of site indexes, hooks included
            trace = [table.setdefault((c, s), len(table)) for c, s in task.sites]
            result['table'] = list(table)
            result['trace'] = trace
            # sites next to writes: before and after
            heat = {}
            for (c, site), i in table.items():
                code = simcore._codes.get(c)
                if code is not None:
                    heat[i] = simcore.is_hot(code, site, gran)
            near = dict(heat)
            # the next point, and the next one of the same function: the write
            # is done there, what the line called is over
            keys = list(table)
            later = {}
            after = None
            for a in reversed(trace):
                code = keys[a][0]
                if heat.get(a):
                    for b in (after, later.get(code)):
                        if b is not None:
                            near[b] = max(near.get(b, 0), heat[a])
                later[code] = after = a
            # by module, modules differ in how many there are
            codes = {i: simcore._codes.get(c) for (c, site), i in table.items()}
            result['hot'] = []
            for level in (1, 2):
                groups = {}
                for i in sorted(near):
                    if near[i] == level:
                        name = codes[i].co_filename if codes[i] is not None else ''
                        groups.setdefault(name, []).append(i)
                result['hot'].append([groups[_] for _ in sorted(groups)])
            return
        result['steps'] = task.op_steps
        result['cb'] = dict(task.cb)
    try:
        sim.run_inline(body)
    except SimFatal:
        result = {'big': True}
    simcore.set_granularity(None)
    return result
