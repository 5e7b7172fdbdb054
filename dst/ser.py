"""Canonical, address-free form of everything a user can observe.

Only the public surface is read: spans, tokens, forms, trees, facts, text of
displays.  Two runs that a user could not tell apart serialise equally.
"""
import json
from hashlib import blake2b


def dumps(obj):
    return json.dumps(obj, ensure_ascii=False, sort_keys=True,
                      separators=(',', ':'))


def digest(obj):
    if not isinstance(obj, str):
        obj = dumps(obj)
    return blake2b(obj.encode('utf8', 'surrogatepass'), digest_size=8).hexdigest()


def ser_forms(forms):
    names = [_.normalized for _ in forms]
    full = [[_.normalized, sorted(_.grams.values)] for _ in forms]
    return [len(names), names[0] if names else None, digest(full)]


def ser_token(token):
    data = [token.value, token.span.start, token.span.stop, token.type]
    tag = getattr(token, 'tag', None)
    if tag is not None:
        data.append({'tag': tag})
    forms = getattr(token, 'forms', None)
    if forms is not None:
        data.append(ser_forms(forms))
    return data


def ser_tokens(tokens):
    return [ser_token(_) for _ in tokens]


def ser_node(node):
    token = getattr(node, 'token', None)
    if token is not None:
        return ser_token(token)
    return [node.label, [ser_node(_) for _ in node.children]]


def ser_value(value, depth=0):
    if depth > 12:
        return '...'
    if value is None or isinstance(value, (bool, int, str)):
        return value
    if isinstance(value, float):
        return repr(value)
    if isinstance(value, (list, tuple)):
        return [ser_value(_, depth + 1) for _ in value]
    if isinstance(value, (set, frozenset)):
        return {'set': sorted(dumps(ser_value(_, depth + 1)) for _ in value)}
    if isinstance(value, dict):
        return {'dict': [[ser_value(k, depth + 1), ser_value(v, depth + 1)]
                         for k, v in value.items()]}
    attributes = getattr(value, '__attributes__', None)
    if attributes is not None:
        return {type(value).__name__: [
            [_, ser_value(getattr(value, _), depth + 1)] for _ in attributes]}
    return 'object:' + type(value).__name__


def ser_span(span):
    return [span.start, span.stop]


def ser_fact(fact):
    data = {'fact': ser_value(fact)}
    if hasattr(type(fact), 'as_json'):
        try:
            data['spans'] = [ser_span(_) for _ in fact.spans]
        except AttributeError:
            # constants have no spans in this version
            data['spans'] = 'none'
        data['json'] = ser_value(fact.as_json)
    return data


def has_interpretation(match):
    return match.tree.root.interpretator is not None


def ser_match(match, fact=True):
    data = {
        'span': ser_span(match.span),
        'tokens': ser_tokens(match.tokens),
        'tree': ser_node(match.tree.root),
    }
    if fact and has_interpretation(match):
        data['fact'] = ser_fact(match.fact)
    return data
