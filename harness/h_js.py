"""JSON Schema draft-07 semantics for the keywords that the translation uses (harness side)."""
import re

ANNOTATIONS = {'title', 'description', '$schema', '$id', '$comment', 'version', 'comments', 'comment', 'copyright', 'license', 'definitions', 'imports', 'contentEncoding', 'format', 'default', 'examples'}
KEYWORDS = {'$ref', 'type', 'enum', 'const', 'minimum', 'maximum', 'minLength', 'maxLength', 'pattern', 'items', 'additionalItems', 'minItems', 'maxItems', 'uniqueItems', 'properties',
            'required', 'additionalProperties', 'patternProperties', 'propertyNames', 'minProperties', 'maxProperties', 'anyOf', 'allOf', 'oneOf', 'not'}


class Dangling(Exception):
    pass


def kind(v):
    if v is None:
        return 'null'
    if isinstance(v, bool):
        return 'boolean'
    if isinstance(v, int):
        return 'integer'
    if isinstance(v, float):
        return 'number'
    if isinstance(v, str):
        return 'string'
    if isinstance(v, (list, tuple)):
        return 'array'
    return 'object'


def equal(a, b):
    """JSON equality."""
    ka, kb = kind(a), kind(b)
    if ka in ('integer', 'number') and kb in ('integer', 'number'):
        return a == b
    if ka != kb:
        return False
    if ka == 'array':
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if ka == 'object':
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    return a == b


def lookup(doc, ref):
    if not ref.startswith('#'):
        raise Dangling(ref)
    d = doc
    for k in ref[1:].split('/')[1:]:
        if not isinstance(d, dict) or k not in d:
            raise Dangling(ref)
        d = d[k]
    return d


def search(p, v):
    """Patterns are ECMA 262: an unescaped $ is the end of the text only."""
    if p.endswith('$') and not p.endswith('\\$'):
        p = p[:-1] + r'\Z'
    return re.search(p, v) is not None


def valid(doc, s, v, depth=0):
    if s is True or s is False:
        return s
    assert isinstance(s, dict), s
    assert depth < 40, 'reference cycle'
    extra = set(s) - KEYWORDS - ANNOTATIONS
    assert not extra, f'unknown keyword {extra}'
    if '$ref' in s:             # siblings are ignored
        return valid(doc, lookup(doc, s['$ref']), v, depth + 1)
    k = kind(v)
    if 'type' in s:
        t = s['type']
        ts = t if isinstance(t, list) else [t]
        if not (k in ts or k == 'integer' and 'number' in ts):
            return False
    if 'enum' in s and not any(equal(e, v) for e in s['enum']):
        return False
    if 'const' in s and not equal(s['const'], v):
        return False
    if k in ('integer', 'number'):
        if 'minimum' in s and v < s['minimum'] or 'maximum' in s and v > s['maximum']:
            return False
    elif k == 'string':
        if 'minLength' in s and len(v) < s['minLength'] or 'maxLength' in s and len(v) > s['maxLength']:
            return False
        if 'pattern' in s and not search(s['pattern'], v):
            return False
    elif k == 'array':
        if 'minItems' in s and len(v) < s['minItems'] or 'maxItems' in s and len(v) > s['maxItems']:
            return False
        if s.get('uniqueItems') and any(equal(v[i], v[j]) for i in range(len(v)) for j in range(i)):
            return False
        items = s.get('items', True)
        if isinstance(items, list):
            for i, x in enumerate(v):
                if not valid(doc, items[i] if i < len(items) else s.get('additionalItems', True), x, depth + 1):
                    return False
        elif not all(valid(doc, items, x, depth + 1) for x in v):
            return False
    elif k == 'object':
        if 'minProperties' in s and len(v) < s['minProperties'] or 'maxProperties' in s and len(v) > s['maxProperties']:
            return False
        if any(r not in v for r in s.get('required', [])):
            return False
        for n, x in v.items():
            if 'propertyNames' in s and not valid(doc, s['propertyNames'], n, depth + 1):
                return False
            known = False
            if n in s.get('properties', {}):
                known = True
                if not valid(doc, s['properties'][n], x, depth + 1):
                    return False
            for p, ps in s.get('patternProperties', {}).items():
                if search(p, n):
                    known = True
                    if not valid(doc, ps, x, depth + 1):
                        return False
            if not known and not valid(doc, s.get('additionalProperties', True), x, depth + 1):
                return False
    for key in ('anyOf', 'allOf', 'oneOf'):
        if key in s:
            n = len([1 for t in s[key] if valid(doc, t, v, depth + 1)])
            if not {'anyOf': n >= 1, 'allOf': n == len(s[key]), 'oneOf': n == 1}[key]:
                return False
    return 'not' not in s or not valid(doc, s['not'], v, depth + 1)


def refs(s):
    """All $ref values of a schema document (keyword positions only)."""
    if isinstance(s, list):
        return [r for x in s for r in refs(x)]
    if not isinstance(s, dict):
        return []
    out = [s['$ref']] if isinstance(s.get('$ref'), str) else []
    for k, x in s.items():
        if k in ('properties', 'patternProperties', 'definitions', 'imports'):
            out += [r for y in x.values() for r in (refs(y) if k != 'imports' else refs(list(y.values())))]
        elif k not in ('enum', 'const', 'required', '$ref'):
            out += refs(x)
    return out
