"""C23: configured limits and name patterns apply exactly where no explicit option does."""
import jadn
from jadn.codec import Codec
from h_spec import b64url
from h_util import rejects, schema_of

BOUNDS = ('Limits: $MaxString, $MaxBinary, $MaxElements absent or symbolic in 1..6, in the info of the schema, in the configuration passed to the codec, in both, or in an info without config; an explicit '
          'maximum absent, 0 or symbolic 1..6 and a minimum; values of 0 to 7 characters, bytes or elements, and lengths around the documented defaults 255 and 100; types String, Binary, Array, ArrayOf, '
          'Map, MapOf, Record as types, bare String and Binary fields, and multiple-valued fields; encode and decode. Names: $TypeName, $FieldName, $NSID, $Sys default or replaced by one of '
          'several patterns; symbolic names of up to nlen characters and of 63 to 66 characters, used as type names and field names by check() and in options that refer to a pattern.')
ASSUMPTIONS = ['A maximum of 0 in a size option means no explicit maximum.', 'Configured limits are positive integers.', 'A configured $TypeName matches the names of the built-in types that occur as field types (check() applies it to every type reference).']
PARAMS = {'quick': {'nlen': 2}, 'thorough': {'nlen': 3}}
KINDS = ('String', 'Binary', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record', 'fString', 'fBinary', 'multi')
REACH = [k + s for k in KINDS for s in ('-ok', '-over')] + ['name-ok', 'name-bad', 'default-ok', 'default-over', 'option-ok', 'option-bad']
CFG = {'String': '$MaxString', 'Binary': '$MaxBinary'}
DEFAULT = {'$MaxString': 255, '$MaxBinary': 255, '$MaxElements': 100}


def types_of(kind, opts, n):
    if kind in ('fString', 'fBinary'):
        return [['T', 'Record', [], '', [[1, 'f', kind[1:], list(opts), '']]]]
    if kind == 'multi':
        return [['T', 'Record', [], '', [[1, 'f', 'Integer', list(opts), '']]]]
    if kind in ('Array', 'Map', 'Record'):
        return [['T', kind, opts, '', [[i + 1, 'f' + str(i), 'Integer', ['[0'], ''] for i in range(8)]]]
    return [['T', kind, opts + (['*Integer'] if kind == 'ArrayOf' else ['+String', '*Integer'] if kind == 'MapOf' else []), '']]


def value_of(sx, kind, n, wire, vr):
    if kind in ('String', 'fString'):
        v = 'x' * n
    elif kind in ('Binary', 'fBinary'):
        v = b64url(b'y' * n) if wire else b'y' * n
    elif kind in ('ArrayOf', 'Array', 'multi'):
        v = [i for i in range(n)]
    elif kind == 'MapOf':
        v = {'k' + str(i): i for i in range(n)}
    elif wire and kind == 'Record' and not vr:
        v = [i for i in range(n)]
    else:
        v = {'f' + str(i): i for i in range(n)}
    if kind in ('fString', 'fBinary', 'multi'):
        return [v] if wire and not vr else {'f': v}
    return v


def expect(sx, kind, c, wire, vr, n, ok, tag):
    v = value_of(sx, kind, n, wire, vr)
    r = sx.call(c.decode if wire else c.encode, 'T', v)
    sx.reach(tag + ('-ok' if ok else '-over'))
    sx.check(r[0] == ('ok' if ok else 'err'), f'{kind}: {n} accepted' if not ok else f'{kind}: {n} rejected', r[1])
    sx.check(ok or rejects(r), f'{kind}: raises {r[1]}')


def limits(sx):
    kind = sx.pick('kind', KINDS)
    base = kind[1:] if kind[0] == 'f' else kind
    key = CFG.get(base, '$MaxElements')
    other = '$MaxElements' if key != '$MaxElements' else '$MaxString'
    wire = sx.bool('decode')
    vr = sx.bool('vr') if base in ('Record', 'multi') or kind[0] == 'f' else True
    where = sx.pick('where', ('schema', 'config', 'both', 'noconfig'))
    lim = sx.int('lim', 1, 6)
    lim2 = sx.int('lim2', 1, 6)
    schema, config = {'info': {'package': 'p'}}, None
    if where in ('schema', 'both'):
        schema['info']['config'] = {key: lim2 if where == 'both' else lim, other: 7}
    if where in ('config', 'both'):
        config = {'info': {'package': 'q', 'config': {key: lim, other: 8}}}
    elif where == 'noconfig' and sx.bool('givenconfig'):
        schema['info']['config'] = {key: lim}
        config = {'info': {'package': 'q'}} if sx.bool('info') else {'types': []}
    expl = sx.pick('explicit', ('none', 'max', 'min', 'zero'))
    limit = DEFAULT[key] if where == 'noconfig' else lim
    opts = []
    if expl == 'max':
        limit = sx.int('max', 2, 6)
        opts = [('}' if kind != 'multi' else ']') + str(limit)]
    elif expl == 'min':
        opts = ['{1'] if kind != 'multi' else ['[1', ']0']
    elif expl == 'zero':
        opts = ['}0'] if kind != 'multi' else [']0']
    elif kind == 'multi':
        opts = ['[0', ']0']
    n = sx.pick('n', (0, 1, 2, 3, 5, 6, 7))
    if n == 0 and (kind == 'multi' or expl == 'min'):
        sx.discard()
    schema['types'] = types_of(kind, opts, n)
    c = Codec(schema, vr, True, config) if config is not None else Codec(schema, vr, True)
    expect(sx, kind, c, wire, vr, n, bool(n <= limit), kind)


def defaults(sx):
    """The documented defaults, and explicit maxima beyond them."""
    kind = sx.pick('kind', ('String', 'Binary', 'ArrayOf', 'MapOf', 'fString', 'fBinary', 'multi'))
    base = kind[1:] if kind[0] == 'f' else kind
    d = DEFAULT[CFG.get(base, '$MaxElements')]
    wire = sx.bool('decode')
    n = d + sx.pick('n', (-1, 0, 1, 2))
    opts = ['[0', ']0'] if kind == 'multi' else []
    if sx.bool('explicit'):
        m = sx.int('max', d - 2, d + 3)
        opts = [(']' if kind == 'multi' else '}') + str(m)]
        d = m
    schema = schema_of(*types_of(kind, opts, n))
    if sx.bool('info'):
        schema['info'] = {'package': 'p', 'config': {'$FieldName': '^x$'}}
    expect(sx, kind, Codec(schema, True, True), wire, True, n, bool(n <= d), 'default')


# patterns and what they mean
def between(c, a, b):
    return bool(a <= c) and bool(c <= b)


def ident(s, first, rest):
    if not 1 <= len(s) <= 64:
        return False
    for i, c in enumerate(s):
        if not (first if i == 0 else rest)(c):
            return False
    return True


def p_type(s):
    return ident(s, lambda c: c == '$' or between(c, 'A', 'Z'), lambda c: c in '$-' or between(c, 'A', 'Z') or between(c, 'a', 'z') or between(c, '0', '9'))


def p_field(s):
    return ident(s, lambda c: c == '$' or between(c, 'a', 'z'), lambda c: c in '_$' or between(c, 'A', 'Z') or between(c, 'a', 'z') or between(c, '0', '9'))


def p_low(s):
    if len(s) == 0:
        return False
    for c in s:
        if not between(c, 'a', 'z'):
            return False
    return True


def p_two(s):
    return len(s) == 2 and s[0] in 'TR' and s[1] in '-x'


PATS = [(None, None), ('^[a-z]+$', p_low), ('^[TR][-x]$', p_two)]
ALPHA = 'aZ0_-$.TRx:\u00e9'


def make_schema(info, tn, fn, ref=None):
    return {'info': {'package': 'http://p', 'exports': [tn], **info},
            'types': [[tn, 'Record', [], '', [[1, fn, ref or 'Integer', [], '']]]]}


def names(sx):
    """check() applies the configured patterns to type and field names."""
    which = sx.pick('which', ('type', 'field'))
    pat, pred = sx.pick('pattern', PATS)
    other = sx.bool('other')
    s = sx.str('name', 1, sx.p('nlen'), ALPHA)
    cfg = {}
    if pat:
        cfg['$TypeName' if which == 'type' else '$FieldName'] = pat
    if other:
        cfg['$FieldName' if which == 'type' else '$TypeName'] = '^.*$' if sx.bool('loose') else '^[I-Xa-x]+$'
    info = {'config': cfg} if cfg else {}
    schema = {'info': {'package': 'http://p', 'exports': [s], **info}, 'types': [[s, 'String', [], '']]} if which == 'type' else make_schema(info, 'TX', s)
    ok = (pred or (p_type if which == 'type' else p_field))(s)
    r = sx.call(jadn.check, schema)
    sx.reach('name-ok' if ok else 'name-bad')
    sx.check(r[0] == ('ok' if ok else 'err'), f'{which} name: {r[0]}', (s, cfg, r[1]))


def long_names(sx):
    which = sx.pick('which', ('type', 'field'))
    n = sx.pick('n', (62, 63, 64, 65))
    c = sx.str('c', 1, 1, 'aZ0$_- ')
    s = ('T' if which == 'type' else 't') + 'a' * (n - 2) + c
    schema = make_schema({}, s, 'tx') if which == 'type' else make_schema({}, 'TX', s)
    ok = (p_type if which == 'type' else p_field)(s)
    r = sx.call(jadn.check, schema)
    sx.check(r[0] == ('ok' if ok else 'err'), f'long {which} name: {r[0]}', (s, r[1]))


def options(sx):
    """Type options that refer to a configured pattern; TypeRef = optional namespace identifier and type name."""
    k = sx.pick('opt', ('$TypeName', '$FieldName', '$NSID', 'TypeRef'))
    pat, pred = sx.pick('pattern', PATS)
    cfg = {}
    t = 'T'
    typ = ['T', 'String', ['%' + k], '']
    if k == 'TypeRef':
        typ = ['TypeRef', 'String', [], '']
        t = 'TypeRef'
    key = '$TypeName' if k == 'TypeRef' else k
    if pat:
        cfg[key] = pat
    if k == 'TypeRef' and sx.bool('nsid'):
        cfg['$NSID'] = '^[TR][-x]$'
    s = sx.str('name', 0, sx.p('nlen') + (k == 'TypeRef'), 'aZ0$TRx-:')
    where = sx.bool('codecconfig')
    schema = {'info': {'package': 'p', 'config': {key: '^zzz$'} if where else cfg}, 'types': [typ]}
    c = Codec(schema, True, True, {'info': {'package': 'q', 'config': cfg}}) if where else Codec(schema, True, True)
    if k == '$NSID':
        def default(x):
            if len(x) == 0:
                return True
            return len(x) <= 8 and (between(x[0], 'A', 'Z') or between(x[0], 'a', 'z')) and all([between(y, 'A', 'Z') or between(y, 'a', 'z') or between(y, '0', '9') for y in x])
    else:
        default = p_field if k == '$FieldName' else p_type
    pred = pred or default
    if k == 'TypeRef':
        i = s.find(':')
        if i < 0:
            ok = pred(s)
        else:
            ns = s[:i]
            ok = pred(s[i + 1:]) and (p_two(ns) if '$NSID' in cfg else len(ns) == 0 or (len(ns) <= 8 and (between(ns[0], 'A', 'Z') or between(ns[0], 'a', 'z'))
                                      and all([between(y, 'A', 'Z') or between(y, 'a', 'z') or between(y, '0', '9') for y in ns])))
    else:
        ok = pred(s)
    r = sx.call(c.decode if sx.bool('decode') else c.encode, t, s)
    sx.reach('option-ok' if ok else 'option-bad')
    sx.check(r[0] == ('ok' if ok else 'err'), f'{k}: {r[0]}', (s, cfg, r[1]))


HARNESSES = {'limits': limits, 'defaults': defaults, 'names': names, 'long_names': long_names, 'options': options}
