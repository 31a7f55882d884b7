"""C20: the JSON Schema translation is closed and agrees with the codec."""
import os
import json
import jadn
from jadn.codec import Codec
from jadn.translate import json_schema_dumps
from h_util import schema_of, anyval
from h_js import valid, refs, lookup, kind, Dangling

BOUNDS = ('Scalar types with symbolic bounds (integers +-10^6, sizes 0..4), formats and patterns as type, field, element, repeated field and alternative; values of every JSON kind; Enumerated, .ID and derived '
          'enumerations in the three styles; Record, Map, Map.ID, Array and concise Record of up to 2 (thorough 3) fields, any subset present; ArrayOf and repeated fields of up to 2 (3) elements; configured limits; tagged and untagged '
          'unions; MapOf of up to 2 entries; links; external tags; the JADN metaschema itself; all ways to refer to local, imported and undeclared types; symbolic text in every name and description position.')
ASSUMPTIONS = ['The harness evaluates the draft-07 keywords; format and contentEncoding are annotations, so types with formats and Binary are checked in one direction (what the codec accepts is valid).',
               'One direction only: Array sizes with null items, externally tagged choices, MapOf with enumerated keys (the codec requires all of them). MapOf with integer keys is described as an array, which the codec does not use: not compared.',
               'Not offered: integer-valued floats, explicit null for absent fields, patterns applied to texts with line breaks or that do not start with ^, structured built-in types without options as vtype or ktype.']

PARAMS = {'quick': {}, 'thorough': {'full': True}}
REACH = ['Integer', 'Number', 'String', 'Pattern', 'Boolean', 'Binary', 'place-type', 'place-field', 'place-vtype', 'place-multi', 'place-union', 'accept', 'reject', 'kinds', 'enums-enum', 'enums-const', 'enums-regex', 'fields-Record',
         'fields-Map', 'fields-MapID', 'fields-Array', 'fields-RecordList', 'lists', 'limits', 'choice-tag', 'choice-tagid', 'choice-CO', 'choice-CA', 'choice-CX', 'mapof-exact', 'mapof-oneway', 'links', 'tags', 'meta', 'meta-accept',
         'closed', 'closed-link', 'import-any', 'import-ref', 'text-typedesc', 'text-fielddesc', 'text-itemdesc', 'text-item', 'text-title', 'text-name', 'text-pattern', 'text-dump', 'formats']

STYLES = ('enum', 'const', 'regex')


class Plain:
    """Stands for the json module in the translation: keeps the document as data (its text form is the subject of the harness `text`)."""
    loads = json.loads

    @staticmethod
    def dumps(x, **kw):
        return x


def translate(sx, schema, **kw):
    sx.stub('jadn.translate.jsonschema_w', 'json', Plain)
    r = sx.call(json_schema_dumps, schema, **kw)
    sx.check(r[0] == 'ok', 'the translation fails', r[1])
    doc = r[1]
    return json.loads(doc) if isinstance(doc, str) else doc


def agree(sx, schema, t, x, exact=True, rec=True, doc=None, **kw):
    """The codec and the generated schema agree on x under type t (exact), or x is valid in the schema if the codec accepts it."""
    doc = doc or translate(sx, schema, verbose=rec, **kw)
    c = Codec(sx.deepcopy(schema), verbose_rec=rec, verbose_str=True)
    r = sx.call(c.decode, t, x)
    try:
        ok = valid(doc, {'$ref': '#/definitions/' + t}, x)
    except Dangling as e:
        sx.check(False, f'{t}: dangling reference {e}')
    if r[0] == 'ok':
        sx.check(ok, f'{t}: a value that the codec accepts is not valid in the JSON Schema', x)
        sx.reach('accept')
    elif exact:
        sx.check(not ok, f'{t}: a value that the codec rejects is valid in the JSON Schema', (x, r[1]))
        sx.reach('reject')
    return doc


def other(sx, name):
    """A JSON value of any kind, small."""
    k = sx.pick(name, ('none', 'bool', 'int', 'float', 'str', 'list', 'dict'))
    return {'none': None, 'bool': True, 'int': 1, 'float': 1.5, 'str': '1', 'list': [], 'dict': {}}[k]


ENUMS = {'E': ['E', 'Enumerated', [], '', [[3, 'x', 'ex'], [7, 'y.z', '']]],
         'EI': ['EI', 'Enumerated', ['='], '', [[3, 'x', 'ex'], [7, 'y', '']]],
         'R': ['R', 'Record', [], '', [[1, 'p', 'Integer', [], 'pee'], [2, 'q', 'S', ['<', '[0'], '']]],
         'S': ['S', 'Map', ['='], '', [[4, 'u', 'Integer', [], ''], [6, 'v', 'String', [], '']]],
         'D': ['D', 'Enumerated', ['#R'], '']}


def scalar(sx, place):
    """Options and a value for a scalar type."""
    t = sx.pick('type', ('Integer', 'Number', 'String', 'Pattern', 'Boolean', 'Binary'))
    opts = []
    if t == 'Integer':
        if sx.bool('hasmin'):
            a = sx.int('lo', -10 ** 6, 10 ** 6)
            opts.append('{' + str(a))
        if sx.bool('hasmax'):
            b = sx.int('hi', -10 ** 6, 10 ** 6)
            opts.append('}' + str(b))
            if len(opts) == 2:
                sx.assume(a <= b)
        f = sx.pick('format', ('', 'i8', 'i16', 'i32', 'i64')) if sx.p('full') or len(opts) < 2 else sx.pick('format', ('', 'i8'))
        if f:
            opts.insert(0, '/' + f)
        v = sx.int('v')
    elif t == 'Number':
        lo, hi = sx.pick('bounds', ((None, None), ('-1.5', None), (None, '2e3'), ('0', '0'), ('-3', '0.25')))
        opts = ([] if lo is None else ['y' + lo]) + ([] if hi is None else ['z' + hi])
        v = sx.float('v') if sx.bool('isfloat') else sx.int('v', -10 ** 6, 10 ** 6)
    elif t == 'String':
        if sx.bool('hasmin'):
            a = sx.int('lo', 0, 4)
            opts.append('{' + str(a))
        if sx.bool('hasmax'):
            b = sx.int('hi', 0, 4)
            opts.append('}' + str(b))
            if len(opts) == 2:
                sx.assume(a <= b)
        v = sx.str('v', 0, 5)
    elif t == 'Pattern':
        opts = ['%' + sx.pick('pattern', ('^[a-c]+$', '^a.c$', '^x{1,2}', '^(ab|cd)?e$', '^$', '$TypeName', '^\\d+$'))]
        v = sx.str('v', 0, 3)
        sx.assume(sx.Not('\n' in v))
    elif t == 'Boolean':
        v = sx.bool('v')
    else:
        f = sx.pick('format', ('', 'x', 'X', 'b'))
        opts = ['/' + f] if f else []
        v = sx.str('v', 0, 4)
    return t, 'String' if t == 'Pattern' else t, opts, v


def place(sx, b, opts, v):
    """The type as a definition, a field, an element or an element of a repeated field: (schema, value)."""
    where = sx.pick('where', ('type', 'field', 'vtype', 'multi', 'union'))
    sx.reach('place-' + where)
    if where == 'type':
        return schema_of(['T', b, opts, 'desc']), v
    if where == 'field':
        return schema_of(['T', 'Record', [], '', [[1, 'a', b, opts, 'desc']]]), {'a': v}
    if where == 'vtype':
        return schema_of(['T', 'ArrayOf', ['*U'], ''], ['U', b, opts, '']), [v]
    if where == 'multi':
        return schema_of(['T', 'Map', [], '', [[1, 'a', b, opts + [']2'], 'desc']]]), {'a': [v]}
    return schema_of(['T', 'Choice', ['CX'], '', [[1, 'a', b, opts, 'desc'], [2, 'b', 'N', [], '']]], ['N', 'ArrayOf', ['*Boolean'], '']), v


def scalars(sx):
    t, b, opts, v = scalar(sx, 0)
    schema, x = place(sx, b, opts, v)
    agree(sx, schema, 'T', x, exact=t != 'Binary')
    sx.reach(t)


def kinds(sx):
    """Values of other kinds."""
    b = sx.pick('type', ('Integer', 'Number', 'String', 'Boolean', 'Binary', 'ArrayOf', 'MapOf', 'Record', 'Map', 'Array', 'Choice', 'Enumerated', 'EnumID'))
    v = other(sx, 'v')
    fs = [[1, 'a', 'Integer', [] if b == 'Choice' else ['[0'], '']]
    d = {'ArrayOf': ['U', b, ['*Integer'], ''], 'MapOf': ['U', b, ['+String', '*Integer'], ''], 'Enumerated': ['U', b, [], '', [[3, 'x', '']]],
         'EnumID': ['U', 'Enumerated', ['='], '', [[3, 'x', '']]]}.get(b, ['U', b, [], '', fs if b in ('Record', 'Map', 'Array', 'Choice') else []])
    where = sx.pick('where', ('type', 'field', 'opt', 'vtype', 'value'))
    if where == 'type':
        schema, t, x = schema_of(d), 'U', v
    elif where in ('field', 'opt'):
        schema, t, x = schema_of(['T', 'Record', [], '', [[1, 'a', 'U', ['[0'] if where == 'opt' else [], '']]], d), 'T', {'a': v}
        if where == 'opt' and v is None:
            sx.discard()
    elif where == 'vtype':
        schema, t, x = schema_of(['T', 'ArrayOf', ['*U'], ''], d), 'T', [v]
    else:
        schema, t, x = schema_of(['T', 'MapOf', ['+String', '*U'], ''], d), 'T', {'k': v}
    style = sx.pick('style', STYLES) if b in ('Enumerated', 'EnumID') else 'enum'
    agree(sx, schema, t, x, exact=b != 'Binary', enum_style=style)
    sx.reach('kinds')


def enums(sx):
    """Enumerated types, derived ones included, in all styles."""
    style = sx.pick('style', STYLES)
    how = sx.pick('how', ('E', 'EI', '#E', '#EI', '#R', '#S', '>R', '#D', '#C'))
    idopt = sx.bool('id') if how not in ('E', 'EI') else how == 'EI'
    more = [ENUMS[n] for n in ENUMS] + [['C', 'Choice', [], '', [[2, 'k', 'Integer', [], ''], [9, 'l', 'String', [], '']]]]
    where = sx.pick('where', ('type', 'field', 'vtype', 'multi'))
    ids = idopt
    if how in ('E', 'EI'):
        ft, fo, d = how, [], None
        if where == 'type':
            d = [more[0 if how == 'E' else 1]]
        vt = how
    else:
        fo = [how] + (['='] if idopt else [])
        ft, d = 'Enumerated', [['T', 'Enumerated', fo, 'desc']]
        vt = how
        if where == 'vtype':
            ids = False
            if idopt:
                sx.discard()
    v = sx.int('v', 0, 10) if ids else sx.str('v', 1, 3, 'pquvxyz./kl')
    if where == 'type':
        schema, t, x = schema_of(*(d if how not in ('E', 'EI') else []), *more), how if how in ('E', 'EI') else 'T', v
    elif where == 'field':
        schema, t, x = schema_of(['T', 'Record', [], '', [[1, 'a', ft, fo, 'desc']]], *more), 'T', {'a': v}
    elif where == 'multi':
        schema, t, x = schema_of(['T', 'Record', [], '', [[1, 'a', ft, fo + [']3', '[0'], 'desc']]], *more), 'T', {'a': [v, v]}
    else:
        schema, t, x = schema_of(['T', 'ArrayOf', ['*' + vt], ''], *more), 'T', [v]
    agree(sx, schema, t, x, enum_style=style)
    sx.reach('enums-' + style)


def size(sx, opts, name='size', hi=4):
    k = sx.pick(name, ('none', 'min', 'max', 'both'))
    a = b = None
    if k in ('min', 'both'):
        a = sx.int(name + '.lo', 0, hi)
        opts.append('{' + str(a))
    if k in ('max', 'both'):
        b = sx.int(name + '.hi', 0, hi)
        opts.append('}' + str(b))
        if k == 'both':
            sx.assume(a <= b)
    return opts


def fields(sx):
    """Records, maps and arrays: required and optional fields, any subset present, unknown ones, sizes."""
    base = sx.pick('base', ('Record', 'Map', 'MapID', 'Array', 'RecordList'))
    b = {'MapID': 'Map', 'RecordList': 'Record'}.get(base, base)
    n = sx.pick('n', (1, 2, 3) if sx.p('full') else (1, 2))
    aslist = base in ('Array', 'RecordList')
    step = 3 if b == 'Map' else 1
    opts = size(sx, ['='] if base == 'MapID' else [])
    fs = [[(i + 1) * step, 'abc'[i], 'I', ['[0'] if sx.bool(f'opt{i}') else [], 'd'] for i in range(n)]
    schema = schema_of(['T', b, opts, '', fs], ['I', 'Integer', ['{0', '}9'], ''])
    exact = True
    if aslist:
        x = []
        for i in range(sx.pick('len', range(n + 2))):
            if sx.bool(f'null{i}'):
                x.append(None)
            else:
                x.append(sx.int(f'v{i}', -2, 12) if i == 0 else i)
        # sizes count only items that are not null
        exact = not any(f[3] for f in fs) or not any(o[0] in '{}' for o in opts)
    else:
        x = {}
        for i in range(n):
            if sx.bool(f'has{i}'):
                x[str(fs[i][0]) if base == 'MapID' else fs[i][1]] = sx.int(f'v{i}', -2, 12) if i == 0 else i
        u = sx.pick('unknown', ('none', 'zz', 'a', '1'))
        if u != 'none':
            sx.assume(u not in x)
            x[u] = 5
    agree(sx, schema, 'T', x, exact=exact, rec=base != 'RecordList')
    sx.reach('fields-' + base)
    sx.reach('exact' if exact else 'nulls')


def lists(sx):
    """ArrayOf: sizes, distinct elements, element types; repeated fields; the configured limit."""
    how = sx.pick('how', ('ArrayOf', 'field', 'anon'))
    u = sx.pick('unique', ([], ['q'], ['s'], ['b']) if how != 'field' else ([], ['q']))
    n = sx.pick('n', (0, 1, 2, 3) if sx.p('full') else (0, 1, 2))
    et = sx.pick('elem', ('I', 'S', 'Integer', 'String', 'E', 'L'))
    if how == 'field' and u and et in ('Integer', 'String'):
        sx.discard()
    conf = sx.pick('config', (None, 1)) if sx.p('full') or et in ('I', 'String') else None
    if et in ('I', 'Integer'):
        x = [sx.int(f'v{i}', -1, 10) for i in range(n)]
    elif et == 'L':
        x = [[sx.int(f'v{i}', 0, 3)] for i in range(n)]
    else:
        x = [sx.str(f'v{i}', 0, 2, 'xy') for i in range(n)]
    defs = [['I', 'Integer', ['{0', '}9'], ''], ['S', 'String', ['{1'], ''], ENUMS['E'], ['L', 'ArrayOf', ['*Integer', '{1'], '']]
    if how == 'field':
        lo, hi = sx.pick('mult', ((0, 0), (1, 0), (0, 2), (2, 2), (2, 0), (2, 3)))
        o = ['[' + str(lo), ']' + str(hi)] + u
        schema, x = schema_of(['T', 'Record', [], '', [[1, 'a', et, o, 'desc']]], *defs), {'a': x}
    else:
        o = size(sx, ['*' + et] + u, hi=3)
        schema = schema_of(['T', 'ArrayOf', o, ''], *defs)
        if how == 'anon':
            schema, x = schema_of(['T', 'Record', [], '', [[1, 'a', 'ArrayOf', o, 'desc']]], *defs), {'a': x}
    if conf is not None:
        schema['info'] = {'package': 'http://p', 'config': {'$MaxElements': conf, '$MaxString': 1}}
    agree(sx, schema, 'T', x)
    sx.reach('lists')


def limits(sx):
    """Configured limits and explicit ones, in every place."""
    info = {'package': 'http://p'}
    if sx.bool('configured'):
        info['config'] = {'$MaxString': sx.int('smax', 1, 4), '$MaxElements': sx.int('emax', 1, 4)}
    b = sx.pick('base', ('String', 'ArrayOf', 'MapOf', 'Map', 'Record'))
    mx = sx.pick('max', (None, 0, 2))
    o = [] if mx is None else ['}' + str(mx)]
    k = sx.pick('k', (0, 1, 3, 5)) if b not in ('Map', 'Record') else sx.pick('k', (0, 1, 3))
    where = sx.pick('where', ('type', 'field', 'elem', 'multi')) if b in ('String', 'ArrayOf', 'MapOf') else 'type'
    fs = []
    if b == 'String':
        v = 'x' * k
    elif b == 'ArrayOf':
        o, v = ['*Integer'] + o, list(range(k))
    elif b == 'MapOf':
        o, v = ['+String', '*Integer'] + o, {'kabcd'[i]: i for i in range(k)}
    else:
        fs = [[i + 1, 'abc'[i], 'Integer', ['[0'], ''] for i in range(3)]
        v = {'abc'[i]: i for i in range(k)}
    d = ['U', b, o, '', fs]
    if where == 'type':
        schema, t, x = schema_of(d), 'U', v
    elif where == 'field':
        schema, t, x = schema_of(['T', 'Record', [], '', [[1, 'a', b, o, '']]]), 'T', {'a': v}
    elif where == 'elem':
        if b == 'String' and mx is None:
            schema, t, x = schema_of(['T', 'ArrayOf', ['*String'], '']), 'T', [v]
        else:
            schema, t, x = schema_of(['T', 'ArrayOf', ['*U'], ''], d), 'T', [v]
    else:
        schema, t, x = schema_of(['T', 'Record', [], '', [[1, 'a', b, o + [']0'], '']]]), 'T', {'a': [v] * sx.pick('rep', (1, 3, 5))}
    schema['info'] = info
    agree(sx, schema, t, x)
    sx.reach('limits')


LEAVES = {'I': ['I', 'Integer', ['{0', '}9'], ''], 'S': ['S', 'String', ['{1'], ''], 'B': ['B', 'Boolean', [], ''], 'L': ['L', 'ArrayOf', ['*I', '{1'], '']}


def leafval(sx, name):
    k = sx.pick(name, ('int', 'str', 'bool', 'list'))
    return {'int': lambda: sx.int(name + '.i', -20, 20), 'str': lambda: sx.str(name + '.s', 0, 2), 'bool': lambda: sx.bool(name + '.b'), 'list': lambda: [sx.int(name + '.l', -1, 10)]}[k]()


def choices(sx):
    """Tagged and untagged unions."""
    how = sx.pick('how', ('tag', 'tagid', 'CO', 'CA', 'CX'))
    alt = sx.pick('types', (('I', 'S'), ('I', 'B'), ('Integer', 'I'), ('S', 'String'), ('I', 'I'), ('L', 'S'), ('Anon', 'I'), ('Anon', 'S2')))
    fs = []
    for i, a in enumerate(alt):
        t, o = {'Anon': ('Integer', ['{5', '}15']), 'S2': ('String', ['}1'])}.get(a, (a, []))
        fs.append([i * 3 + 2, 'ab'[i], t, list(o), 'd'])
    opts = {'tag': [], 'tagid': ['=']}.get(how, [how])
    schema = schema_of(['T', 'Choice', opts, '', fs], *LEAVES.values())
    if how in ('tag', 'tagid'):
        x = {}
        for i in range(sx.pick('n', (0, 1, 2))):
            k = sx.pick(f'k{i}', ('a', 'b', '2', '5', 'c', '7'))
            sx.assume(k not in x)
            x[k] = leafval(sx, f'v{i}') if i == 0 else 1
        exact = True
    else:
        x, exact = leafval(sx, 'v'), True
        if 'Anon' in alt or 'S2' in alt:
            pass
    agree(sx, schema, 'T', x, exact=exact)
    sx.reach('choice-' + how)


def mapofs(sx):
    kt = sx.pick('ktype', ('String', 'K', 'E', '#R', 'D', 'Binary'))
    vt = sx.pick('vtype', ('I', 'Integer', 'S', '#R', 'E'))
    style = sx.pick('style', STYLES) if kt in ('E', '#R', 'D') or vt in ('E', '#R') else 'enum'
    opts = ['+' + kt, '*' + vt]
    if kt != 'Binary' and vt in ('I', '#R') and sx.bool('swap'):
        opts.reverse()
    opts = size(sx, opts, hi=3) if kt not in ('E', '#R', 'D') and (vt == 'I' or sx.p('full')) else opts
    x = {}
    for i in range(sx.pick('n', (0, 1, 2))):
        k = sx.pick(f'key{i}', ('x', 'y.z', 'p', 'q', '7')) if kt in ('E', '#R', 'D') else 'QUJD' if kt == 'Binary' and i else 'ab' if i and not sx.p('full') else sx.str(f'key{i}', 0, 2 if i == 0 else 1)
        sx.assume(k not in x)
        x[k] = (1 if vt in ('I', 'Integer') else 'p') if i and not sx.p('full') else sx.int(f'v{i}', -1, 10) if vt in ('I', 'Integer') else sx.str(f'v{i}', 0, 1, 'pqxy')
    more = [ENUMS['E'], ENUMS['R'], ENUMS['D'], ['K', 'String', ['%^[a-c]'], ''], LEAVES['I'], ['S', 'String', ['}1'], '']]
    where = sx.pick('where', ('type', 'field'))
    if where == 'type':
        schema = schema_of(['T', 'MapOf', opts, ''], *more)
    else:
        schema, x = schema_of(['T', 'Record', [], '', [[1, 'a', 'MapOf', opts, 'desc']]], *more), {'a': x}
    exact = kt in ('String', 'K')        # all names of an enumeration must be present, Binary keys have a text representation
    agree(sx, schema, 'T', x, exact=exact, enum_style=style)
    sx.reach('mapof-' + ('exact' if exact else 'oneway'))


def links(sx):
    """The value of a link is the key of the linked type."""
    kt, ko = sx.pick('key', (('I', []), ('Integer', ['{2', '}8']), ('String', ['}1']), ('Enumerated', ['#E']), ('MapOf', []), ('chain', []), ('E', [])))
    more = [LEAVES['I'], ENUMS['E']]
    if kt == 'MapOf':
        kk = sx.pick('ktype', ('I', 'String', '#E'))
        more.append(['K', 'MapOf', ['+' + kk, '*Boolean'], ''])
        kt = 'Integer' if kk == 'I' else 'String'
    elif kt == 'chain':
        more += [['K', 'Record', [], '', [[1, 'a', 'Boolean', [], ''], [2, 'b', 'J', ['K', 'L'], '']]], ['J', 'Map', [], '', [[9, 'k', 'I', ['K'], '']]]]
        kt = 'Integer'
    else:
        base = sx.pick('base', ('Record', 'Map', 'Array', 'MapID'))
        b = 'Map' if base == 'MapID' else base
        more.append(['K', b, ['='] if base == 'MapID' else [], '', [[1, 'a', 'Boolean', [], ''], [2, 'k', kt, ['K'] + ko, '']]])
    m = sx.pick('mult', ([], ['[0'], [']2']))
    o = ['L'] + m
    if sx.bool('swap'):
        o.reverse()
    schema = schema_of(['T', 'Record', [], '', [[1, 'l', 'K', o, 'desc']]], *more)
    v = sx.int('v', -1, 12) if kt in ('I', 'Integer') else sx.str('v', 0, 3, 'xyz.')
    how = sx.pick('value', ('key', 'list', 'object'))
    x = {'key': v, 'list': [v, v], 'object': {'a': True, 'k': v, 'b': v}}[how]
    agree(sx, schema, 'T', {'l': x})
    sx.reach('links')


def tags(sx):
    """A choice whose tag is in another field: everything the codec accepts is valid."""
    base = sx.pick('base', ('Record', 'Map', 'Array', 'MapID', 'RecordList'))
    b = {'MapID': 'Map', 'RecordList': 'Record'}.get(base, base)
    first = sx.bool('tagfirst')
    ti, di = (1, 2) if first else (2, 1)
    tt, to = sx.pick('tagtype', (('E', []), ('Enumerated', ['#C'])))
    idopt = sx.bool('idchoice')
    if idopt:
        to = to + ['='] if tt == 'Enumerated' else to
        tt = 'EI' if tt == 'E' else tt
    fs = [[ti, 'kind', tt, to, ''], [di, 'data', 'C', ['&' + str(ti)] + (['[0'] if sx.bool('optional') else []), 'desc']]
    fs = fs if first else fs[::-1]
    alts = [[4, 'm', sx.pick('alt', ('I', 'L', 'Integer')), [], ''], [6, 'n', 'String', ['}1'], '']]
    schema = schema_of(['T', b, ['='] if base == 'MapID' else [], '', fs], ['C', 'Choice', ['='] if idopt else [], '', alts], ['E', 'Enumerated', [], '', [[1, 'm', ''], [6, 'n', '']]],
                       ['EI', 'Enumerated', ['='], '', [[4, 'm', ''], [6, 'n', '']]], LEAVES['I'], LEAVES['L'])
    tag = sx.pick('tag', (4, 6, 5) if idopt else ('m', 'n', 'o'))
    v = leafval(sx, 'v')
    if base in ('Array', 'RecordList'):
        x = [tag, v] if first else [v, tag]
    else:
        x = {'kind': tag, 'data': v}
        if base == 'MapID':
            x = {str(ti): tag, str(di): v}
    agree(sx, schema, 'T', x, exact=False, rec=base != 'RecordList')
    sx.reach('tags')


def meta(sx):
    """The JADN metaschema as a schema: every package that it accepts is valid in its translation."""
    import os
    with open(os.path.join(jadn.data_dir(), 'jadn_v1.1_schema.jadn')) as f:
        ms = json.load(f)
    i = sx.pick('item', ('typename', 'base', 'opts', 'field', 'enumitem', 'id', 'info', 'size'))
    t = ['Ta', 'Record', [], 'd', [[1, 'a', 'String', ['[0'], 'd']]]
    info = {'package': 'http://p'}
    if i == 'typename':
        t[0] = sx.str('n', 1, 2)
    elif i == 'base':
        t[1] = sx.pick('b', ('Record', 'Map', 'Integer', 'Foo', 'Enumerated', 'ArrayOf'))
        t[4] = sx.pick('f', ([], [[1, 'a', 'd']], [[1, 'a', 'String', [], 'd']], None))
    elif i == 'opts':
        t[2] = [sx.str('o', 0, 2)] + sx.pick('more', ([], ['{1', '}2'], [5]))
    elif i == 'field':
        k = sx.pick('k', (1, 2))
        t[4][0][k] = sx.str('f', 0, 2) if sx.bool('short') else sx.str('f', 4, 4, 'nA:b')
    elif i == 'enumitem':
        t[1] = 'Enumerated'
        t[4] = [[sx.int('id', -2, 99), sx.str('v', 0, 1), 'd']]
    elif i == 'id':
        t[4][0][0] = sx.int('id', -2, 99)
    elif i == 'info':
        k = sx.pick('key', ('title', 'namespaces', 'nsarr', 'roots', 'exports', 'config', 'foo', 'none'))
        if k == 'none':
            info = None
        else:
            info['namespaces' if k == 'nsarr' else k] = {'title': lambda: sx.str('s', 0, 1), 'namespaces': lambda: {sx.str('p', 0, 2): 'http://q'}, 'nsarr': lambda: [[sx.str('p', 0, 2), 'http://q']],
                                                         'roots': lambda: [sx.str('r', 1, 2)], 'exports': lambda: [], 'config': lambda: sx.pick('c', ({'$MaxString': 9}, {'$Sys': '.'}, {'$Sys': '..'}, {'x': 1}, {})), 'foo': lambda: 'x'}[k]()
    else:
        t[2] = ['{1'] * sx.pick('no', (0, 9, 10, 11))
    x = {'types': [t, ['Z', 'String', [], '', []]]}
    if info:
        x['info'] = info
    for s in (t[0], *(y for y in (t[2] + t[4][0][:4] if t[4] else t[2]) if isinstance(y, str)), *((info or {}).get('roots', [])), *((info or {}).get('namespaces', []))):
        sx.assume('\n' not in (s if isinstance(s, str) else s[0]))         # the end of the text in Python patterns, not in ECMA 262
    c = Codec(ms, verbose_rec=True, verbose_str=True)
    r = sx.call(c.decode, 'Schema', x)
    if r[0] == 'ok':
        doc = translate(sx, ms)
        sx.check(valid(doc, {'$ref': '#/definitions/Schema'}, x), 'a package that the metaschema accepts is not valid in its JSON Schema', x)
        sx.check(valid(doc, {k: v for k, v in doc.items() if k == '$ref'}, x), 'the document does not describe its only root', x)
        sx.reach('meta-accept')
    sx.reach('meta')


URIS = {'n': 'http://n', 'm': 'http://m/x'}


def closed(sx):
    """Every reference in the document resolves, every type has one definition, every root is referred to."""
    vary = sx.pick('vary', ('refs', 'roots', 'imports'))
    tgt = sx.pick('target', ('A', 'B', 'n:A', 'n:Z', 'm:B', 'u:Q') if vary != 'roots' else ('A', 'm:B'))
    how = sx.pick('how', ('field', 'link', 'tag', 'vtype', 'ktype', 'fvtype', 'fktype', 'enum', 'pointer', 'fenum', 'fpointer', 'venum', 'kenum', 'kpointer', 'choice', 'union', 'dir', 'multi', 'array') if vary != 'roots' else ('field', 'kpointer'))
    b, o, fs = 'Record', [], []
    F = lambda t, *fo: [[1, 'z', 'Integer', [], ''], [2, 'y', t, list(fo), '']]     # noqa
    if how in ('vtype', 'ktype', 'venum', 'kenum', 'kpointer'):
        b = 'ArrayOf' if how in ('vtype', 'venum') else 'MapOf'
        o = {'vtype': ['*' + tgt], 'ktype': ['*' + tgt, '+' + tgt], 'venum': ['*#' + tgt], 'kenum': ['+#' + tgt, '*String'], 'kpointer': ['+>' + tgt, '*Binary']}[how]
    elif how in ('enum', 'pointer'):
        b, o = 'Enumerated', [{'enum': '#', 'pointer': '>'}[how] + tgt]
    else:
        b = {'choice': 'Choice', 'union': 'Choice', 'array': 'Array'}.get(how, 'Record')
        o = ['CO'] if how == 'union' else []
        fs = {'link': F(tgt, 'L'), 'tag': F(tgt, '&1'), 'fvtype': F('ArrayOf', '*' + tgt), 'fktype': F('MapOf', '+' + tgt, '*' + tgt), 'fenum': F('Enumerated', '#' + tgt), 'fpointer': F('Enumerated', '>' + tgt),
              'dir': F(tgt, '<'), 'multi': F(tgt, ']0', '[0', 'q')}.get(how) or F(tgt)
    ab = sx.pick('a', range(6)) if vary == 'refs' else 0
    ab = (['A', 'Record', [], '', [[1, 'k', 'T', ['K'], ''], [2, 'l', 'B', ['<'], '']]], ['A', 'Enumerated', [], '', [[1, 'x', '']]], ['A', 'String', [], ''], ['A', 'Choice', [], '', [[1, 'k', 'B', [], '']]],
                       ['A', 'Enumerated', ['#B'], ''], ['A', 'MapOf', ['+B', '*T'], ''])[ab]
    types = [['T', b, o, 'desc', fs], ab, ['B', 'Map', ['='], '', [[3, 'u', 'A', ['[0'], ''], [5, 'v', 'String', [], '']]]]
    info = {'package': 'http://p'}
    ns = sx.pick('namespaces', ('none', 'object', 'array')) if vary != 'refs' else 'object'
    if ns != 'none':
        info['namespaces'] = URIS if ns == 'object' else [list(x) for x in URIS.items()]
    roots = sx.pick('roots', (None, ['T'], ['A', 'T'], ['X', 'B'], ['X'])) if vary == 'roots' else None
    rk = sx.pick('rootkey', ('roots', 'exports', 'both')) if roots else None
    if roots:
        info.update({k: roots if k == rk or k == 'roots' else ['B'] for k in ('roots', 'exports') if rk in (k, 'both')})
    style = sx.pick('style', STYLES) if vary == 'refs' else 'enum'
    imp = sx.pick('imports', ('any', 'ref')) if vary == 'imports' else 'any'
    verbose = sx.bool('verbose') if vary == 'refs' else True
    schema = {'info': info, 'types': types}
    before = sx.deepcopy(schema)
    doc = translate(sx, schema, verbose=verbose, enum_style=style, import_style=imp)
    sx.check(sx.same(schema, before), 'the schema is modified')
    sx.check(sorted(doc['definitions']) == ['A', 'B', 'T'], 'not one definition per type', list(doc['definitions']))
    ext = imp == 'ref' and ns != 'none'
    for r in refs(doc):
        if r.startswith('#'):
            try:
                lookup(doc, r)
            except Dangling:
                sx.check(False, 'dangling reference', r)
            sx.check(r.startswith('#/definitions/') or r.startswith('#/imports/'), 'reference to something that is not a type', r)
        else:
            sx.check(ext and r.split('#')[0] in URIS.values(), 'unexpected external reference', r)
    for k, v in doc.get('imports', {}).items():
        for n, s in v.items():
            sx.check(s == ({'$ref': f'{URIS[k]}#/definitions/{n}'} if ext and k in URIS else {}), 'wrong placeholder of an imported type', (k, n, s))
            sx.check(f'{k}:{n}' == tgt, 'placeholder of a type that is not imported', (k, n))
    if ':' in tgt and '#' not in ''.join(o) and '>' not in ''.join(o) and 'enum' not in how and 'pointer' not in how:
        p, n = tgt.split(':')
        sx.check(f'#/imports/{p}/{n}' in refs(doc), 'no reference to the imported type', refs(doc))
        sx.reach('import-' + imp)
    known = [r for r in roots or [] if r != 'X']
    if len(known) == 1:
        sx.check(doc.get('$ref') == '#/definitions/' + known[0], 'the document does not refer to its only root', doc.get('$ref'))
    else:
        sx.check(sorted(x['$ref'] for x in doc['properties'].values()) == sorted('#/definitions/' + r for r in known), 'the document does not refer to its roots', doc.get('properties'))
    sx.reach('closed')
    if how == 'link':
        sx.reach('closed-link')


def text(sx):
    """The text form is JSON for any name, item, description and information."""
    where = sx.pick('where', ('typedesc', 'fielddesc', 'itemdesc', 'item', 'title', 'name', 'pattern', 'dump'))
    s = sx.str('s', 0 if 'desc' in where else 1, 2 if sx.p('full') else 1)
    t = [['T', 'Record', [], s if where == 'typedesc' else 'd', [[1, s if where == 'name' else 'f', 'E', [], s if where == 'fielddesc' else 'd']]],
         ['E', 'Enumerated', [], '', [[1, s if where == 'item' else 'x', s if where == 'itemdesc' else 'd']]], ['P', 'String', ['%' + (s if where == 'pattern' else 'a')], '']]
    schema = {'info': {'package': 'http://p', **({'title': s} if where == 'title' else {})}, 'types': t}
    if where == 'dump':
        fn = os.path.join(sx.dir({}), 'out.json')
        jadn.translate.json_schema_dump(schema, fn, source=s if sx.bool('source') else None, enum_style='const')
        with open(fn) as f:
            doc = f.read()
    else:
        r = sx.call(json_schema_dumps, schema, enum_style='const')
        sx.check(r[0] == 'ok', 'the translation fails', r[1])
        doc = r[1]
    r = sx.call(json.loads, doc)
    sx.check(r[0] == 'ok', 'the result is not JSON', (doc, r[1]))
    d = r[1]['definitions']
    sx.check(sorted(d) == ['E', 'P', 'T'], 'not one definition per type', list(d))
    name = s if where == 'name' else 'f'
    sx.check(list(d['T']['properties']) == [name] and d['T']['required'] == [name], 'wrong property', d['T'])
    sx.check(d['T'].get('description', '') == t[0][3] and d['T']['properties'][name].get('description', '') == t[0][4][0][4], 'wrong description', d['T'])
    sx.check(d['E']['oneOf'] == [{'const': t[1][4][0][1], 'description': t[1][4][0][2]}], 'wrong item', d['E'])
    sx.check(d['P']['pattern'] == t[2][2][0][1:], 'wrong pattern', d['P'])
    if where == 'title':
        sx.check(r[1].get('title') == s, 'wrong title', r[1].get('title'))
    sx.reach('text-' + where)


def formats(sx):
    """Types with formats whose serialized form is text: everything the codec accepts is valid."""
    f = sx.pick('format', ('eui', 'uuid', 'ipv4-addr', 'ipv6-addr', 'ipv4-net', 'ipv6-net', 'tag-uuid', 'datetime-ms', 'email', 'hostname', 'date-time'))
    b = {'eui': 'Binary', 'uuid': 'Binary', 'ipv4-addr': 'Binary', 'ipv6-addr': 'Binary', 'ipv4-net': 'Array', 'ipv6-net': 'Array', 'tag-uuid': 'Array', 'datetime-ms': 'Integer'}.get(f, 'String')
    fs = {'ipv4-net': [[1, 'addr', 'Binary', [], ''], [2, 'len', 'Integer', ['[0'], '']], 'ipv6-net': [[1, 'addr', 'Binary', [], ''], [2, 'len', 'Integer', ['[0'], '']],
          'tag-uuid': [[1, 'tag', 'String', [], ''], [2, 'id', 'Binary', ['/uuid'], '']]}.get(f, [])
    schema = schema_of(['T', b, ['/' + f], '', fs])
    pats = {'eui': ('00:1b:44:11:3A:B?', '00-1b-44-11-3a-b?', '00:1b:44:11:3A:B7:0?:00'), 'uuid': ('e81415a7-4c8d-45cd-a658-6b51b7a8f45?',), 'ipv4-addr': ('1?.2.3.4', '1.2.3.25?', '0.0.0.?'), 'ipv6-addr': ('::?', '2001:db8::a?', '1:2:3:4:5:6:7:?', '::ffff:1.2.3.?'),
            'ipv4-net': ('1.2.3.4/2?', '1.2.3.4/?', '1.2.3.?'), 'ipv6-net': ('2001:db8::/3?', '::/?', '::?'), 'tag-uuid': ('a?-e81415a7-4c8d-45cd-a658-6b51b7a8f45d',), 'datetime-ms': ('2020-01-0?T00:00:00Z', '2020-01-01T00:00:00.00?Z')}.get(f, ('a?b.c', 'a@b?.c', 'http://a?', '2020-01-0?T00:00:00Z'))
    p = sx.pick('form', pats)
    x = p.replace('?', sx.str('c', 1, 1, '0123456789afAF:.-/'))
    agree(sx, schema, 'T', x, exact=False)
    sx.reach('formats')


HARNESSES = {f.__name__: f for f in (scalars, kinds, enums, fields, lists, limits, choices, mapofs, links, tags, meta, closed, text, formats)}
