"""C18: check accepts exactly the well-formed schemas, and returns them unchanged."""
import jadn
from h_spec import Either, OPT
from h_util import anyval

BOUNDS = ('options: a type of each of the 12 base types with 0 to 2 options (thorough: 3) out of all 24 option letters and an arbitrary one, with symbolic values (sizes -3..20, texts of one arbitrary character, formats a choice of 12, '
          'names a choice); fields: each structured base type with one or two fields, symbolic IDs (-1..4), symbolic one-character names, builtin/defined/imported/reserved field types, and 0 to 2 field or type options (thorough: 3) with symbolic '
          'values; types with one or two fields or items and 0 to 2 options; items: Enumerated with two items, symbolic IDs, values and descriptions; types: two types with symbolic names of one character, reserved or equal; columns: rows of 0 to 6 columns and every column of a wrong kind '
          '(symbolic JSON values); info: every entry absent, valid, empty or of a wrong kind.')
ASSUMPTIONS = ['An option letter occurs once per definition.', 'Outcomes that the JADN documentation leaves open are not judged: unique on a multiple field of a builtin type, empty type references in options, a field of bare type Enumerated.',
               'The schema is within its own configured limits.', 'Namespaces that are not evidently URIs are not judged.']
PARAMS = {'quick': {'n': 2}, 'thorough': {'n': 3, 'full': True}}
BASES = ('Binary', 'Boolean', 'Integer', 'Number', 'String', 'Enumerated', 'Choice', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record')
REACH = ['ok-' + b for b in BASES] + ['bad-' + b for b in BASES] + ['field-ok', 'field-bad', 'item-ok', 'item-bad', 'types-ok', 'types-bad', 'columns-ok', 'columns-bad', 'info-ok', 'info-bad']

ALLOWED = {'Binary': '/{}', 'Boolean': '', 'Integer': '/{}', 'Number': '/yz', 'String': '/%{}', 'Enumerated': '=#>X', 'Choice': '=XC', 'Array': 'X/{}', 'ArrayOf': '*{}qsb', 'Map': '=X{}o', 'MapOf': '+*{}o', 'Record': 'X{}o'}
STRUCT = ('Choice', 'Array', 'Map', 'Record')
FORMATS = {'date-time': 'String', 'email': 'String', 'regex': 'String', 'eui': 'Binary', 'X': 'Binary', 'ipv4-net': 'Array', 'tag-uuid': 'Array', 'i8': 'Integer', 'datetime-ms': 'Integer', 'f16': 'Number',
           'uuid': 'Binary', 'b': 'Binary', 'date': 'String'}
FLAGS = '=qsboX'
UP = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
LOW = UP.lower()


class Bad(Exception):
    pass


def need(c):
    if not c:
        raise Bad


# ---- the reference: raises Bad or Either

def number(o, conv):
    try:
        return conv(o[1:])
    except ValueError:
        raise Bad


def type_options(opts, base):
    """opts: list of one-option-per-letter strings, all type options."""
    d = {o[0]: o for o in opts}
    for k in d:
        need(k in ALLOWED[base])
    for k in {'ArrayOf': '*', 'MapOf': '+*'}.get(base, ''):
        need(k in d)
        if len(d[k]) == 1:
            raise Either
    for a, b, conv in (('{', '}', int), ('y', 'z', float)):
        lo = number(d[a], conv) if a in d else None
        hi = number(d[b], conv) if b in d else None
        need(lo is None or hi is None or lo <= hi)
        if a == '{' and base != 'Integer':
            need(lo is None or lo >= 0)
            need(hi is None or hi >= 0)
    if '/' in d:
        need(FORMATS.get(d['/'][1:]) == base)
    if 'C' in d:
        need(d['C'][1:] in ('O', 'A', 'X'))
    need(not ('%' in d and ('{' in d or '}' in d)))
    need(not ('#' in d and '>' in d))
    return d


def field_name(s):
    if len(s) > 1 and s[-1] == '\n':
        raise Either
    return 1 <= len(s) <= 64 and s[0] in LOW + '$' and all(c in UP + LOW + '0123456789_$' for c in s[1:])


def type_name(s):
    if len(s) > 1 and s[-1] == '\n':
        raise Either        # $ at the end of a pattern
    return 1 <= len(s) <= 64 and s[0] in UP + '$' and all(c in UP + LOW + '0123456789-$' for c in s[1:])


def field(f, fields, base):
    fid, name, ft, opts, desc = f
    need(fid >= 0)
    need(field_name(name))
    ref = ft.split(':')
    need(len(ref) <= 2 and type_name(ref[-1]))
    need(ft not in STRUCT)
    fo = {o[0]: o for o in opts if o[0] in '[]&<KL'}
    to = [o for o in opts if o[0] not in '[]&<KL']
    minc = number(fo['['], int) if '[' in fo else 1
    maxc = number(fo[']'], int) if ']' in fo else 1
    need(minc >= 0)
    need(maxc >= 0)
    need(maxc == 0 or minc <= maxc)
    if '&' in fo:
        need(number(fo['&'], int) in [g[0] for g in fields])
    if ft in BASES:
        if maxc != 1 and [o for o in to if o[0] == 'q'] and ft != 'ArrayOf':
            raise Either
        d = type_options(to, ft)
        if ft == 'Enumerated' and '#' not in d and '>' not in d:
            raise Either
        need('<' not in fo)
    else:
        need(all(o[0] == 'q' for o in to))
        need(not to or maxc != 1)


def definition(t):
    name, base, opts, desc, fields = t
    need(type_name(name))
    need(name not in BASES)
    need(base in BASES)
    d = type_options(opts, base)
    if ('#' in d or '>' in d) and fields:
        raise Bad
    ids = [f[0] for f in fields]
    for i in range(len(fields)):
        need(ids[i] not in ids[:i])
        need(fields[i][1] not in [f[1] for f in fields[:i]])
    if base in ('Array', 'Record'):
        for i in range(len(ids)):
            need(ids[i] == i + 1)
    if base == 'Enumerated':
        for f in fields:
            need(len(f) == 3 and f[0] >= 0)
    elif base in STRUCT:
        for f in fields:
            need(len(f) == 5)
            field(f, fields, base)
    else:
        need(not fields)


def verdict(types):
    try:
        names = [t[0] for t in types]
        for i in range(len(names)):
            need(names[i] not in names[:i])
        for t in types:
            definition(t)
        return 'ok'
    except Bad:
        return 'bad'
    except Either:
        return 'either'


def judge(sx, schema, want, tag, full=None):
    """check(schema) accepts iff want; full: the schema with omitted columns filled in."""
    full = full or sx.deepcopy(schema)
    r = sx.call(jadn.check, schema)
    sx.note(want)
    if want == 'either':
        sx.discard()
    sx.reach(f'{tag}-{want}' if tag in ('field', 'item', 'types', 'columns', 'info') else f'{want}-{tag}')
    if want == 'ok':
        sx.check(r[0] == 'ok', f'{tag}: a well-formed schema is rejected', r[1])
        sx.check(sx.same(r[1], full), f'{tag}: the schema is changed', r[1])
        again = sx.call(jadn.check, r[1]) if sx.p('full') or tag not in BASES + ('field',) else r
        sx.check(again[0] == 'ok' and sx.same(again[1], full), f'{tag}: an accepted schema is not accepted again', again[1])
    else:
        sx.check(r[0] == 'err', f'{tag}: a malformed schema is accepted', schema)


# ---- generators

def value(sx, p, k, brief=False):
    if brief and k == '/':
        return k + sx.pick(p + '.f', ('email', 'eui', 'i8', 'f16'))
    if brief and k == 'y':
        return k + sx.pick(p + '.y', ('2.5', ''))
    if brief and k in '%#':
        return k + 'D'
    if k in FLAGS + '<KL':
        return k
    if k in '*+#>':
        return k + sx.pick(p + '.n', ('String', '#D', ''))
    if k == '/':
        return k + sx.pick(p + '.f', ('', 'Email') + tuple(FORMATS)) if not sx.bool(p + '.any') else k + sx.str(p + '.t', 1, 1, 'Aabcdefghijklmnopqrtuvwyz0')
    if k in 'yz':
        return k + sx.pick(p + '.y', ('1', '2.5', '-0.5', 'q', ''))
    if k in '{}[]&':
        j = sx.pick(p + '.j', ('int', 'text')) if k == '{' else 'int'
        return k + (str(sx.int(p + '.i', -3, 20)) if j == 'int' else sx.str(p + '.t', 0, 1))
    if k == 'C':
        return k + sx.str(p + '.c', 0, 1)
    return k + sx.str(p + '.t', 0, 1)


def letters(sx, p, most, pool, later=None, brief=False):
    """Distinct options; all but the first out of later."""
    out = []
    used = ''
    for i in range(most):
        pl = pool if i == 0 or later is None else [x for x in later if x in pool]
        k = sx.pick(f'{p}{i}', ('-',) + tuple(x for x in pl if x not in used and (used[-1:] not in pl or pl.index(x) > pl.index(used[-1]))) + (('?',) if i == 0 else ()))
        if k == '-':
            break
        used += k
        if k == '?':
            c = sx.str(f'{p}{i}.any', 1)
            sx.assume(c not in OPT)
            out.append(c + 'x')
        else:
            out.append(value(sx, f'{p}{i}', k, brief))
    return out


def options(bases):
    def h(sx):
        b = sx.pick('base', bases)
        fixed = {'ArrayOf': ['*A'], 'MapOf': ['+String', '*A']}.get(b, []) if sx.bool('required') else []
        pool = [c for c in '=*+#>/%yz{}qsboCX[]&<KL' if c not in [o[0] for o in fixed]]
        opts = letters(sx, 'o', sx.p('n', 2), pool, None if sx.p('n') > 2 else ALLOWED[b]) + fixed
        t = ['T', b, opts, 'd', []]
        types = [t, ['D', 'Record', [], '', []]]
        judge(sx, {'types': types}, verdict(types), b)
    return h


def optfields(sx):
    """Options of types that have fields or items."""
    b = sx.pick('base', STRUCT + ('Enumerated',))
    opts = letters(sx, 'o', sx.p('n', 2), list('=#>/{}qsCXKL<'), list('=#>{}'), True)
    fs = [[i + 1, 'ab'[i], 'd'] if b == 'Enumerated' else [i + 1, 'ab'[i], 'D', [], 'd'] for i in range(sx.pick('n', (1, 2)))]
    types = [['T', b, opts, 'd', fs], ['D', 'Record', [], '', [[1, 'x', 'String', [], '']]]]
    judge(sx, {'types': types}, verdict(types), 'item')


FTYPES = ('String', 'Integer', 'Number', 'Boolean', 'Binary', 'Enumerated', 'ArrayOf', 'MapOf', 'D', 'ns:D', 'Record', 'x')


def fields(fts):
    def h(sx):
        b = sx.pick('base', ('Map', 'Record', 'Choice', 'Array'))
        ft = sx.pick('ft', fts)
        fixed = {'ArrayOf': ['*D'], 'MapOf': ['+String', '*D']}.get(ft, []) if sx.bool('required') else []
        pool = [c for c in ('=#/%y{}qs[]&<KL' if b == 'Map' or sx.p('n') > 2 else '[]&') if c not in [o[0] for o in fixed]]
        opts = letters(sx, 'o', sx.p('n', 2), pool, None if sx.p('n') > 2 else ALLOWED.get(ft, '') + '[]q&<', not sx.p('full')) + fixed
        fs = [[1, 'a', ft, opts, 'x']]
        if any(o[0] == '&' for o in opts) or not opts:
            fs.append([2, 'b', 'String', [], ''])
        types = [['T', b, [], '', fs], ['D', 'Record', [], '', []]]
        judge(sx, {'types': types}, verdict(types), 'field')
    return h


def three(sx):
    """Distinctness of IDs and names among three fields; tags."""
    b = sx.pick('base', STRUCT + ('Enumerated',))
    k = sx.pick('vary', ('id', 'name', 'tag') if b != 'Enumerated' else ('id', 'name'))
    fs = []
    at = sx.pick('at', (0, 1, 2)) if k == 'tag' else None
    for i in range(3):
        fid = sx.int(f'id{i}', 0, 5) if k == 'id' or k == 'tag' and b in ('Map', 'Choice') else i + 1
        name = sx.str(f'name{i}', 1, 1, 'abc') if k == 'name' else 'abc'[i]
        fs.append([fid, name, ''] if b == 'Enumerated' else [fid, name, sx.pick('ft', ('D', 'C')) if i == at else 'String', ['&' + str(sx.int('tag', 0, 6))] if i == at else [], ''])
    if k == 'tag':
        sx.assume(sx.And(fs[0][0] < fs[1][0], fs[1][0] < fs[2][0]))
    types = [['T', b, [], '', fs], ['D', 'Record', [], '', [[1, 'x', 'String', [], ''], [2, 'y', 'String', [], '']]], ['C', 'Choice', [], '', [[6, 'x', 'String', [], '']]]]
    judge(sx, {'types': types}, verdict(types), 'item')


def ids(sx):
    b = sx.pick('base', BASES)
    n = sx.pick('n', (1, 2))
    k = sx.pick('vary', ('id', 'name'))
    fs = []
    for i in range(n):
        fid = sx.int(f'id{i}', -1, 4) if k == 'id' else i + 1
        name = sx.str(f'name{i}', 0, 1) if k == 'name' else 'ab'[i]
        if k == 'name' and i == 0 and sx.bool('long'):
            name = name + 'x' * sx.pick('len', (62, 63, 64))
        fs.append([fid, name, sx.pick('desc', ('', 'Record', 'String'))] if b == 'Enumerated' else [fid, name, 'String', [], ''])
    types = [['T', b, {'ArrayOf': ['*String'], 'MapOf': ['+String', '*String']}.get(b, []), '', fs]]
    if b not in STRUCT and b != 'Enumerated':
        types[0][4] = fs if sx.bool('fields') else []
    judge(sx, {'types': types}, verdict(types), 'item')


def twotypes(sx):
    def nm(p):
        k = sx.pick(p + '.k', ('any', 'long', 'Record', 'String', 'a:B'))
        if k == 'any':
            return sx.str(p, 0, 1) + sx.str(p + 't', 0, 1)
        if k == 'long':
            return 'A' + 'x' * sx.pick(p + '.len', (63, 64))
        return k
    base = sx.pick('base', ('String', 'ArrayOf', 'D', '', 'string', 'Enum'))
    types = [[nm('a'), 'Map' if base == 'ArrayOf' else 'String', [], '', []], [nm('b') if base == 'String' else 'D', base, ['*String'] if base == 'ArrayOf' else [], '', []]]
    judge(sx, {'types': types}, verdict(types), 'types')


def columns(sx):
    """Rows of any length; columns of any kind."""
    k = sx.pick('what', ('rowlen', 'itemlen', 'fieldlen', 'kind', 'top'))
    t = ['T', 'Record', [], 'd', [[1, 'a', 'String', [], '']]]
    e = ['E', 'Enumerated', [], '', [[1, 'a', '']]]
    want, full = 'ok', None
    s = {'types': [t, e]}
    if k == 'rowlen':
        n = sx.pick('n', (0, 1, 2, 3, 4, 5, 6))
        b = sx.pick('b', ('String', 'Record', 'Enumerated', 'Map', 'ArrayOf'))
        row = ['X', b, ['*T'] if b == 'ArrayOf' else [], 'd', []]
        s['types'].append((row + [[]])[:n])
        want = 'bad' if n < (3 if b == 'ArrayOf' else 2) or n > 5 else 'ok'
        full = sx.deepcopy(s)
        full['types'][2] = row[:n] + [[], '', []][n - 2:] if want == 'ok' else row
    elif k == 'itemlen':
        n = sx.pick('n', (0, 1, 2, 3, 4))
        e[4].append([2, 'b', 'd', 'x'][:n])
        want = 'ok' if n == 3 else 'bad'
    elif k == 'fieldlen':
        n = sx.pick('n', (0, 1, 2, 3, 4, 5, 6))
        t[4].append([2, 'b', 'String', [], 'd', 'x'][:n])
        want = 'ok' if n == 5 else 'bad'
    elif k == 'kind':
        where = sx.pick('where', ('type0', 'type1', 'type2', 'type3', 'type4', 'field0', 'field1', 'field2', 'field3', 'field4', 'item0', 'item1', 'item2', 'opt', 'fopt', 'fieldrow', 'itemrow', 'row'))
        v = anyval(sx, 'v', 0, 0, ('none', 'bool', 'int', 'float', 'list', 'dict'))
        want = 'bad'
        if where[:4] == 'type':
            t[int(where[4])] = v
            if where in ('type2', 'type4') and v == []:
                want = 'ok'
        elif where == 'opt':
            t[2] = [v]
        elif where == 'fopt':
            t[4][0][3] = [v]
        elif where == 'fieldrow':
            t[4] = [v]
        elif where == 'itemrow':
            e[4] = [v]
        elif where == 'row':
            s['types'].append(v)
        elif where[:5] == 'field':
            t[4][0][int(where[5])] = v
            if where == 'field3' and v == [] or where == 'field0' and sx.pytype(v) is int and v == 1:
                want = 'ok'
        else:
            e[4][0][int(where[4])] = v
            if where == 'item0' and sx.pytype(v) is int and v >= 0:
                want = 'ok'
        if where[-1] == '0' and (sx.pytype(v) is float or sx.pytype(v) is bool):       # 1.0 and true stand for 1 in some JSON libraries
            sx.assume(v != 1)
    else:
        extra = sx.pick('extra', ('types', 'row', 'more', 'none', 'notypes', 'empty'))
        if extra == 'types':
            v = anyval(sx, 'v', 0, 0, ('none', 'bool', 'int', 'str', 'dict'))
            s = {'types': v}
            want = 'bad'
        elif extra == 'row':
            v = sx.pick('row', ('', 'T', 'TS', 'Array', {}, {'T': 1, 'String': 2}, ['T', 'String'], ('T', 'String')))
            s['types'] = [v]
            want = 'ok' if isinstance(v, list) else 'either' if isinstance(v, tuple) else 'bad'
            full = {'types': [['T', 'String', [], '', []]]}
        elif extra == 'more':
            s[sx.str('key', 1, 3, 'infotypes')] = {}
            want = 'bad'
            sx.assume(len(s) == 2)
        elif extra == 'notypes':
            del s['types']
            want = 'bad'
        elif extra == 'empty':
            s = {'types': []}
    judge(sx, s, want, 'columns', full)


def info(sx):
    """Package information."""
    k = sx.pick('key', ('package', 'version', 'title', 'description', 'comment', 'copyright', 'license', 'namespaces', 'exports', 'roots', 'config', 'other'))
    i = {'package': 'http://a.b/c'}
    s = {'info': i, 'types': [['T', 'String', [], '', []]]}
    want = 'ok'
    if k == 'package':
        c = sx.pick('case', ('absent', 'kind', 'ok', 'empty', 'space'))
        if c == 'absent':
            del i['package']
        elif c == 'kind':
            i['package'] = anyval(sx, 'v', 0, 0, ('none', 'bool', 'int', 'list', 'dict'))
        elif c in ('empty', 'space'):
            i['package'] = '' if c == 'empty' else 'a b'
        want = 'ok' if c == 'ok' else 'bad'
    elif k == 'other':
        i[sx.str('name', 0, 2)] = 'x'
        want = 'bad'
    elif k in ('exports', 'roots'):
        c = sx.pick('case', ('kind', 'list', 'empty'))
        if c == 'kind':
            i[k] = anyval(sx, 'v', 0, 0, ('none', 'bool', 'int', 'str', 'dict'))
            want = 'bad'
        elif c == 'empty':
            i[k] = []
            want = 'bad'
        else:
            n = sx.str('n', 0, 2)
            if n and n[-1] == '\n':
                sx.discard()
            i[k] = ['T', n]
            want = 'ok' if type_name(n) else 'bad'
    elif k == 'namespaces':
        c = sx.pick('case', ('obj', 'arr', 'emptyobj', 'emptyarr', 'kind', 'short', 'long', 'uri'))
        n = sx.str('n', 0, 2) if c in ('obj', 'arr') else 'n'
        sx.assume(not n or n[-1] != '\n')
        uri = 'http://x' if c != 'uri' else sx.pick('u', ('a b', '', None, 5))
        if c == 'kind':
            i[k] = anyval(sx, 'v', 0, 0, ('none', 'bool', 'int', 'str'))
        elif c in ('emptyobj', 'emptyarr'):
            i[k] = {} if c == 'emptyobj' else []
        elif c == 'short':
            i[k] = [['n']]
        elif c == 'long':
            i[k] = [['n', uri, 'x']]
        elif c == 'arr' or c == 'uri' and sx.bool('arr'):
            i[k] = [[n, uri]]
        else:
            i[k] = {n: uri}
        good = not n or n[0] in UP + LOW and all(x in UP + LOW + '0123456789' for x in n)
        want = 'ok' if c in ('obj', 'arr') and good else 'bad'
    elif k == 'config':
        key = sx.pick('ckey', ('$MaxBinary', '$MaxString', '$MaxElements', '$Sys', '$TypeName', 'other', 'kind', 'empty'))
        if key == 'kind':
            i[k] = anyval(sx, 'v', 0, 0, ('none', 'bool', 'int', 'str', 'list'))
            want = 'bad'
        elif key == 'empty':
            i[k] = {}
            want = 'bad'
        elif key == 'other':
            i[k] = {'$MaxFoo': 1}
            want = 'bad'
        elif key[:4] == '$Max':
            v = sx.int('v', -2, 300) if sx.bool('int') else anyval(sx, 'v', 0, 0, ('none', 'bool', 'str', 'list'))
            i[k] = {key: v}
            want = 'bad' if sx.pytype(v) is not int or v < 1 else 'ok' if v >= 255 else 'either'
        else:
            v = anyval(sx, 'v', 0, 0, ('none', 'bool', 'int', 'str')) if key == '$Sys' else '.'
            i[k] = {key: v}
            want = 'ok' if key != '$Sys' or sx.pytype(v) is str and len(v) == 1 else 'bad'
    else:
        if sx.bool('kind'):
            i[k] = anyval(sx, 'v', 0, 0, ('none', 'bool', 'int', 'list', 'dict'))
            want = 'bad'
        else:
            i[k] = sx.str('v', 0, 2)
            want = 'ok' if i[k] else 'bad'
    judge(sx, s, want, 'info')


HARNESSES = {'options': options(BASES[:4]), 'options2': options(BASES[4:8]), 'options3': options(BASES[8:]), 'fields': fields(FTYPES[:6]), 'fields2': fields(FTYPES[6:]), 'optfields': optfields, 'ids': ids, 'three': three, 'twotypes': twotypes, 'columns': columns, 'info': info}
