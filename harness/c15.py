"""C15: unfolding removes every chosen extension and yields a self-contained schema."""
import jadn
from jadn.transform import unfold_extensions
from h_spec import options, BUILTIN

BOUNDS = ('Schemas of four to seven types. field: a Record, Map, Array or Choice with one field (thorough: two) of every kind of extension, alone or combined (key, link, multiplicity with symbolic bounds, anonymous types of every '
          'base type with options, derived and pointer enumerations, anonymous ArrayOf/MapOf with derived key or value types), next to types that it refers to. types: two types of every kind '
          '(derived and pointer enumerations, with and without id; ArrayOf and MapOf with plain, derived and pointer key and value types; types with a key), each reference symbolic over the type names. '
          'pointer: collections nested up to three levels. links: keys that are links. Extension sets: all by default, all explicitly, and (in sets) every subset of the five.')
ASSUMPTIONS = ['Schemas are accepted, without import references or undefined types; type names without "$", which is reserved for generated names.',
               'Derived enumerations and dir fields do not form cycles; a link refers to a type with one key (or a MapOf); dir fields have maximum cardinality 1.',
               'MapOfEnum is chosen without DerivedEnum only when no MapOf has a derived enumeration as key or value type.']
PARAMS = {'quick': {'nf': 1}, 'thorough': {'nf': 2}}
REACH = ['anon', 'mult', 'both', 'derived', 'pointer', 'mapofenum', 'link', 'keylink', 'shared', 'partial', 'new', 'same', 'nested']

EXT = ('AnonymousType', 'Multiplicity', 'DerivedEnum', 'MapOfEnum', 'Link')
FIELDED = ('Record', 'Map', 'Array', 'Choice')
FOPTS = ('minc', 'maxc', 'tagid', 'dir', 'key', 'link')


def refs_of(base, opts, out):
    for k in ('vtype', 'ktype'):
        if k in opts:
            v = opts[k]
            out.append(v[1:] if v[0] in '#>' else v)
    for k in ('enum', 'pointer'):
        if k in opts:
            out.append(opts[k])


def left(sx, types, ext):
    """The chosen extensions that are left in a schema."""
    by = {t[0]: t for t in types}
    out = []
    for t in types:
        o = options(t[2])
        if 'DerivedEnum' in ext:
            if 'enum' in o or 'pointer' in o or o.get('vtype', 'x')[0] in '#>' or o.get('ktype', 'x')[0] in '#>':
                out.append(('DerivedEnum', t[0]))
        if 'MapOfEnum' in ext and t[1] == 'MapOf' and o['ktype'] in by and by[o['ktype']][1] == 'Enumerated':
            out.append(('MapOfEnum', t[0]))
        if t[1] in FIELDED:
            for f in t[4]:
                fo = options(f[3])
                if 'AnonymousType' in ext and any(k not in FOPTS for k in fo):
                    out.append(('AnonymousType', t[0], f[1]))
                if ('Multiplicity' in ext or 'AnonymousType' in ext) and fo.get('maxc', 1) != 1:
                    out.append(('Multiplicity', t[0], f[1]))
                if 'Link' in ext and ('key' in fo or 'link' in fo):
                    out.append(('Link', t[0], f[1]))
    return out


def features(sx, t, by):
    """Does the definition use any extension?"""
    o = options(t[2])
    if 'enum' in o or 'pointer' in o or o.get('vtype', 'x')[0] in '#>' or o.get('ktype', 'x')[0] in '#>':
        return True
    if t[1] == 'MapOf' and o['ktype'] in by and by[o['ktype']][1] == 'Enumerated':
        return True
    if t[1] in FIELDED:
        for f in t[4]:
            fo = options(f[3])
            if any(k not in ('minc', 'tagid', 'dir') for k in fo):
                return True
    return False


def norm(t):
    return list(t) if len(t) > 4 else list(t) + [[]]


def judge(sx, types, ext=None):
    schema = {'info': {'package': 'http://p'}, 'types': types}
    orig = sx.deepcopy(schema)
    r = sx.call(unfold_extensions, schema) if ext is None else sx.call(unfold_extensions, schema, set(ext))
    sx.check(sx.same(schema, orig), 'the input schema is modified', (orig, schema))
    sx.check(r[0] == 'ok', 'unfolding fails', (orig, r[1]))
    out = r[1]
    ext = EXT if ext is None else ext
    sx.check(sx.same(out['info'], orig['info']), 'the information is changed', out['info'])
    ts = out['types']
    names = [t[0] for t in ts]
    sx.check(names[:len(types)] == [t[0] for t in types], 'original types are not kept in order', (orig, names))
    sx.check(len(set(names)) == len(names), 'a type is defined twice', (orig, ts))
    for t in ts:
        sx.check(t[1] in BUILTIN, 'a type has a bad base type', (orig, t))
        rs = []
        refs_of(t[1], options(t[2]), rs)
        if t[1] in FIELDED:
            for f in t[4]:
                rs.append(f[2])
                refs_of(f[2], options(f[3]), rs)
        for x in rs:
            sx.check(x in BUILTIN or x in names, 'a reference is not defined', (orig, x, ts))
    l = left(sx, ts, ext)
    sx.check(not l, 'an extension is left', (orig, l, ts))
    by = {t[0]: t for t in orig['types']}
    for i, t in enumerate(orig['types']):
        if not features(sx, t, by):
            sx.check(sx.same(norm(ts[i]), norm(t)), 'a type without extensions is changed', (t, ts[i]))
        sx.check(ts[i][3] == t[3], 'a type description is changed', (t, ts[i]))
        if t[1] in FIELDED:
            sx.check([(f[0], f[1], f[4]) for f in ts[i][4]] == [(f[0], f[1], f[4]) for f in t[4]], 'fields are not kept', (t, ts[i]))
    sx.reach('new' if len(ts) > len(types) else 'same')
    again = sx.call(unfold_extensions, out, set(ext))
    sx.check(again[0] == 'ok' and sx.same(again[1]['types'], ts), 'unfolding again changes the schema', (orig, ts, again[1]))
    return out


COL = ['Col', 'Enumerated', [], 'c', [[1, 'red', ''], [5, 'blue', 'b']]]
CID = ['Cid', 'Enumerated', ['='], '', [[1, 'red', ''], [5, 'blue', 'b']]]
REC = ['Rec', 'Record', [], '', [[1, 'k', 'Integer', ['K', '{0'], ''], [2, 'v', 'String', ['[0'], 'd']]]
TOP = ['Top', 'Map', ['='], '', [[3, 'a', 'Integer', [], ''], [4, 'r', 'Rec', ['<'], '']]]
MAP = ['Mof', 'MapOf', ['+String', '*Integer'], '']


def anon(sx, p, fo):
    """An anonymous type: (base, type options)."""
    k = sx.pick(p, ('ref', 'enum', 'pointer', 'string', 'binary', 'integer', 'number', 'arrayof', 'venum', 'mapof', 'kenum', 'kname', 'link', 'bool'))
    if k == 'ref':
        return sx.pick(p + '.r', ('Rec', 'Col')), []
    if k == 'enum':
        sx.reach('derived')
        return 'Enumerated', sx.pick(p + '.e', (['#Rec'], ['#Col', '='], ['#Top', 'X']))
    if k == 'pointer':
        sx.reach('pointer')
        return 'Enumerated', sx.pick(p + '.e', (['>Top'], ['>Rec', '=']))
    if k == 'string':
        return 'String', sx.pick(p + '.o', (['/email'], ['%a*'], ['{1', '}3'], []))
    if k == 'binary':
        return 'Binary', ['/x', '}9']
    if k == 'integer':
        return 'Integer', ['{' + str(sx.int(p + '.lo', -3, 3))]
    if k == 'number':
        return 'Number', ['y0.5']
    if k == 'arrayof':
        return 'ArrayOf', ['*' + sx.pick(p + '.v', ('Rec', 'Integer')), '}4'] + (['q'] if sx.bool(p + '.q') else [])
    if k == 'venum':
        sx.reach('shared')
        return 'ArrayOf', ['*' + sx.pick(p + '.v', ('#Rec', '>Top', '#Col'))]
    if k == 'mapof':
        return 'MapOf', ['+String', '*Rec', '{1']
    if k == 'kenum':
        return 'MapOf', ['+' + sx.pick(p + '.v', ('#Rec', '>Top')), '*' + sx.pick(p + '.w', ('Rec', '#Col'))]
    if k == 'kname':
        sx.reach('mapofenum')
        return 'MapOf', ['+' + sx.pick(p + '.v', ('Col', 'Cid')), '*Integer']
    if k == 'link':
        sx.reach('link')
        fo.append('L')
        return sx.pick(p + '.r', ('Rec', 'Mof')), []
    return 'Boolean', []


def onefield(sx, p):
    fo = []
    t, to = anon(sx, p, fo)
    m = sx.pick(p + '.mult', ('one', 'opt', 'many', 'max', 'unique'))
    if m == 'opt':
        fo.append('[0')
    elif m != 'one':
        sx.reach('both' if to else 'mult')
        lo = sx.int(p + '.minc', 0, 3)
        hi = 0 if m == 'many' else sx.int(p + '.maxc', 2, 4)
        if m != 'many':
            sx.assume(lo <= hi)
        fo += ['[' + str(lo), ']' + str(hi)]
        if m == 'unique':
            if t in BUILTIN:
                sx.discard()
            fo.append('q')
    elif to:
        sx.reach('anon')
    if 'L' not in fo and sx.bool(p + '.key'):
        fo.append('K')
    fo += to
    if len(fo) > 1 and sx.bool(p + '.rev'):
        fo.reverse()
    return t, fo


def field(sx):
    fs = []
    for i in range(sx.p('nf', 1)):
        t, fo = onefield(sx, f'f{i}')
        n = fname(sx, f'n{i}')
        for f in fs:
            sx.assume(f[1] != n)
        fs.append([i + 1, n, t, fo, sx.str(f'd{i}', 1)])
    b = sx.pick('base', FIELDED)
    types = [['A' + sx.str('tn', 0, 1, 'abcxyzABCXYZ019-'), b, ['X'], 'a', fs], COL, CID, REC, TOP, MAP]
    if sx.p('nf', 1) == 2 and sx.bool('last'):
        types = types[1:] + types[:1]
    judge(sx, types)


def two(sx):
    """Two fields that create the same derived enumeration or have a multiplicity and an anonymous type."""
    kinds = (('Enumerated', ['#Col']), ('Enumerated', ['#Col', '=']), ('Enumerated', ['>Rec']), ('ArrayOf', ['*#Col']), ('MapOf', ['+#Col', '*>Rec']), ('String', ['/email']), ('Col', []))
    fs = []
    for i in (0, 1, 2) if sx.p('nf') == 2 else (0, 1):
        t, o = sx.pick(f'k{i}', kinds)
        o = o + sx.pick(f'm{i}', ([], [']0'], ['[0', ']2'], ['K'], ['K', ']0']))
        fs.append([i + 1, 'abc'[i], t, o, ''])
    hosts = sx.pick('hosts', ('one', 'two'))
    if hosts == 'one':
        types = [['A', 'Map', [], '', fs], COL, REC]
    else:
        for f in fs:
            f[0] = 1
        types = [['A', 'Record', [], '', fs[:1]], COL, REC, ['B', 'Choice', ['='], '', [[i + 1] + f[1:] for i, f in enumerate(fs[1:])]]]
    judge(sx, types)


def fname(sx, p):
    return sx.str(p, 1, 1, 'abcdefghijklmnopqrstuvwxyz') + sx.str(p + '.t', 0, 1, 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')


KIND = ('enum', 'enumid', 'pointer', 'arrayof', 'mapof', 'record', 'array', 'string', 'enumerated')


def types_(sx):
    names = ('Aa', 'Bb', 'Rec')
    defs = {}
    cross = False
    for n in ('Aa', 'Bb'):
        k = sx.pick(n, KIND)
        r = 'Rec' if k in ('string', 'enumerated') else sx.pick(n + '.r', ('Aa', 'Bb', 'Rec', 'Col'))
        if k == 'enum':
            d = ['Enumerated', ['#' + r]]
        elif k == 'enumid':
            d = ['Enumerated', ['=', '#' + r]]
        elif k == 'pointer':
            d = ['Enumerated', ['>' + r]]
        elif k == 'arrayof':
            d = ['ArrayOf', [sx.pick(n + '.v', ('*', '*#', '*>')) + r]]
        elif k == 'mapof':
            s = 'Integer' if n == 'Bb' else 'Bb'
            d = ['MapOf', [sx.pick(n + '.v', ('+', '+#', '+>')) + r, sx.pick(n + '.w', ('*', '*#')) + s if s == 'Bb' else '*' + s, '{0']]
        elif k == 'record':
            d = ['Record', [], [[1, 'f', r, ['[0'], ''], [2, 'g', 'String', [], 'x']]]
        elif k == 'array':
            d = ['Array', [], [[1, 'f', r, sx.pick(n + '.d', ([], ['<'])), 'z']]]
        elif k == 'string':
            d = ['String', ['{1']]
        else:
            d = ['Enumerated', [], [[2, 'x', ''], [3, 'y', 'why']]]
        defs[n] = [n, d[0], d[1], 'desc ' + n] + d[2:]
    types = [defs['Aa'], defs['Bb'], REC, COL]
    acyclic(sx, types)
    ext = sx.pick('ext', (None, ('DerivedEnum',), ('DerivedEnum', 'MapOfEnum')))
    if ext:
        sx.reach('partial')
    judge(sx, types, ext)


def acyclic(sx, types):
    """No cycles through derived enumerations and dir fields."""
    by = {t[0]: t for t in types}
    edges = {}
    for t in types:
        o = options(t[2])
        e = [o[k] for k in ('enum', 'pointer') if k in o]
        if t[1] in FIELDED:
            e += [f[2] for f in t[4] if 'dir' in options(f[3])]
        edges[t[0]] = e
    for t in types:
        seen = []
        todo = list(edges[t[0]])
        while todo:
            x = todo.pop()
            if x == t[0]:
                sx.discard()
            if x not in seen and x in edges:
                seen.append(x)
                todo += edges[x]


def pointer(sx):
    """Nested collections: the items are the paths of the leaf fields."""
    depth = sx.pick('depth', (1, 2, 3))
    names = ['D0', 'D1', 'D2'][:depth] + ['Leaf']
    types = []
    want = []
    for i in range(depth):
        isdir = i < depth - 1 or sx.bool('lastdir')
        pos = sx.pick(f'pos{i}', (0, 1))
        s = fname(sx, f's{i}')
        n = 'f%d' % i
        sx.assume(s != n)
        fs = [[s, names[i + 1], ['<'] if isdir else [], 'S%d' % i]]
        fs.insert(pos, [n, ('String', 'Leaf')[i % 2], ['[0'] if i == 1 else [], 'F%d' % i])
        types.append([names[i], ('Record', 'Map', 'Choice')[i], [], '', [[j + 1] + f for j, f in enumerate(fs)]])
    types.append(['Leaf', 'Record', [], '', [[1, 'x', 'Integer', [], 'lx'], [2, 'y', 'Integer', [], '']]] if sx.bool('leafrec') else ['Leaf', 'Integer', [], ''])
    by = {t[0]: t for t in types}

    def paths(t, base):
        for f in by[t][4] if len(by[t]) > 4 else []:
            if '<' in f[3]:
                paths(f[2], base + f[1] + '/')
            else:
                want.append([base + f[1], f[4]])
    paths('D0', '')
    sx.reach('nested')
    how = sx.pick('how', ('type', 'field', 'vtype', 'ktype'))
    user = {'type': ['Use', 'Enumerated', ['>D0'], ''], 'field': ['Use', 'Record', [], '', [[1, 'p', 'Enumerated', ['>D0'], '']]],
            'vtype': ['Use', 'ArrayOf', ['*>D0'], ''], 'ktype': ['Use', 'MapOf', ['+>D0', '*Integer'], '']}[how]
    types = [user] + types if sx.bool('first') else types + [user]
    out = judge(sx, types)
    got = {t[0]: t for t in out['types']}
    u = got['Use']
    if how == 'field':
        u = got[u[4][0][2]]
    elif how == 'vtype':
        u = got[options(u[2])['vtype']]
    if how == 'ktype':
        sx.check(u[1] == 'Map' and [[f[1], f[4]] for f in u[4]] == want, 'pointer: wrong fields', (want, u))
    else:
        sx.check(u[1] == 'Enumerated' and [f[1:] for f in u[4]] == want, 'pointer: wrong items', (want, u))
    sx.check([f[0] for f in u[4]] == list(range(1, len(want) + 1)), 'pointer: wrong numbers', u)


def links(sx):
    """Links to types whose key has any type, is a link itself, or is the key of a MapOf."""
    kk = sx.pick('key', ('builtin', 'opts', 'enum', 'ref', 'link', 'linklink', 'mapof', 'mapenum', 'arrayof'))
    extra = []
    if kk == 'builtin':
        b = ['B', 'Record', [], '', [[1, 'id', 'Integer', ['K'], 'd']]]
    elif kk == 'opts':
        b = ['B', 'Map', [], '', [[4, 'id', 'String', sx.pick('ko', (['{1', 'K'], ['K', '/email'], ['{1', '}4', 'K'])), 'd']]]
    elif kk == 'enum':
        b = ['B', 'Record', [], '', [[1, 'id', 'Enumerated', ['K', '#Col'], 'd']]]
    elif kk == 'arrayof':
        b = ['B', 'Record', [], '', [[1, 'id', 'ArrayOf', ['*Col', 'K', '}2'], 'd']]]
    elif kk == 'ref':
        b = ['B', 'Record', [], '', [[1, 'n', 'String', [], ''], [2, 'id', 'Col', ['K'], 'd']]]
    elif kk in ('link', 'linklink'):
        sx.reach('keylink')
        b = ['B', 'Record', [], '', [[1, 'id', 'C', sx.pick('ko', (['K', 'L'], ['L', 'K'])), 'd']]]
        extra = [['C', 'Record', [], '', [[1, 'id', 'String', ['K', '}5'], '']]]]
        if kk == 'linklink':
            extra = [['C', 'Record', [], '', [[1, 'id', 'D', ['K', 'L'], '']]], ['D', 'Record', [], '', [[1, 'id', 'String', ['K', '}5'], '']]]]
    else:
        b = ['B', 'MapOf', ['+' + sx.pick('kt', ('String', 'Col', 'Cid') if kk == 'mapof' else ('#Col', '>Rec')), '*Integer'], '']
    sx.reach('link')
    fs = [[1, 'one', 'B', ['L'] + sx.pick('m1', ([], ['[0'], [']0'], ['[0', ']3', 'q'])), 'o'], [2, 'me', 'A', ['L', '[0'], ''], [3, 'id', 'Integer', ['K'], '']]
    if sx.bool('perm'):
        fs = fs[2:] + fs[:2]
    a = ['A', 'Map', [], '', fs]
    types = sx.pick('order', (0, 1, 2))
    ts = [a, b] + extra
    types = [ts, ts[::-1], [b, a] + extra][types] + [COL, CID, REC]
    ext = sx.pick('ext', (None, ('Link',)))
    out = judge(sx, types, ext)
    got = {t[0]: t for t in out['types']}
    # the type of the link is the type of the key
    fa = {f[1]: f for f in got['A'][4]}
    ft = fa['one'][2]
    if ext is None and ']' in ''.join(fs[0][3] if fs[0][1] == 'one' else fs[1][3]):
        ft = options(got[ft][2])['vtype']
    if b[1] != 'MapOf':
        fb = [f for f in got['B'][4] if f[1] == 'id'][0]
        sx.check(ft == fb[2], 'a link does not have the type of the key', (types, out['types']))
    elif b[2][0][1] not in '#>':
        sx.check(ft == b[2][0][1:], 'a link does not have the type of the key', (types, out['types']))
    sx.check(fa['me'][2] == fa['id'][2], 'a link does not have the type of the key', (types, out['types']))


def sets(sx):
    """Every set of extensions."""
    ext = tuple(e for e in EXT if sx.bool(e))
    plainmap = 'MapOfEnum' in ext and 'DerivedEnum' not in ext
    a = ['A', 'Record', [], '', [[1, 'l', 'B', ['L', '[0', ']0'], ''], [2, 'e', 'Enumerated', ['#B'], ''], [3, 's', 'String', ['{1', ']2'], '']]]
    b = ['B', 'Map', [], '', [[2, 'id', 'String', ['K', '/email'], ''], [4, 'v', 'ArrayOf', ['*Integer', '}2'], '']]]
    c = sx.pick('c', (['C', 'Enumerated', ['#B'], ''], ['C', 'Enumerated', ['>A', '='], ''], ['C', 'ArrayOf', ['*#A'], ''], ['C', 'MapOf', ['+Col', '*String'], ''], ['C', 'MapOf', ['+#A', '*#B'], '']))
    d = ['D', 'MapOf', ['+C', '*Integer'], ''] if sx.bool('d') else ['D', 'Choice', [], '', [[1, 'c', 'C', [']2'], '']]]
    if plainmap and (c[2][0][1] == '#' or c[1] == 'Enumerated' and d[1] == 'MapOf'):
        sx.discard()
    if not ext:
        sx.discard()
    sx.reach('partial')
    judge(sx, [a, b, c, d, COL], ext)


HARNESSES = {'field': field, 'two': two, 'types': types_, 'pointer': pointer, 'links': links, 'sets': sets}
