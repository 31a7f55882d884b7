"""C16: a codec built on a schema with extensions accepts exactly the values that the extensions describe."""
from h_util import diff, MODES, anyval
from h_gen import LEAF

BOUNDS = ('mult: a field of every structure with symbolic minimum 0..3 and maximum 0..3, of builtin, constrained, enumerated, derived, list and linked element types, unique or not, with lists of up to 4 elements with symbolic contents, absent, null or of another type. '
          'anon: a field of every base type with options (symbolic bounds), optional or not, next to a field that creates the same or another generated type. enum: enumerations derived from Record, Map, Array, Choice, Enumerated and derived enumerations, '
          'with and without id, as type, field, list element and map key, with symbolic texts, integers and other values. pointer: enumerations of paths nested up to 3 levels. '
          'mapof: MapOf with enumerated keys (text, id, derived) with up to 3 entries. links: keys of builtin, constrained, enumerated type and keys that are links. All in encode and decode in all four modes.')
ASSUMPTIONS = ['The same reading of the extensions as the existing tests: a list with minc 0 is optional but not empty, and every key of a MapOf with enumerated keys is required.',
               'A MapOf with enumerated keys has no size limits of its own; API values of a MapOf with id keys are keyed by item name, as for a Map with the id option.']
PARAMS = {'quick': {'n': 3}, 'thorough': {'n': 4}}
REACH = [f'{t}-{op}-{st}' for t in ('mult', 'anon', 'enum', 'pointer', 'mapof', 'link') for op in ('encode', 'decode') for st in ('ok', 'reject')] + \
        ['list0', 'list1', 'list2', 'list3', 'absent', 'unique', 'duplicate']

COL = ['Col', 'Enumerated', [], '', [[1, 'r', ''], [5, 'b', '']]]
CID = ['Cid', 'Enumerated', ['='], '', [[1, 'r', ''], [5, 'b', '']]]
REC = ['Rec', 'Record', [], '', [[1, 'k', 'I9', ['K'], ''], [2, 'v', 'String', ['[0'], '']]]
I9 = LEAF['I9']


def mode(sx, few=False):
    vr, vs = MODES[sx.pick('mode', (0, 3) if few else (0, 1, 2, 3))]
    return sx.pick('op', ('encode', 'decode')), vr, vs


def elem(sx, p, t, small=False):
    """A candidate value of an element type."""
    if t == 'text':
        return sx.str(p, 0, 2, 'rbx')
    if t == 'enum':
        return sx.str(p, 1, 1, 'rbk') if sx.bool(p + '.text') else sx.int(p, 0, 6)
    if t == 'list':
        return [sx.int(f'{p}.{i}', -1, 10) for i in range(sx.pick(p + '.n', (0, 1, 2, 3) if not small else (0, 1)))]
    if t == 'bool':
        return sx.bool(p) if sx.bool(p + '.b') else 0
    return sx.int(p, -1, 10)


ELEM = {'int': ('Integer', ['{0', '}9'], 'int'), 'ref': ('I9', [], 'int'), 'str': ('String', ['{1', '}2'], 'text'), 'pat': ('String', ['%r*$'], 'text'), 'enum': ('Enumerated', ['#Col'], 'enum'),
        'enumid': ('Enumerated', ['#Col', '='], 'enum'), 'idenum': ('Enumerated', ['=', '#Rec'], 'enum'), 'lref': ('Col', [], 'enum'), 'list': ('ArrayOf', ['*I9', '{1', '}2'], 'list'), 'bool': ('Boolean', [], 'bool'),
        'link': ('Rec', ['L'], 'int')}


def put(sx, b, x, vr, vs, op):
    """A value of the host type A holding x in its field f (ID 2)."""
    if b == 'Record':
        if op == 'decode' and not vr:
            return [1] if x is ABSENT else [1, x]
        d = {'g': 1}
        k = 'f' if op == 'encode' or vs else 2
        if k == 2:
            d = {1: 1}
    elif b == 'Map':
        k = 'f' if op == 'encode' or vs else 2
        d = {'g' if k == 'f' else 1: 1}
    elif b == 'Array':
        return [1] if x is ABSENT else [1, x]
    else:
        k = 'f' if vs or op == 'encode' else 2
        d = {}
    if x is not ABSENT:
        d[k] = x
    return d


class ABSENT:
    pass


def host(b, t, o):
    return ['A', b, [], '', [[1, 'g', 'Integer', [], ''], [2, 'f', t, o, '']]]


def mult(sx):
    e = sx.pick('elem', list(ELEM))
    t, o, kind = ELEM[e]
    b = sx.pick('base', ('Record', 'Map', 'Array', 'Choice') if e in ('int', 'enum', 'list') else ('Record',))
    op, vr, vs = mode(sx, e not in ('int', 'enumid'))
    lo = sx.int('minc', 0, 3)
    hi = sx.int('maxc', 0, 3)
    sx.assume(sx.And(hi != 1, sx.Or(hi == 0, lo <= hi)))
    o = ['[' + str(lo), ']' + str(hi)] + o
    uniq = e in ('ref', 'lref', 'link') and sx.bool('unique')
    if uniq:
        o = ['q'] + o
    if b == 'Record' and e != 'int':
        o = o[::-1]
    if b == 'Choice':
        sx.assume(lo > 0)
    v = sx.pick('v', ('list', 'one', 'none', 'absent') if e == 'int' else ('list',))
    if v == 'list':
        n = sx.pick('n', list(range(sx.p('n', 3) + 1)))
        sx.reach('list%d' % n)
        x = [elem(sx, f'x{i}', kind, i > 0) if i < 2 or kind == 'int' else {'text': 'r', 'enum': 'r' if vs or op == 'encode' else 1, 'list': [2], 'bool': True}[kind] for i in range(n)]
        if uniq:
            same = n > 1 and any(type(x[i]) is type(x[j]) and x[i] == x[j] for i in range(n) for j in range(i))
            sx.reach('duplicate' if same else 'unique')
    else:
        x = {'one': 1, 'none': None, 'absent': ABSENT}[v]
        sx.reach(v)
    schema = {'types': [host(b, t, o), COL, REC, I9]}
    diff(sx, schema, 'A', put(sx, b, x, vr, vs, op), op, vr, vs, tag='mult')


def anon(sx):
    """Options written on a field constrain that field, whatever generated types other fields need."""
    e = sx.pick('elem', ('int', 'str', 'pat', 'enum', 'enumid', 'idenum', 'list', 'number', 'binary', 'mapof', 'link', 'key', 'klist'))
    op, vr, vs = mode(sx, e not in ('enum', 'enumid', 'mapof'))
    b = sx.pick('base', ('Record', 'Map', 'Array', 'Choice') if e == 'int' else ('Record',))
    if e == 'int':
        t, kind = 'Integer', 'int'
        k = sx.pick('size', ('min', 'max', 'both'))
        lo, hi = sx.int('lo', -1, 5), sx.int('hi', 0, 9)
        sx.assume(lo <= hi)
        o = (['{' + str(lo)] if k != 'max' else []) + (['}' + str(hi)] if k != 'min' else [])
    elif e == 'number':
        t, o = 'Number', ['y-0.5', 'z2']
    elif e == 'binary':
        t, o = 'Binary', ['{1', '}2']
    elif e == 'mapof':
        t, o = 'MapOf', ['+' + sx.pick('kt', ('Col', '#Rec', 'String')), '*I9']
    elif e == 'key':
        t, o, kind = 'Integer', ['K', '}5'], 'int'
    elif e == 'klist':
        t, o, kind = 'Integer', ['K', '}5', ']3'], 'int'
    else:
        t, o, kind = ELEM[e]
    opt = sx.bool('opt') and e != 'klist' and b != 'Choice'
    if opt:
        o = ['[0'] + o
    if e in ('number', 'mapof', 'binary'):
        if e == 'number':
            x = sx.float('x') if sx.bool('fl') else sx.int('x', -1, 3)
        elif e == 'binary':
            x = sx.bytes('x', 0, 3) if op == 'encode' else sx.str('x', 0, 4, 'AQ_$')
        else:
            x = entries(sx, 2)
    elif e == 'klist':
        x = [elem(sx, f'x{i}', kind) for i in range(sx.pick('n', (0, 1, 3)))]
    elif sx.bool('valid'):
        x = elem(sx, 'x', kind)
    else:
        x = ABSENT if sx.bool('gone') else anyval(sx, 'y', 1, 1, ('none', 'bool', 'int', 'str', 'list', 'dict'))
    other = sx.pick('other', (None, ['h', 'Enumerated', ['#Col', '[0'], ''], ['h', 'Enumerated', ['#Col', '=', '[0'], ''], ['h', 'String', ['[0', ']2', '/email'], '']) if 'enum' in e else (None,))
    h = host(b, t, o)
    if other and b == 'Record':
        h[4].append([3] + other)
    types = [h, COL, REC, I9]
    if other and sx.bool('before'):
        types.insert(0, ['Z', 'Map', [], '', [[1] + other]])
    diff(sx, {'types': types}, 'A', put(sx, b, x, vr, vs, op), op, vr, vs, tag='anon')


def entries(sx, n):
    out = {}
    for i in range(sx.pick('n', list(range(n + 1)))):
        k = sx.str(f'k{i}', 0, 1, 'rbkvx') if sx.bool(f'k{i}.text') else sx.int(f'k{i}', 0, 6)
        sx.assume(not any(type(q) is type(k) and q == k for q in out))
        out[k] = sx.int(f'v{i}', -1, 10)
    return out


SRC = {'Record': ['S', 'Record', [], '', [[1, 'r', 'I9', [], ''], [2, 'b', 'I9', ['<'], '']]],
       'Map': ['S', 'Map', ['='], '', [[3, 'b', 'S', ['[0', '<'], ''], [5, 'r', 'String', ['{1', ']0'], '']]],
       'Array': ['S', 'Array', [], '', [[1, 'b', 'I9', [], ''], [2, 'k', 'S', ['[0'], '']]],
       'Choice': ['S', 'Choice', [], '', [[4, 'x', 'I9', [], ''], [2, 'b', 'I9', [], '']]],
       'Enumerated': ['S', 'Enumerated', [], '', [[4, 'x', ''], [2, 'b', '']]],
       'IdEnum': ['S', 'Enumerated', ['='], '', [[4, 'x', ''], [2, 'b', '']]],
       'derived': ['S', 'Enumerated', ['#Rec'], ''], 'derived2': ['S', 'Enumerated', ['#Q', '='], '']}


def enum(sx):
    s = sx.pick('src', list(SRC))
    op, vr, vs = mode(sx)
    types = [SRC[s], REC, I9, COL]
    if s == 'derived2':
        types.append(['Q', 'Enumerated', ['#Col'], ''])
    how = sx.pick('how', ('type', 'id', 'idrev', 'field', 'vtype', 'ktype', 'vtype2'))
    o = {'id': ['#S', '='], 'idrev': ['=', '#S']}.get(how, ['#S'])
    x = None
    if how in ('type', 'id', 'idrev', 'field'):
        x = sx.pick('x', ('text', 'int', 'other'))
        x = sx.str('t', 0, 2, 'rbxkv') if x == 'text' else sx.int('i', -1, 7) if x == 'int' else anyval(sx, 'y', 0, 0, ('none', 'bool', 'float', 'list', 'dict'))
    if how == 'field':
        use = ['A', 'Record', [], '', [[1, 'g', 'Integer', [], ''], [2, 'f', 'Enumerated', o, '']]]
        x = put(sx, 'Record', x, vr, vs, op)
    elif how == 'vtype':
        use = ['A', 'ArrayOf', ['*#S'], '']
        x = [elem(sx, f'x{i}', 'enum') for i in range(sx.pick('n', (1, 2)))]
    elif how == 'vtype2':       # the same derived enumeration is needed twice
        use = ['A', 'ArrayOf', ['*#S'], '']
        types.insert(0, ['Y', 'MapOf', ['+String', '*#S'], ''])
        x = [elem(sx, 'x0', 'enum')]
    elif how == 'ktype':
        use = ['A', 'MapOf', ['+#S', '*I9'], '']
        x = entries(sx, 2)
    else:
        use = ['A', 'Enumerated', o, '']
    if sx.bool('first'):
        types = [use] + types
    else:
        types = types + [use]
    diff(sx, {'types': types}, 'A', x, op, vr, vs, tag='enum')


def pointer(sx):
    op, vr, vs = mode(sx)
    depth = sx.pick('depth', (1, 2, 3))
    types = []
    for i in range(depth):
        fs = [['a', 'Leaf' if i == depth - 1 else f'D{i + 1}', ['<'] if i < depth - 1 or sx.bool('lastdir') else []]]
        b = ['b', 'String', ['[0'] if i == 0 else []]
        if i == depth - 1 and not sx.bool('lastleaf'):      # a collection without content has no leaves
            b = ['b', sx.pick('void', ('Void', 'I9', 'Col')), ['<']]
        fs.insert(sx.pick(f'pos{i}', (0, 1)), b)
        types.append([f'D{i}', ('Record', 'Map', 'Choice')[i], [], '', [[j + 1] + f + [''] for j, f in enumerate(fs)]])
    types.append(['Leaf', 'Record', [], '', [[1, 'x', 'Integer', [], ''], [2, 'a', 'Integer', [], '']]])
    types += [['Void', 'Map', [], '', []], I9 if len(I9) > 4 else I9 + [[]], COL]
    how = sx.pick('how', ('type', 'id', 'field', 'vtype', 'ktype'))
    k = sx.pick('x', ('path', 'text', 'int'))
    n = sx.pick('n', (1, 2, 3, 4)) if k == 'path' else 0
    x = '/'.join(sx.str(f'p{i}', 1, 1, 'abx') for i in range(n)) if k == 'path' else sx.str('t', 0, 3, 'ab/') if k == 'text' else sx.int('i', 0, 9)
    use = {'type': ['A', 'Enumerated', ['>D0'], ''], 'id': ['A', 'Enumerated', ['=', '>D0'], ''], 'field': ['A', 'Record', [], '', [[1, 'g', 'Integer', [], ''], [2, 'f', 'Enumerated', ['>D0'], '']]],
           'vtype': ['A', 'ArrayOf', ['*>D0'], ''], 'ktype': ['A', 'MapOf', ['+>D0', '*Integer'], '']}[how]
    if how == 'field':
        x = put(sx, 'Record', x, vr, vs, op)
    elif how == 'vtype':
        x = [x]
    elif how == 'ktype':
        x = {x: 1}
    diff(sx, {'types': [use] + types}, 'A', x, op, vr, vs, tag='pointer')


def mapof(sx):
    op, vr, vs = mode(sx)
    kt = sx.pick('kt', ('Col', 'Cid', 'Der', '#Col', '#Rec', 'DerId', '>Rec'))
    vt = sx.pick('vt', ('I9', 'Col', '#Col'))
    der = ['Der', 'Enumerated', ['#Rec'], '']
    derid = ['DerId', 'Enumerated', ['#Rec', '='], '']
    x = {}
    for i in range(sx.pick('n', (0, 1, 2, 3))):
        k = sx.str(f'k{i}', 1, 1, 'rbkvx') if i == 2 or sx.bool(f'k{i}.text') else sx.int(f'k{i}', 0, 6)
        sx.assume(not any(type(q) is type(k) and q == k for q in x))
        x[k] = elem(sx, f'v{i}', 'int' if vt == 'I9' else 'enum') if i == 0 else (5 if vt == 'I9' or not vs else 'r')
    types = [['A', 'MapOf', ['+' + kt, '*' + vt], ''], COL, CID, REC, I9, der, derid]
    if sx.bool('last'):
        types = types[::-1]
    diff(sx, {'types': types}, 'A', x, op, vr, vs, tag='mapof')


def link(sx):
    op, vr, vs = mode(sx)
    kk = sx.pick('key', ('int', 'str', 'enum', 'ref', 'link', 'mapof', 'mapenum', 'list'))
    extra = []
    kind = 'int'
    if kk == 'int':
        b = ['B', 'Record', [], '', [[1, 'id', 'Integer', ['K', '{0', '}9'], '']]]
    elif kk == 'str':
        kind = 'text'
        b = ['B', 'Map', [], '', [[2, 'v', 'Integer', [], ''], [4, 'id', 'String', ['{1', 'K', '}1'], '']]]
    elif kk == 'enum':
        kind = 'enum'
        b = ['B', 'Record', [], '', [[1, 'id', 'Enumerated', ['K', '#Col'], 'd']]]
    elif kk == 'ref':
        b = ['B', 'Choice', [], '', [[1, 'n', 'String', [], ''], [2, 'id', 'I9', ['K'], 'd']]]
    elif kk == 'link':
        b = ['B', 'Record', [], '', [[1, 'id', 'C', ['K', 'L'], 'd']]]
        extra = [['C', 'Record', [], '', [[1, 'id', 'Integer', ['K', '}5'], '']]]]
    elif kk == 'list':
        kind = 'list'
        b = ['B', 'Record', [], '', [[1, 'id', 'ArrayOf', ['*I9', '}2', 'K'], '']]]
    else:
        kind = 'text' if kk == 'mapof' else 'enum'
        b = ['B', 'MapOf', ['+' + ('String' if kk == 'mapof' else '#Col'), '*I9'], '']
    many = sx.pick('many', ('', 'opt', 'list'))
    o = ['L'] + {'': [], 'opt': ['[0'], 'list': [']2']}[many]
    if many == 'list':
        x = [elem(sx, f'x{i}', kind, True) for i in range(sx.pick('n', (1, 2)))]
    else:
        x = ABSENT if sx.bool('gone') else elem(sx, 'x', kind) if sx.bool('valid') else anyval(sx, 'y', 0, 0, ('none', 'bool', 'int', 'str', 'dict'))
    types = [host('Record', 'B', o), b] + extra + [COL, I9]
    if sx.bool('rev'):
        types = types[::-1]
    diff(sx, {'types': types}, 'A', put(sx, 'Record', x, vr, vs, op), op, vr, vs, tag='link')


HARNESSES = {'mult': mult, 'anon': anon, 'enum': enum, 'pointer': pointer, 'mapof': mapof, 'link': link}
