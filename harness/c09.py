"""C09: arbitrary input is rejected with ValueError or TypeError, or accepted; nothing given to the package is modified."""
import jadn
from jadn.codec import Codec
import h_cases
from h_gen import LEAF, defs
from h_util import anyval, rejects, schema_of

BOUNDS = ('wild: a value of any JSON kind or bytes (integers up to 20 digits, all finite floats, texts and byte strings of up to 1 (quick) or 2 characters of the universe, lists and objects of up to '
          'width elements of such values, two levels for containers of containers) under one type of each base type and option group, both directions, four modes; shaped: the values of the codec cases '
          '(see C01); schema: every transformation on a schema with symbolic sizes, ids and descriptions in which every option occurs.')
ASSUMPTIONS = ['NaN and infinities are excluded (they are not JSON).', 'String patterns and the formats checked by the jsonschema package are outside this check.']
PARAMS = {'quick': {'slen': 1, 'width': 1}, 'thorough': {'slen': 2, 'width': 2, 'full': True}}
REACH = ['accepted', 'rejected', 'schema', 'deep-ok', 'shaped', 'unknown']

TYPES = {}      # name -> (schema types, type name, container)


def t(name, *types, depth=0):
    TYPES[name] = (types, types[0][0] if types else name, depth)


for b in ('Integer', 'Number', 'String', 'Binary', 'Boolean'):
    t(b)
t('Int', ['T', 'Integer', ['{-5', '}700'], ''])
for f in ('i8', 'i64', 'datetime-ms'):
    t(f, ['T', 'Integer', ['/' + f], ''])
t('Num', ['T', 'Number', ['y-1.5', 'z2.5'], ''])
t('f16', ['T', 'Number', ['/f16'], ''])
t('Str', ['T', 'String', ['{1', '}2'], ''])
t('host', ['T', 'String', ['/hostname'], ''])
t('mail', ['T', 'String', ['/email'], ''])
for f in ('eui', 'uuid', 'ipv4-addr', 'ipv6-addr', 'x', 'X'):
    t(f, ['T', 'Binary', ['/' + f], ''])
t('Bin', ['T', 'Binary', ['{1', '}2'], ''])
t('Enum', ['T', 'Enumerated', [], '', [[0, 'a', ''], [1, 'b', '']]])
t('EnumID', ['T', 'Enumerated', ['='], '', [[0, 'a', ''], [1, 'b', '']]])
t('Enum0', ['T', 'Enumerated', [], '', []])
t('Rec', ['T', 'Record', ['}2'], '', [[1, 'a', 'Integer', [], ''], [2, 'b', 'String', ['[0'], '']]], depth=1)
t('Rec0', ['T', 'Record', [], '', []], depth=1)
t('Map', ['T', 'Map', ['{1'], '', [[5, 'a', 'Integer', ['[0'], ''], [0, 'b', 'E', ['[0'], '']]], ['E', 'Enumerated', [], '', [[0, 'a', '']]], depth=1)
t('MapID', ['T', 'Map', ['='], '', [[5, 'a', 'Integer', ['[0'], ''], [0, 'b', 'String', ['[0'], '']]], depth=1)
t('Arr', ['T', 'Array', [], '', [[1, 'a', 'Integer', [], ''], [2, 'b', 'String', ['[0'], '']]], depth=1)
t('Arr0', ['T', 'Array', [], '', []], depth=1)
for f in ('ipv4-net', 'ipv6-net'):
    t(f, ['T', 'Array', ['/' + f], '', [[1, 'addr', 'Binary', [], ''], [2, 'prefix', 'Integer', [], '']]], depth=1)
t('tag-uuid', ['T', 'Array', ['/tag-uuid'], '', [[1, 'tag', 'String', [], ''], [2, 'uuid', 'U', [], '']]], ['U', 'Binary', ['/uuid'], ''], depth=1)
t('AO', ['T', 'ArrayOf', ['*Integer', '}2'], ''], depth=1)
t('AOq', ['T', 'ArrayOf', ['*String', 'q'], ''], depth=1)
t('AOs', ['T', 'ArrayOf', ['*L', 's'], ''], ['L', 'ArrayOf', ['*Integer'], ''], depth=2)
t('AOR', ['T', 'ArrayOf', ['*R'], ''], ['R', 'Record', [], '', [[1, 'a', 'Integer', ['[0'], '']]], depth=2)
t('MO', ['T', 'MapOf', ['+String', '*Integer', '}2'], ''], depth=1)
t('MOi', ['T', 'MapOf', ['+I', '*String'], ''], ['I', 'Integer', [], ''], depth=1)
t('MOe', ['T', 'MapOf', ['+E', '*Boolean'], ''], ['E', 'Enumerated', [], '', [[0, 'a', ''], [1, 'b', '']]], depth=1)
t('MOl', ['T', 'MapOf', ['+L', '*L'], ''], ['L', 'ArrayOf', ['*Integer'], ''], depth=2)
t('Ch', ['T', 'Choice', [], '', [[0, 'a', 'Integer', [], ''], [1, 'b', 'String', [], '']]], depth=1)
t('ChID', ['T', 'Choice', ['='], '', [[0, 'a', 'Integer', [], ''], [1, 'b', 'R', [], '']]], ['R', 'Record', [], '', [[1, 'a', 'Integer', ['[0'], '']]], depth=2)
t('Ch0', ['T', 'Choice', [], '', []], depth=1)
for c in 'OAX':
    t('Un' + c, ['T', 'Choice', ['C' + c], '', [[1, 'a', 'Integer', [], ''], [2, 'b', 'R', [], ''], [3, 'c', 'E', [], '']]], ['R', 'Record', [], '', [[1, 'a', 'Integer', ['[0'], '']]],
      ['E', 'Enumerated', [], '', [[0, 'a', '']]], depth=1)
t('UnO0', ['T', 'Choice', ['CO'], '', []])
for b in ('Record', 'Map', 'Array'):
    t('Tag' + b, ['T', b, [], '', [[1, 'k', 'E', ['[0'], ''], [2, 'd', 'C', ['[0', '&1'], '']]], ['E', 'Enumerated', [], '', [[0, 'a', ''], [1, 'b', '']]],
      ['C', 'Choice', [], '', [[0, 'a', 'Integer', [], ''], [1, 'b', 'String', [], '']]], depth=1)
    t('TagI' + b, ['T', b, [], '', [[1, 'k', 'Integer', ['[0'], ''], [2, 'd', 'C', ['[0', '&1'], '']]],
      ['C', 'Choice', ['='], '', [[0, 'a', 'Integer', [], ''], [1, 'b', 'String', [], '']]], depth=1)
t('Multi', ['T', 'Record', [], '', [[1, 'a', 'Integer', ['[0', ']2'], ''], [2, 'b', 'R', ['[0', ']0'], '']]], ['R', 'Record', [], '', [[1, 'a', 'Integer', ['[0'], '']]], depth=2)
t('Self', ['T', 'Record', [], '', [[1, 'a', 'T', ['[0'], ''], [2, 'b', 'L', ['[0'], '']]], ['L', 'ArrayOf', ['*T'], ''], depth=2)
MODED = {n for n in TYPES if TYPES[n][2] or n in ('Enum', 'EnumID', 'Enum0')}


def untouched(sx, v, f, *args):
    w = sx.deepcopy(v)
    r = sx.call(f, *args)
    sx.check(sx.same(v, w), 'an argument is modified', (w, v))
    return r


def wild(group):
    def h(sx):
        n = sx.pick('type', group)
        types, name, depth = TYPES[n]
        vr, vs = (sx.bool('vr'), sx.bool('vs')) if n in MODED else (True, True)
        c = Codec(schema_of(*types), vr, vs)
        d = depth
        v = anyval(sx, 'v', d, sx.p('width') if d < 2 else 1, slen=sx.p('slen') if not d else 1)
        if n == 'datetime-ms' and sx.pytype(v) is int:
            sx.assume(sx.Or(sx.And(v >= 0, v < 86400000), v > 10 ** 15, v < -10 ** 15))        # the calendar is the subject of C05
        r = untouched(sx, v, c.decode if sx.bool('decode') else c.encode, name, v)
        sx.reach('accepted' if r[0] == 'ok' else 'rejected')
        sx.check(r[0] == 'ok' or rejects(r), f'{n}: raises {r[1]}', v)
    return h


def pairs(sx):
    """Lists and objects of two elements of restricted kinds."""
    n = sx.pick('type', [n for n in TYPES if TYPES[n][2] == 1])
    types, name, depth = TYPES[n]
    vr, vs = (sx.bool('vr'), sx.bool('vs')) if n in MODED else (True, True)
    c = Codec(schema_of(*types), vr, vs)
    kinds = ('none', 'int', 'str', 'list')
    a, b = anyval(sx, 'a', 0, 0, kinds), anyval(sx, 'b', 0, 0, ('none', 'str', 'dict'))
    if sx.bool('list'):
        v = [a, b]
    else:
        ka = sx.pick('ka', ('a', 'k', 1, '0'))
        kb = sx.pick('kb', ('b', 'd', 2, '1'))
        v = {ka: a, kb: b}
    r = untouched(sx, v, c.decode if sx.bool('decode') else c.encode, name, v)
    sx.reach('accepted' if r[0] == 'ok' else 'rejected')
    sx.check(r[0] == 'ok' or rejects(r), f'{n}: raises {r[1]}', v)


def unknown(sx):
    c = Codec(schema_of(['T', 'Integer', [], '']), True, True)
    n = sx.str('name', 0, 3, 'TInteger')
    v = sx.int('v')
    r = untouched(sx, v, c.decode if sx.bool('decode') else c.encode, n, v)
    if sx.same(n, 'T'):
        sx.check(r[0] == 'ok' and sx.same(r[1], v), 'valid')
    else:
        sx.reach('unknown')
        sx.check(r[0] == 'err' and rejects(r), f'unknown type: {r[1]}')


def shaped(name, case):
    def h(sx):
        schema, t_, v, vr, vs = case(sx)
        s0 = sx.deepcopy(schema)
        c = Codec(schema, vr, vs)
        sx.check(sx.same(schema, s0), 'the schema is modified by Codec', schema)
        r = untouched(sx, v, c.encode, t_, v)
        sx.check(r[0] == 'ok' or rejects(r), f'{name}: encode raises {r[1]}', v)
        sx.reach('shaped')
        if r[0] == 'ok':
            sx.reach('deep-ok')
            d = untouched(sx, r[1], c.decode, t_, r[1])
            sx.check(d[0] == 'ok' or rejects(d), f'{name}: decode raises {d[1]}', r[1])
            e2 = sx.call(c.encode, t_, v)
            sx.check(e2[0] == 'ok' and sx.same(e2[1], r[1]), 'encoding the same value again gives something else', (v, e2[1]))
        sx.check(sx.same(schema, s0), 'the schema is modified', schema)
    return h


def schema(sx):
    d = sx.pick('desc', ('', 'some text', None))
    d = sx.str('d', 1) if d is None else d
    lo = sx.int('lo', 0, 1)
    s = {'info': {'package': 'http://x', 'exports': ['R'], 'config': {'$MaxString': sx.int('max', 1, 9)}},
         'types': [['R', 'Record', sx.pick('ropts', ([], ['X'], ['{' + str(lo)])), d, [
             [1, 'k', 'Integer', ['K', '{0'], d], [2, 'l', 'R', ['L', '[0', ']3'], ''], [3, 'm', 'String', [']0', 'q'], d], [4, 'e', 'Enumerated', ['#M', '[0'], ''],
             [5, 'a', 'ArrayOf', ['*Integer', '{' + str(lo)], d], [6, 'p', 'Enumerated', ['>R'], ''], [7, 't', 'E', ['[1', ']1'], ''], [8, 'c', 'C', ['&7', '<'], d]]],
                   ['M', 'Map', ['='], '', [[3, 'x', 'Number', ['y0', 'z1'], ''], [2, 'y', 'Binary', ['{0'], '']]],
                   ['E', 'Enumerated', [], d, [[1, 'm', d], [2, 'n', '']]],
                   ['C', 'Choice', [], '', [[1, 'm', 'Integer', [], ''], [2, 'n', 'String', [], d]]],
                   ['O', 'MapOf', ['*Integer', '+E', '{0'], ''], ['Q', 'ArrayOf', ['*#M'], ''], ['W', 'ArrayOf', ['*>R', '}5'], d], ['N', 'Number', ['z2', 'y1'], d]]}
    if sx.bool('fields'):
        for td in s['types']:
            if len(td) < 5:
                td.append([])
    s0 = sx.deepcopy(s)
    f = sx.pick('f', (jadn.transform.unfold_extensions, jadn.canonicalize, jadn.transform.strip_comments, jadn.analyze, jadn.build_deps, jadn.dumps, jadn.codec.Codec,
                      jadn.convert.jidl_dumps, jadn.convert.html_dumps, jadn.convert.markdown_dumps, jadn.convert.diagram_dumps, jadn.translate.json_schema_dumps))
    r = sx.call(f, s)
    sx.note(r[0])
    sx.check(sx.same(s, s0), 'the schema is modified', s)
    sx.reach('schema')


names = list(TYPES)
HARNESSES = {f'wild{i}': wild(names[i::4]) for i in range(4)}
HARNESSES.update({'pairs': pairs, 'unknown': unknown, 'schema': schema})
HARNESSES.update({n: shaped(n, f) for n, f in h_cases.CASES.items()})
