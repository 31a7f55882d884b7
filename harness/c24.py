"""C24: the result of an operation does not depend on the operations that were carried out before."""
import jadn
from jadn.codec import Codec
import h_cases
from h_gen import defs
from h_util import anyval, schema_of

BOUNDS = ('One codec carries out up to two earlier operations (encode or decode of the same or of other values, valid or not, of the same or of another type, set_mode to any other mode and back, '
          'construction and use of a second codec with another schema, configuration and mode) before the operation under test; the result is compared with that of a new codec. '
          'A codec of a schema of overlapping untagged unions, containers of them and tagged fields has processed other values (thorough: two, of any of these types). Values and schemas are those of the codec cases (see C01) with symbolic contents. Transformations and translations are carried out twice, and after other transformations, on a schema in which '
          'every option occurs.')
ASSUMPTIONS = ['Concurrent use of one codec is not claimed.']
PARAMS = {'quick': {'types': ('E2', 'R1')}, 'thorough': {'full': True, 'earlier': 2}}
REACH = ['same-ok', 'same-err', 'pure', 'modes', 'values']

OTHER = {'info': {'package': 'http://other', 'config': {'$MaxString': 3, '$MaxElements': 1, '$MaxBinary': 2}},
         'types': [['T', 'Record', [], '', [[1, 'zz', 'Integer', [], '']]], ['E2', 'Enumerated', [], '', [[3, 'q', ''], [8, 'x', '']]], ['TypeRef', 'String', [], '']]}


def outcome(sx, f, *args):
    r = sx.call(f, *args)
    return (r[0], r[1])         # error: class name


def interfere(sx, c, schema, t, v, e):
    """Earlier operations on codec c."""
    k = sx.pick('before', ('encode', 'decode', 'bad', 'badfield', 'other', 'mode', 'set_mode'))
    if k == 'encode':
        sx.call(c.encode, t, v)
    elif k == 'decode':
        sx.call(c.decode, t, e)
    elif k == 'bad':
        a, b = sx.pick('bad', (({'zz': 1}, [[], 1]), ([None, []], {'zz': 1}), ('no', {99: 1})))
        sx.call(c.encode, t, a)
        sx.call(c.decode, t, b)
    elif k == 'badfield' and type(v) is dict and v:
        w = dict(v)
        w[list(v)[-1]] = {'?': []}
        sx.call(c.encode, t, w)
        if type(e) is list:
            sx.call(c.decode, t, e[:-1] + [{'?': []}])
    elif k == 'other':
        o = Codec(OTHER, not c.verbose_rec, not c.verbose_str)
        sx.call(o.encode, 'T', {'zz': 5})
        sx.call(o.decode, 'E2', 'x')
        sx.call(o.encode, t, v)
    elif k == 'mode':
        vr, vs = c.verbose_rec, c.verbose_str
        c.set_mode(not vr, vs) if sx.bool('rec') else c.set_mode(vr, not vs)
        sx.call(c.encode, t, v)
        c.set_mode(vr, vs)
    elif k == 'set_mode':
        c.set_mode(c.verbose_rec, c.verbose_str)
    else:
        sx.discard()


def history(name, case):
    def h(sx):
        schema, t, v, vr, vs = case(sx)
        fresh = Codec(sx.deepcopy(schema), vr, vs)
        e0 = outcome(sx, fresh.encode, t, v)
        e = e0[1] if e0[0] == 'ok' else 0
        d0 = outcome(sx, Codec(sx.deepcopy(schema), vr, vs).decode, t, e)
        c = Codec(schema, vr, vs)
        interfere(sx, c, schema, t, v, e)
        d1 = outcome(sx, c.decode, t, e)
        e1 = outcome(sx, c.encode, t, v)
        e2 = outcome(sx, c.encode, t, v)
        sx.reach('same-ok' if e0[0] == 'ok' else 'same-err')
        sx.check(sx.same(d1, d0), 'decode depends on what was done before', (d0, d1))
        sx.check(sx.same(e1, e0), 'encode depends on what was done before', (e0, e1))
        sx.check(sx.same(e2, e0), 'a second encode differs', (e0, e2))
    return h


def modes(sx):
    """A codec that was switched to a mode is like one constructed in it."""
    schema, t, v, vr, vs = h_cases.CASES[sx.pick('case', ('gaps', 'choices', 'tagged'))](sx)
    a, b = sx.bool('vr0'), sx.bool('vs0')
    c = Codec(schema, a, b)
    if sx.bool('use'):
        sx.call(c.encode, t, v)
    c.set_mode(vr, vs)
    want = Codec(schema, vr, vs)
    r, w = outcome(sx, c.encode, t, v), outcome(sx, want.encode, t, v)
    sx.check(sx.same(r, w), 'set_mode differs from constructing in that mode', (r, w))
    if r[0] == 'ok':
        r, w = outcome(sx, c.decode, t, r[1]), outcome(sx, want.decode, t, r[1])
        sx.check(sx.same(r, w), 'set_mode differs from constructing in that mode (decode)', (r, w))
    sx.reach('modes')


def full_schema(sx):
    d = sx.pick('desc', ('', 'some text', None))
    d = sx.str('d', 1) if d is None else d
    lo = sx.int('lo', 0, 1)
    return {'info': {'package': 'http://x', 'exports': ['R'], 'config': {'$MaxString': 9}},
            'types': [['R', 'Record', [], d, [
                [1, 'k', 'Integer', ['K', '{0'], d], [2, 'l', 'R', ['L', '[0', ']3'], ''], [3, 'm', 'String', [']0', 'q'], d], [4, 'e', 'Enumerated', ['#M', '[0'], ''],
                [5, 'a', 'ArrayOf', ['*Integer', '{' + str(lo)], d], [6, 'p', 'Enumerated', ['>R'], ''], [7, 't', 'E', ['[1', ']1'], ''], [8, 'c', 'C', ['&7', '<'], d]]],
                      ['M', 'Map', ['='], '', [[3, 'x', 'Number', ['y0', 'z1'], ''], [2, 'y', 'Binary', ['{0'], '']]],
                      ['E', 'Enumerated', [], d, [[1, 'm', d], [2, 'n', '']]],
                      ['C', 'Choice', [], '', [[1, 'm', 'Integer', [], ''], [2, 'n', 'String', [], d]]],
                      ['O', 'MapOf', ['*Integer', '+E', '{0'], '', []], ['Q', 'ArrayOf', ['*#M'], '', []], ['W', 'ArrayOf', ['*>R', '}5'], d, []], ['N', 'Number', ['z2', 'y1'], d, []]]}


FUNCS = {'unfold': lambda s: jadn.transform.unfold_extensions(s), 'canonicalize': lambda s: jadn.canonicalize(s), 'strip': lambda s: jadn.transform.strip_comments(s, 3),
         'analyze': lambda s: jadn.analyze(s), 'dumps': lambda s: jadn.dumps(s), 'jidl': lambda s: jadn.convert.jidl_dumps(s), 'html': lambda s: jadn.convert.html_dumps(s),
         'markdown': lambda s: jadn.convert.markdown_dumps(s), 'diagram': lambda s: jadn.convert.diagram_dumps(s), 'jsonschema': lambda s: jadn.translate.json_schema_dumps(s)}


def pure(sx):
    s = full_schema(sx)
    f = sx.pick('f', sorted(FUNCS))
    g = sx.pick('g', sorted(FUNCS) + ['codec', 'error'])
    a = outcome(sx, FUNCS[f], sx.deepcopy(s))
    if g == 'codec':
        sx.call(Codec, s, True, True)
    elif g == 'error':
        for h in sorted(FUNCS):
            sx.call(FUNCS[h], {'info': {'package': 'http://y'}, 'types': [['X', 'Nonsense', ['?'], 'no', []]]})
    else:
        sx.call(FUNCS[g], s)
    b = outcome(sx, FUNCS[f], s)
    sx.check(sx.same(a, b), f'{f} depends on an earlier {g}', (a, b))
    sx.reach('pure')


TWO = {'info': {'package': 'http://x', 'config': {'$MaxString': 4, '$MaxElements': 3}}, 'types': [
    ['E1', 'Enumerated', [], '', [[1, 'x', ''], [2, 'z', '']]], ['E5', 'Enumerated', [], '', [[5, 'x', ''], [6, 'y', '']]], ['I5', 'Enumerated', ['='], '', [[5, 'x', ''], [6, 'y', '']]],
    ['UO', 'Choice', ['CO'], '', [[1, 'a', 'E1', [], ''], [2, 'b', 'E5', [], ''], [3, 'c', 'I5', [], ''], [4, 'd', 'Small', [], ''], [5, 'e', 'String', [], '']]],
    ['UA', 'Choice', ['CA'], '', [[1, 'a', 'E1', [], ''], [2, 'b', 'E5', [], '']]], ['UX', 'Choice', ['CX'], '', [[1, 'a', 'E1', [], ''], [2, 'b', 'E5', [], ''], [3, 'c', 'Small', [], '']]],
    ['Small', 'Integer', ['{0', '}6'], '', []],
    ['RO', 'Choice', ['CO'], '', [[1, 'a', 'R2', [], ''], [2, 'b', 'R1', [], ''], [3, 'c', 'M', [], '']]],
    ['R1', 'Record', [], '', [[1, 'p', 'UO', ['[0'], ''], [2, 'q', 'UX', ['[0'], '']]], ['R2', 'Record', [], '', [[1, 'q', 'E1', ['[0'], ''], [2, 'p', 'E5', ['[0'], '']]],
    ['M', 'MapOf', ['+E1', '*UO', '}2'], '', []], ['L', 'ArrayOf', ['*UO', 'q'], '', []], ['A', 'Array', [], '', [[1, 'p', 'UO', ['[0'], ''], [2, 'q', 'UO', ['[0'], '']]],
    ['T', 'Record', [], '', [[1, 't', 'E5', ['[0'], ''], [2, 'v', 'C', ['&1', '[0'], '']]], ['C', 'Choice', [], '', [[1, 'x', 'E1', [], ''], [2, 'y', 'UO', [], '']]]]}


def any_of(sx, n, t):
    """A value of type t, or nearly."""
    if t in ('UO', 'UA', 'UX'):
        k = sx.pick(n + '.k', ('str', 'int'))
        return sx.str(n, 1, 1, 'xyz?') if k == 'str' else sx.int(n, 0, 9)
    if t in ('R1', 'R2', 'RO'):
        return sx.pick(n, ({'p': 'x'}, {'q': 'x'}, {'p': 'y', 'q': 'z'}, {'x': 'y'}, {'p': '?'}, ['x'], [5, 1], [None, 'y'], {}))
    if t == 'M':
        return sx.pick(n, ({'x': 'x'}, {'x': 'y', 'z': 6}, {1: 5}, {'z': '?', 'x': 'x'}, {'z': 'x', 'x': {}}))
    if t == 'L' or t == 'A':
        return sx.pick(n, (['x', 'y'], ['y', 'x'], ['y', 'y'], [6, 1], [None, 5], [{}], []))
    return sx.pick(n, ({'t': 'x', 'v': 'z'}, {'t': 'y', 'v': 'y'}, {'t': 'y', 'v': 'x'}, {'t': 'x', 'v': 'y'}, {'v': 'x'}, [5, 1], [6, 6], [6, 'x']))


def values(sx):
    """Earlier operations with other values."""
    t = sx.pick('type', ('UO', 'UX', 'UA', 'RO', 'R1', 'M', 'L', 'A', 'T', 'C'))
    vr, vs = sx.bool('rec'), sx.bool('str')
    c, fresh = Codec(TWO, vr, vs), Codec(TWO, vr, vs)
    for i in range(sx.p('earlier', 1)):
        op = sx.pick('op' + str(i), ('encode', 'decode'))
        u = sx.pick('type' + str(i), ('UO', 'RO', 'L', 'T')) if sx.p('full') else t
        sx.call(getattr(c, op), u, any_of(sx, 'v' + str(i), u))
    v = any_of(sx, 'v', t)
    for op in ('encode', 'decode'):
        r, w = outcome(sx, getattr(c, op), t, v), outcome(sx, getattr(fresh, op), t, v)
        sx.check(sx.same(r, w), f'{op} depends on what was done before', (t, v, r, w))
    sx.reach('values')


HARNESSES = {n: history(n, f) for n, f in h_cases.CASES.items()}
HARNESSES.update({'values': values, 'modes': modes, 'pure': pure})
