"""Cases (schema, type, API value, mode) for the codec properties: values are of the right shape, contents symbolic."""
from h_util import schema_of
from h_gen import LEAF, defs

NAMES = ['a', 'b', 'c']
SCALARS = ('Integer', 'I9', 'S2', 'E2', 'Boolean', 'EID', 'Binary', 'Number', 'String')
NESTED = ('L2', 'M2', 'R1', 'C1')


def val(sx, name, t):
    """An API value of the right shape for a leaf type, contents symbolic, mostly valid."""
    if t in ('Integer', 'I9'):
        return sx.int(name, -10 ** 12 if t == 'Integer' else 0, 10 ** 12 if t == 'Integer' else 10)
    if t == 'Number':
        return sx.float(name)
    if t in ('String', 'S2'):
        return sx.str(name, 1, 2)
    if t == 'Boolean':
        return sx.bool(name)
    if t == 'Binary':
        return sx.bytes(name, 0, 3)
    if t == 'EID':
        return sx.int(name, 3, 7)
    if t == 'E2':
        return sx.str(name, 1, 1, 'xyz')
    if t == 'L2':
        return [sx.int(f'{name}.{i}', 0, 9) for i in range(sx.pick(name + '.n', (0, 2)))]
    if t == 'M2':
        return {sx.str(f'{name}.k', 1, 1): sx.int(f'{name}.v', 0, 9)} if sx.bool(name + '.n') else {}
    if t == 'R1':
        v = {'p': sx.int(name + '.p', 0, 9)}
        if sx.bool(name + '.hasq'):
            v['q'] = sx.str(name + '.q', 0, 1)
        return v
    if t == 'C1':
        return {'m': sx.int(name + '.m', 0, 9)} if sx.bool(name + '.alt') else {'n': sx.str(name + '.n', 1, 1)}
    raise AssertionError(t)


def flat(sx):
    """Records, maps and arrays: n fields, one with a varying type, any subset present."""
    base = sx.pick('base', ('Record', 'Map', 'MapID', 'Array'))
    vr, vs = sx.bool('vr'), sx.bool('vs')
    b = base[:3] if base == 'MapID' else base
    n = sx.pick('n', (1, 2, 3) if sx.p('full') else (1, 2))
    focus = sx.pick('focus', list(range(n)))
    t = sx.pick('type', sx.p('types') or SCALARS + NESTED)
    fs = []
    step = sx.int('idstep', 1, 1000) if b == 'Map' else 1
    for i in range(n):
        k = step * (n - i if b == 'Map' else i + 1)
        fs.append([k, NAMES[i], t if i == focus else 'I9', ['[0'] if sx.bool(f'opt{i}') else [], ''])
    vals = []
    for i in range(n):
        if i == focus:
            vals.append(val(sx, f'v{i}', t))
        elif fs[i][3] == ['[0'] and sx.bool(f'absent{i}'):
            vals.append(None)
        else:
            vals.append(i)
    if b == 'Array':
        v = vals
        while v and v[-1] is None:
            v.pop()
    else:
        order = [1, 0, 2][:n] if n > 1 and sx.bool('swap') else range(n)
        v = {NAMES[i]: vals[i] for i in order if vals[i] is not None}
    return schema_of(['T', b, ['='] if base == 'MapID' else [], '', fs], *defs('I9', t)), 'T', v, vr, vs


def gaps(sx):
    """Optional fields only: every subset of up to three present fields, in every position."""
    base = sx.pick('base', ('Record', 'Map', 'MapID', 'Array'))
    vr, vs = sx.bool('vr'), sx.bool('vs')
    b = base[:3] if base == 'MapID' else base
    n = sx.pick('n', (1, 2, 3, 4) if sx.p('full') else (1, 2, 3))
    names = ['a', 'b', 'c', 'd']
    fs = [[i + 1, names[i], 'Integer', ['[0'], ''] for i in range(n)]
    vals = [sx.int(f'v{i}', 0, 9) if sx.bool(f'has{i}') else None for i in range(n)]
    if b == 'Array':
        v = vals
        while v and v[-1] is None:
            v.pop()
    else:
        v = {names[i]: vals[i] for i in range(n) if vals[i] is not None}
    return schema_of(['T', b, ['='] if base == 'MapID' else [], '', fs]), 'T', v, vr, vs


def choices(sx):
    vr, vs = sx.bool('vr'), sx.bool('vs')
    idopt = sx.bool('idopt')
    n = sx.pick('n', (1, 2))
    j = sx.pick('alt', list(range(n)))
    t = sx.pick('type', sx.p('types') or SCALARS + NESTED)
    fs = []
    for i in range(n):
        k = sx.int(f'id{i}', 0, 99)
        for f in fs:
            sx.assume(f[0] != k)
        fs.append([k, NAMES[i], t if i == j else 'I9', [], ''])
    return schema_of(['T', 'Choice', ['='] if idopt else [], '', fs], *defs('I9', t)), 'T', {fs[j][0 if idopt else 1]: val(sx, 'v', t)}, vr, vs


def lists(sx):
    vr, vs = sx.bool('vr'), sx.bool('vs')
    t = sx.pick('type', sx.p('types') or SCALARS + NESTED)
    v = [val(sx, f'v{i}', t) for i in range(sx.pick('n', (0, 1, 2)))]
    q = sx.pick('q', ([], ['q'], ['s'], ['b'], ['}1']))
    return schema_of(['T', 'ArrayOf', ['*' + t] + q, ''], *defs(t)), 'T', v, vr, vs


def maps(sx):
    vr, vs = sx.bool('vr'), sx.bool('vs')
    kt = sx.pick('ktype', ('S2', 'I9', 'String', 'Integer', 'E2'))
    t = sx.pick('type', sx.p('types') or SCALARS + NESTED)
    v = {}
    for i in range(sx.pick('n', (0, 1, 2))):
        k = 'xy'[i] if kt == 'E2' else val(sx, f'k{i}', kt)
        sx.assume(k not in v)
        v[k] = val(sx, f'v{i}', t) if i == 0 or kt == 'E2' else 5 if t in ('Integer', 'I9') else v[list(v)[0]]
    return schema_of(['T', 'MapOf', ['+' + kt, '*' + t], ''], *defs(kt, t)), 'T', v, vr, vs


def scalars(sx):
    vr, vs = sx.bool('vr'), sx.bool('vs')
    t = sx.pick('type', SCALARS)
    if LEAF[t] is None and t != 'Binary':
        t0 = t
        return schema_of(['T', t, [], '']), sx.pick('named', ('T', t0)), val(sx, 'v', t), vr, vs
    return schema_of(*defs(t)), t, val(sx, 'v', t), vr, vs


def nested(sx):
    """Two levels of structure around a leaf."""
    vr, vs = sx.bool('vr'), sx.bool('vs')
    t = sx.pick('type', sx.p('types') or ('E2', 'I9', 'R1', 'C1', 'M2'))
    v = val(sx, 'v', t)
    types = []
    for i, nm in enumerate(('U', 'T')):
        inner = t if i == 0 else 'U'
        o = sx.pick('outer' + nm, ('Record', 'Map', 'MapID', 'Array', 'ArrayOf', 'MapOf', 'Choice', 'ChoiceID'))
        idopt = o.endswith('ID')
        b = o[:-2] if idopt else o
        opts, fs = ['='] if idopt else [], []
        if b in ('ArrayOf', 'MapOf'):
            opts = ['*' + inner] + (['+S2'] if b == 'MapOf' else [])
            v = [v] if b == 'ArrayOf' else {'z': v}
        else:
            fs = [[1, 'a', 'Integer', [] if b == 'Choice' else ['[0'], ''], [2, 'b', inner, [], '']]
            v = [None, v] if b == 'Array' else {(2 if o == 'ChoiceID' else 'b'): v}
        types.append([nm, b, opts, '', fs])
    return schema_of(types[1], types[0], *defs('S2', t)), 'T', v, vr, vs


def tagged(sx):
    vr, vs = sx.bool('vr'), sx.bool('vs')
    base = sx.pick('base', ('Record', 'Map', 'Array'))
    sameid = sx.bool('sameid')
    first = sx.bool('tagfirst')
    ti, di = (1, 2) if first else (2, 1)
    en = ['E', 'Enumerated', [], '', [[4 if sameid else 1, 'm', ''], [6 if sameid else 2, 'n', '']]]
    fs = [[ti, 'kind', 'E', [], ''], [di, 'data', 'C1', ['&' + str(ti)] + (['[0'] if sx.bool('optional') else []), '']]
    fs = fs if first else fs[::-1]
    alt = sx.pick('alt', ('m', 'n'))
    v = {'kind': alt}
    if fs[di - 1][3] == ['&' + str(ti)] or sx.bool('has'):
        v['data'] = sx.int('m', 0, 9) if alt == 'm' else sx.str('n', 1, 2)
    if base == 'Array':
        v = [v.get(f[1]) for f in fs]
        if v[-1] is None:
            v.pop()
    return schema_of(['T', base, [], '', fs], en, *defs('C1')), 'T', v, vr, vs


def unions(sx):
    vr, vs = sx.bool('vr'), sx.bool('vs')
    how = sx.pick('combine', 'OXA')
    t = sx.pick('types', (('I9', 'S2'), ('Integer', 'I9'), ('S2', 'String'), ('Boolean', 'I9'), ('L2', 'I9'), ('M2', 'S2')))
    u = sx.pick('value', (0, 1))
    return schema_of(['T', 'Choice', ['C' + how], '', [[1, 'a', t[0], [], ''], [2, 'b', t[1], [], '']]], *defs(*t)), 'T', val(sx, 'v', t[u]), vr, vs


def extended(sx):
    """Multiplicity, anonymous options, derived enumerations, key/link."""
    vr, vs = sx.bool('vr'), sx.bool('vs')
    base = sx.pick('base', ('Record', 'Map'))
    k = sx.pick('ext', ('multi', 'multi0', 'anon', 'enum', 'link', 'anonlist'))
    more = []
    if k in ('multi', 'multi0'):
        f = [2, 'b', sx.pick('type', ('I9', 'E2', 'R1')), [']0'] if k == 'multi' else ['[0', ']2'], '']
        v = [val(sx, f'v{i}', f[2]) for i in range(sx.pick('n', (1, 2)))]
    elif k == 'anon':
        f, v = [2, 'b', 'Integer', ['{1', '}5'], ''], sx.int('v', 0, 6)
    elif k == 'anonlist':
        f, v = [2, 'b', 'ArrayOf', ['*E2', '}2'], ''], [val(sx, 'v0', 'E2')]
    elif k == 'enum':
        f, v = [2, 'b', 'Enumerated', ['#R1'], ''], sx.str('v', 1, 1, 'pqr')
    else:
        f, v = [2, 'b', 'KT', ['L'], ''], sx.int('v', 0, 9)
        more = [['KT', 'Record', [], '', [[1, 'key', 'I9', ['K'], ''], [2, 'x', 'String', ['[0'], '']]]]
    val_ = {'a': 1, 'b': v}
    return schema_of(['T', base, [], '', [[1, 'a', 'Integer', [], ''], f]], *more, *defs('E2', 'R1')), 'T', val_, vr, vs


CASES = {'flat': flat, 'gaps': gaps, 'choices': choices, 'lists': lists, 'maps': maps, 'scalars': scalars, 'nested': nested,
         'tagged': tagged, 'unions': unions, 'extended': extended}
BOUNDS = ('Schemas: records, maps, maps with id, arrays of up to nf fields (optional or required, any subset present, map IDs symbolic), choices of up to '
          '2 alternatives with symbolic IDs, ArrayOf/MapOf of up to 2 elements, two levels of nesting around a leaf, tagged choices, untagged unions, '
          'multiplicity/anonymous/derived-enumeration/link fields; leaf types Integer, Integer{0..9}, String, String{1..2}, Boolean, Number, Binary, '
          'Enumerated, Enumerated.ID, ArrayOf, MapOf, Record, Choice; contents symbolic (integers up to 12 digits, all finite floats, texts of up to 2 '
          'characters, binary of up to 3 bytes); all four modes.')
