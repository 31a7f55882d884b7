"""C08: externally tagged values use the alternative named by the tag field."""
from h_util import diff, schema_of
from h_gen import defs, badkind

BOUNDS = ('Records, maps, maps with id and arrays with a tag field (Enumerated or Enumerated.ID, item IDs equal to the choice IDs or not, symbolic), a tagged field (Choice or Choice.ID of '
          'two alternatives, payload types Integer{0..9}, String{1..2}, Record, Enumerated, ArrayOf) in either order, optional or required, and up to one more field; any tag value including '
          'unknown, absent and other kinds, any payload fitting the selected or the other alternative or neither; two tagged fields sharing '
          'or using separate tags; four modes, encode and decode.')
ASSUMPTIONS = ['The tagged field is a tagged Choice (not a union) and the tag names one of its alternatives by its API identifier.',
               'Integer keys of JSON objects may arrive as text.']
PARAMS = {'quick': {}, 'thorough': {}}
REACH = [f'{b}-{o}-{r}' for b in ('Record', 'Map', 'MapID', 'Array') for o in ('encode', 'decode') for r in ('ok', 'reject')]


def payload(sx, name, t, wire, vr, vs):
    if t == 'I9':
        return sx.int(name, -2, 12)
    if t == 'S2':
        return sx.str(name, 0, 3, 'ab')
    if t == 'E2':
        return sx.int(name, 0, 9) if wire and not vs else sx.str(name, 1, 1, 'xyz')
    if t == 'L2':
        return [sx.int(name, 0, 12)]
    if wire and not vr:
        return [sx.int(name, 8, 10)]
    return {(1 if wire and not vs else 'p'): sx.int(name, 8, 10)}


def build(sx, base, op, vr, vs, items, idenum, fs, vals):
    """Container value from the API or wire values of its fields."""
    wire = op == 'decode'
    if base == 'Array' or base == 'Record' and wire and not vr:
        v = []
        for f in fs:
            v.append(vals.get(f[1]))
        while v and v[-1] is None:
            v.pop()
        return v
    ids = wire and (base == 'MapID' or not vs)
    text = ids and sx.bool('textkeys')
    out = {}
    for f in fs:
        if vals.get(f[1]) is not None:
            k = f[0] if ids else f[1]
            out[str(k) if text else k] = vals[f[1]]
    return out


def tagged(sx):
    op, vr, vs = sx.pick('op', ('encode', 'decode')), sx.bool('vr'), sx.bool('vs')
    base = sx.pick('base', ('Record', 'Map', 'MapID', 'Array'))
    wire = op == 'decode'
    first = sx.bool('tagfirst')
    scen = sx.pick('scen', ('types', 'absent', 'bad'))
    optional = scen == 'absent' and sx.bool('optional')
    tagopt = scen == 'absent' and sx.bool('tagoptional')
    idenum = sx.bool('idenum')
    t1 = sx.pick('t1', ('S2', 'R1', 'E2', 'L2')) if scen == 'types' else 'S2'
    ch = [[4, 'm', 'I9', [], ''], [6, 'n', t1, [], '']]
    sameid = idenum or sx.bool('sameid')
    items = [[4, 'm', ''], [6, 'n', ''], [9, 'o', '']] if sameid else [[6, 'm', ''], [4, 'n', ''], [9, 'o', '']]
    ti, di = (1, 2) if first else (2, 1)
    fk = [ti, 'kind', 'E', ['[0'] if tagopt else [], '']
    fd = [di, 'data', 'C', ['&' + str(ti)] + (['[0'] if optional else []), '']
    fs = [fk, fd] if first else [fd, fk]
    vals = {}
    tag = sx.pick('tag', {'types': ('m', 'n', 'o'), 'absent': ('m', 'n', 'none'), 'bad': ('n', 'bad')}[scen])
    if tag == 'bad':
        vals['kind'] = sx.pick('badtag', ('zz', 77, True, [1], {'m': 1}, 'm1'))
    elif tag != 'none':
        it = [i for i in items if i[1] == tag][0]
        vals['kind'] = it[0] if idenum or wire and not vs else it[1]
    data = sx.pick('data', {'types': ('m', 'n'), 'absent': ('n', 'none'), 'bad': ('n',) if tag == 'bad' else ('bad',)}[scen])
    if data == 'bad':
        vals['data'] = badkind(sx, 'd')
    elif data != 'none':
        vals['data'] = payload(sx, 'd', 'I9' if data == 'm' else t1, wire, vr, vs)
    v = build(sx, base, op, vr, vs, items, idenum, fs, vals)
    diff(sx, schema_of(['T', base[:3] if base == 'MapID' else base, ['='] if base == 'MapID' else [], '', fs], ['E', 'Enumerated', ['='] if idenum else [], '', items],
                       ['C', 'Choice', ['='] if idenum else [], '', ch], *defs('I9', t1)), 'T', v, op, vr, vs, tag=base)


def symbolic(sx):
    """Symbolic item and alternative IDs and tag values."""
    op, vr, vs = sx.pick('op', ('encode', 'decode')), sx.bool('vr'), sx.bool('vs')
    base = sx.pick('base', ('Record', 'Map', 'Array'))
    wire = op == 'decode'
    e1, e2 = sx.int('e1', 0, 99), sx.int('e2', 0, 99)
    c1, c2 = sx.int('c1', 0, 99), sx.int('c2', 0, 99)
    sx.assume(e1 != e2)
    sx.assume(c1 != c2)
    fs = [[1, 'kind', 'E', [], ''], [2, 'data', 'C', ['&1', '[0'], '']]
    tag = sx.int('tag', 0, 99) if wire and not vs else sx.str('tag', 1, 1, 'mnop')
    vals = {'kind': tag, 'data': sx.int('d', 0, 9) if sx.bool('isint') else sx.str('d', 1, 2, 'ab')}
    v = build(sx, base, op, vr, vs, None, False, fs, vals)
    diff(sx, schema_of(['T', base, [], '', fs], ['E', 'Enumerated', [], '', [[e1, 'm', ''], [e2, 'n', '']]],
                       ['C', 'Choice', [], '', [[c1, 'm', 'I9', [], ''], [c2, 'n', 'S2', [], '']]], *defs('I9', 'S2')), 'T', v, op, vr, vs, tag=base)


def two(sx):
    """Two tagged fields with their own or a shared tag, not next to each other."""
    op, vr, vs = sx.pick('op', ('encode', 'decode')), sx.bool('vr'), sx.bool('vs')
    base = sx.pick('base', ('Record', 'Map', 'Array'))
    wire = op == 'decode'
    shared = sx.bool('shared')
    o = ['[0']
    fs = [[1, 'd1', 'C', ['&3'] + o, ''], [2, 'k2', 'E', o, ''], [3, 'k1', 'E', [], ''], [4, 'x', 'Integer', o, ''],
          [5, 'd2', 'C', ['&3' if shared else '&2'] + o, '']]
    ids = wire and not vs
    vals = {'k1': (sx.int('k1', 4, 6) if ids else sx.str('k1', 1, 1, 'mn'))}
    if sx.bool('hask2'):
        vals['k2'] = sx.int('k2', 4, 6) if ids else sx.str('k2', 1, 1, 'mn')
    if sx.bool('hasx'):
        vals['x'] = 1
    for d in ('d1', 'd2'):
        k = sx.pick(d, ('none', 'int', 'str'))
        if k != 'none':
            vals[d] = 5 if k == 'int' else 'z'
    v = build(sx, base, op, vr, vs, None, False, fs, vals)
    diff(sx, schema_of(['T', base, [], '', fs], ['E', 'Enumerated', [], '', [[4, 'm', ''], [6, 'n', '']]],
                       ['C', 'Choice', [], '', [[4, 'm', 'I9', [], ''], [6, 'n', 'S2', [], '']]], *defs('I9', 'S2')), 'T', v, op, vr, vs, tag=base)


HARNESSES = {'tagged': tagged, 'symbolic': symbolic, 'two': two}
