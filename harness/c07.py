"""C07: untagged unions (anyOf, allOf, oneOf) against the reference semantics."""
from h_util import diff, anyval, schema_of
from h_gen import defs, leaf

BOUNDS = ('Unions of 1 to 3 alternatives: integer ranges with symbolic bounds (-5..25), Integer{0..9}, String{1..2}, String, Boolean, Number, patterns, Enumerated, ArrayOf, '
          'MapOf, Record, Choice, ArrayOf unions and unions of unions; values: symbolic integers, texts up to 3 characters, or any JSON-like '
          'kind with one element; anyOf, allOf, oneOf; encode and decode; four modes.')
ASSUMPTIONS = ['For allOf the accepted value must be the result of one of its alternatives (the statement prescribes no particular one): checked as accept/reject only when the alternatives disagree.']
PARAMS = {'quick': {'n3': False}, 'thorough': {'n3': True}}
REACH = [f'{h}-{o}-{r}' for h in ('O', 'X', 'A') for o in ('encode', 'decode') for r in ('ok', 'reject')]


def alt(*types, k='O'):
    return [[i + 1, 'xyz'[i], t, [], ''] for i, t in enumerate(types)]


def ranges(sx):
    """Integer ranges with symbolic bounds: overlapping, nested, disjoint or empty intersections."""
    how = sx.pick('combine', 'OXA')
    n = sx.pick('n', (1, 2, 3))
    types = []
    for i in range(n):
        lo = sx.int(f'lo{i}', -5, 25)
        hi = lo + 5
        if n < 3:
            hi = sx.int(f'hi{i}', -5, 25)
            sx.assume(lo <= hi)
        types.append([f'I{i}', 'Integer', ['{' + str(lo), '}' + str(hi)], ''])
    diff(sx, schema_of(['T', 'Choice', ['C' + how], '', alt(*[t[0] for t in types])], *types), 'T', sx.int('v', -9, 30),
         sx.pick('op', ('encode', 'decode')), tag=how)


def pairs(sx):
    """Alternatives of different kinds, values of any kind."""
    how = sx.pick('combine', 'OXA')
    op, vr, vs = sx.pick('op', ('encode', 'decode')), sx.bool('vr'), sx.bool('vs')
    ts = ('I9', 'S2', 'E2', 'L2', 'M2', 'R1', 'C1', 'Boolean', 'String', 'Integer')
    i = sx.pick('t0', list(range(len(ts))))
    j = sx.pick('t1', list(range(len(ts))))
    if i == j:
        sx.discard()
    v = sx.pick('v', (0, 1, 2))
    if v == 2:
        v = anyval(sx, 'v', 1, 1, ('none', 'bool', 'float', 'list', 'dict'))
    else:
        t = ts[(i, j)[v]]
        if t == 'R1':
            v = [3] if op == 'decode' and not vr else {(1 if op == 'decode' and not vs else 'p'): sx.int('p', 8, 10)}
        elif t == 'C1':
            v = {(4 if op == 'decode' and not vs else 'm'): sx.int('p', 8, 10)}
        else:
            v = leaf(sx, 'v', t, op == 'decode', vs)
    t = alt(ts[i], ts[j])
    diff(sx, schema_of(['T', 'Choice', ['C' + how], '', t], *defs(ts[i], ts[j])), 'T', v, op, vr, vs, tag=how)


def patterns(sx):
    how = sx.pick('combine', 'OXA')
    op = sx.pick('op', ('encode', 'decode'))
    ps = ('^[a-f]+$', '^.{2}$', '^a', '[0-9]', '^(ab|cd)')
    n = 3 if sx.p('n3') else 2
    types = [[f'P{i}', 'String', ['%' + sx.pick(f'p{i}', ps)], ''] for i in range(n)]
    diff(sx, schema_of(['T', 'Choice', ['C' + how], '', alt(*[t[0] for t in types])], *types), 'T', sx.str('v', 0, 3, 'abcdf09x'), op, tag=how)


def nested(sx):
    """Unions of unions, lists of unions, unions in fields."""
    how, inner = sx.pick('combine', 'OXA'), sx.pick('inner', 'OXA')
    op, vr, vs = sx.pick('op', ('encode', 'decode')), sx.bool('vr'), sx.bool('vs')
    u = ['U', 'Choice', ['C' + inner], '', alt('I9', 'J')]
    j = ['J', 'Integer', ['{5', '}15'], '']
    x = sx.int('v', -3, 20) if sx.bool('isint') else sx.str('v', 0, 3)
    where = sx.pick('where', ('union', 'list', 'field', 'choice'))
    more = [u, j]
    if where == 'union':
        diff(sx, schema_of(['T', 'Choice', ['C' + how], '', alt('U', 'S2', 'K')], *more, ['K', 'Integer', ['{8'], ''], *defs('I9', 'S2')), 'T', x, op, vr, vs, tag=how)
        return
    wire = op == 'decode'
    u[2] = ['C' + how]
    if where == 'list':
        d, v = ['T', 'ArrayOf', ['*U', '}2'], ''], [x] + ([7] if sx.bool('two') else [])
    elif where == 'field':
        d = ['T', 'Record', [], '', [[1, 'a', 'U', ['[0'] if sx.bool('opt') else [], '']]]
        v = [x] if wire and not vr else {(1 if wire and not vs else 'a'): x}
    else:
        d, v = ['T', 'Choice', [], '', [[3, 'a', 'U', [], ''], [4, 'b', 'S2', [], '']]], {(3 if wire and not vs else 'a'): x}
    diff(sx, schema_of(d, *more, *defs('I9', 'S2')), 'T', v, op, vr, vs, tag=how)


HARNESSES = {'ranges': ranges, 'pairs': pairs, 'patterns': patterns, 'nested': nested}
