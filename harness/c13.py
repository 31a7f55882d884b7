"""C13: canonical form is idempotent, independent of option order, and changes only order, defaults and spelling."""
import jadn

BOUNDS = ('One type of each of the 12 base types and, for the five compound ones, up to two fields of a builtin or a defined type. Options: every subset of up to 3 (thorough: 4) of the options allowed for the type and 2 (thorough: 3) of those allowed for the field, in every '
          'order; option values are symbolic: integers in -3..20 in canonical or zero-padded/signed spelling, type names, formats, patterns and defaults of one arbitrary character; Number bounds are a choice of 14 spellings '
          '(integral, fractional, exponents, signed zero).')
ASSUMPTIONS = ['Rows have all five columns, as in checked schemas.']
PARAMS = {'quick': {'max': 3}, 'thorough': {'max': 4}}
REACH = ['type', 'field', 'default', 'respelled', 'kept']

NUMS = ('2', '2.0', '2.000', '-1', '0', '-0.0', '.5', '5.', '1e5', '1E5', '1e-3', '1.5e300', '+3', '0.1')
TYPE = {'=': 'flag', '*': 'name', '+': 'name', '#': 'name', '>': 'name', '/': 'text', '%': 'text', 'y': 'float', 'z': 'float', '{': 'int', '}': 'int', 'q': 'flag', 's': 'flag', 'b': 'flag', 'o': 'flag', 'C': 'combine', 'X': 'flag', '!': 'text'}
FIELD = {'[': 'int', ']': 'int', '&': 'nat', '<': 'flag', 'K': 'flag', 'L': 'flag'}
ALLOWED = {'Binary': '/{}', 'Boolean': '', 'Integer': '/{}', 'Number': '/yz', 'String': '/%{}', 'Enumerated': '=#>X', 'Choice': '=XC', 'Array': 'X/{}', 'ArrayOf': '*{}qsb', 'Map': '=X{}o', 'MapOf': '+*{}o', 'Record': 'X{}o'}


def spell(sx, p, v):
    """A spelling of integer v."""
    k = sx.pick(p + '.sp', ('', '0', '+'))
    if k == '':
        return str(v)
    sx.assume(v >= 0)
    return k + str(v)


def value(sx, o, p):
    k = TYPE.get(o) or FIELD[o]
    if k == 'flag':
        return o
    if k == 'name':
        return o + sx.pick(p + '.n', ('String', 'D'))
    if k == 'text':
        return o + sx.str(p + '.t', 1)
    if k == 'float':
        return o + sx.pick(p + '.f', NUMS)
    if k == 'combine':
        return o + sx.pick(p + '.c', ('O', 'A', 'X'))
    return o + spell(sx, p, sx.int(p + '.i', -3 if k == 'int' else 1, 20))


def options(sx, allowed, p, most):
    """A set of options and an order of it."""
    opts = []
    for i, o in enumerate(allowed):
        if len(opts) < most and sx.bool(f'{p}.has{o}'):
            opts.append(value(sx, o, f'{p}.{i}'))
    perm = list(opts)
    for i in range(len(perm) - 1):
        j = sx.pick(f'{p}.perm{i}', list(range(len(perm) - i)))
        perm.insert(i, perm.pop(i + j))
    return opts, perm


def meaning(sx, opts):
    out = []
    for o in opts:
        k = TYPE.get(o[0]) or FIELD[o[0]]
        out.append((o[0], int(o[1:]) if k in ('int', 'nat') else float(o[1:]) if k == 'float' else o[1:]))
    return out


def explained(sx, tag, got, opts, base):
    """The options got are opts with defaults removed and numbers respelled."""
    g, w = meaning(sx, got), meaning(sx, opts)
    sx.check(len({k for k, _ in g}) == len(g), f'{tag}: an option is repeated', got)
    have = dict(g)
    for k, v in w:
        if k in have:
            sx.check(sx.same(have[k], v), f'{tag}: an option is changed', (opts, got))
            sx.reach('kept')
        else:
            default = k == '{' and base != 'Integer' and v == 0 or k in '[]' and v == 1
            sx.check(default, f'{tag}: an option is removed', (opts, got))
            sx.reach('default')
    sx.check({k for k, _ in g} <= {k for k, _ in w}, f'{tag}: an option is added', (opts, got))


def judge(sx, build, opts, perm, base, at):
    """build(options) -> schema; at(schema) -> the option list."""
    a = build(list(opts))
    ca = jadn.canonicalize(a)
    sx.check(sx.same(a, build(list(opts))), 'the original schema is modified', a)
    cb = jadn.canonicalize(build(list(perm)))
    sx.check(sx.same(cb, ca), 'the order of options matters', (opts, perm, at(ca), at(cb)))
    got = at(ca)
    sx.check(sx.same(jadn.canonicalize(ca), ca), 'not idempotent', got)
    explained(sx, base, got, opts, base)
    sx.check(sx.same(ca, build(got)), 'something else than options is changed', ca)
    if not got == opts:
        sx.reach('respelled')


def types(sx):
    b = sx.pick('base', sorted(ALLOWED))
    opts, perm = options(sx, ALLOWED[b] + '!', 't', sx.p('max', 3))
    ch = sx.str('text', 1)
    fields = [] if b not in ('Enumerated', 'Record') else [[2, ch, ch]] if b == 'Enumerated' else [[1, ch, 'String', [], ch]]
    judge(sx, lambda o: {'info': {'package': ch, 'exports': ['T', 'A']}, 'types': [['T', b, o, ch, fields], ['A', 'String', [], ch, []]]}, opts, perm, b, lambda s: s['types'][0][2])
    sx.reach('type')


def field(sx):
    b = sx.pick('base', ('Record', 'Choice', 'Map', 'Array'))
    ft = sx.pick('ft', ('Integer', 'String', 'Number', 'ArrayOf', 'D'))
    opts, perm = options(sx, '[]' + (ALLOWED.get(ft, '') if b == 'Record' else '') + ('q&<KL' if b == 'Map' else ''), 'f', sx.p('max', 3) - 1)
    other = sx.pick('other', ('none', 'same', 'enum')) if b == 'Choice' else 'none'
    def build(o):
        fs = [[1, 'f', ft, o, 'x']] + ([[2, 'g', ft, list(o), 'y']] if other == 'same' else [])
        return {'types': [['T', b, [], 'd', fs]] + ([['E', 'Enumerated', ['='], '', [[5, 'b', ''], [1, 'a', 'z']]]] if other == 'enum' else [])}
    if other == 'same':
        a = build(list(opts))
        ca = jadn.canonicalize(a)
        sx.check(sx.same(ca['types'][0][4][0][3], ca['types'][0][4][1][3]), 'two equal fields differ')
        return
    judge(sx, build, opts, perm, ft, lambda s: s['types'][0][4][0][3])
    sx.reach('field')


HARNESSES = {'types': types, 'field': field}
