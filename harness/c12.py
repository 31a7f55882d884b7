"""C12: printed type strings and field definitions read back as the same definition."""
import jadn
from jadn.utils import cleanup_tagid, fielddef2jadn, jadn2fielddef, jadn2typestr, typestr2jadn
from h_opts import DIGIT, LOWER, UPPER, line, meaning, tname, topts

BOUNDS = ('types: each of the 12 base types with every combination of the options the checker allows for it; sizes symbolic in 0..120 (Integer: -99..120), patterns symbolic texts of 0..2 (thorough: 0..3) printable characters of the '
          'whole universe, type references symbolic names of 1..2 characters, names with a meaning elsewhere (Key, Enum, ...), imported and builtin names; Number bounds a choice of spellings. fields: in each of the six kinds of '
          'structured type, a field of a builtin type with any such options or of a defined type, with any combination of key, link, dir, tag and symbolic multiplicity (0..30), symbolic name and description of up to 2 characters.')
ASSUMPTIONS = ['Patterns, descriptions and labels are printable single-line text; descriptions and labels without surrounding blanks, labels without ::.', 'A tag is given to fields of a defined type only.',
               'Options equal to their default (size minimum 0, multiplicity 1) may be left out.']
PARAMS = {'quick': {'n': 2}, 'thorough': {'n': 3, 'full': True}}
REACH = ['type', 'field', 'item', 'two']
BASES = ('Binary', 'Boolean', 'Integer', 'Number', 'String', 'Enumerated', 'Choice', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record')


def same_options(sx, tag, got, want, base):
    g, w = meaning(got, base), meaning(want, base)
    sx.check(len(g) == len(got), f'{tag}: options repeated or defaults', got)
    sx.check(sx.same(g, w), f'{tag}: the options change', (want, got))


def types(bases):
    def h(sx):
        b = sx.pick('base', bases)
        o = topts(sx, 't', b, sx.p('n', 2))
        o0 = list(o)
        s = jadn2typestr(b, o)
        r = sx.call(typestr2jadn, s)
        sx.check(r[0] == 'ok', f'{b}: the type string is not read', (s, r[1]))
        sx.check(sx.same(r[1][0], b) and r[1][2] == [], f'{b}: another type is read', (s, r[1]))
        same_options(sx, b, r[1][1], o0, b)
        sx.reach('type')
    return h


def mult(sx, p, o):
    k = sx.pick(p, ('1', 'min', 'max', 'both'))
    a = sx.int(p + '.a', 0, 30) if k in ('min', 'both') else 1
    b = sx.int(p + '.b', 0, 30) if k in ('max', 'both') else 1
    sx.assume(sx.Or(b == 0, a <= b))
    if k in ('min', 'both'):
        o.append('[' + str(a))
    if k in ('max', 'both'):
        o.append(']' + str(b))
    return sx.Not(sx.eq(b, 1))


KINDS = (('Record', []), ('Map', []), ('Map', ['=']), ('Choice', []), ('Choice', ['=']), ('Choice', ['CO']), ('Array', []))


def read(sx, tag, fields, tdef):
    strs = [jadn2fielddef(f, tdef) for f in tdef[4]]
    return strs, [fielddef2jadn(f[0], *s) for f, s in zip(tdef[4], strs)]


def compare(sx, tdef, orig):
    strs = [jadn2fielddef(f, tdef) for f in tdef[4]]
    got = []
    for f, s in zip(orig[4], strs):
        r = sx.call(fielddef2jadn, f[0], *s)
        sx.check(r[0] == 'ok', 'the field definition is not read', (s, r[1]))
        got.append(r[1])
    r = sx.call(cleanup_tagid, got)
    sx.check(r[0] == 'ok', 'tags are not resolved', (strs, r[1]))
    for f, g in zip(orig[4], got):
        sx.check(len(g) == 5 and sx.same([g[0], g[1], g[2], g[4]], [f[0], f[1], f[2], f[4]]), 'another field is read', (strs, g))
        same_options(sx, 'field', g[3], f[3], f[2])


def fields(fts):
    def h(sx):
        ft = sx.pick('ft', fts)
        kinds = KINDS if not ft or sx.p('full') else KINDS[::3]
        base, bo = sx.pick('base', kinds)
        o = []
        if ft:
            o = topts(sx, 't', ft, 1, True)
        if not ft or sx.p('full'):
            many = mult(sx, 'm', o)
        else:
            many = sx.pick('m', ([], ['[0'], [']0'], ['[2', ']3']))
            o += many
        if not ft:
            ft = tname(sx, 'ftn', False)
            if many and sx.bool('uniq'):
                o.append('q')
            if base != 'Array' and sx.bool('dir'):
                o.append('<')
        k = sx.pick('kl', ('', 'K', 'L', 'KL') if not ft or sx.p('full') else ('', 'KL'))
        o += list(k)
        t = [['T', base, bo, '', [[1, 'fld', ft, o, 'about']]]]
        compare(sx, sx.deepcopy(t)[0], t[0])
        sx.reach('field')
    return h


def names(sx):
    """Symbolic names and descriptions; tags."""
    base, bo = sx.pick('base', KINDS)
    d = line(sx, 'd', sx.p('n', 2))
    nm = sx.str('n1', 1, 1, LOWER + '$') + sx.str('n2', 0, 1, LOWER + UPPER + DIGIT + '_$')
    i = sx.int('id', 0, 20)
    o = sx.pick('opts', ([], ['[0'], [']0'], ['<'], ['K'], ['L', '[0', ']9']))
    fs = [[i, nm, 'Integer', [], d], [i + 1, 'zz9', tname(sx, 'ft', False), list(o), d]]
    if sx.bool('tag'):
        fs[1][3].append('&' + str(i))
    t = ['T', base, bo, '', fs]
    compare(sx, sx.deepcopy(t), t)
    sx.reach('two')


def items(sx):
    d = line(sx, 'd', 2)
    v = line(sx, 'v', sx.p('n', 2), 1)
    idd = sx.bool('id')
    if idd:
        sx.assume('::' not in v and v[-1] != ':')
    tdef = ['T', 'Enumerated', ['='] if idd else [], '', [[sx.int('i', 0, 99), v, d]]]
    f = tdef[4][0]
    s = jadn2fielddef(f, tdef)
    r = sx.call(fielddef2jadn, f[0], *s)
    sx.check(r[0] == 'ok' and sx.same(r[1], f), 'another item is read', (s, r[1]))
    sx.reach('item')


HARNESSES = {'types1': types(BASES[:8]), 'ArrayOf': types(('ArrayOf',)), 'MapOf': types(('MapOf',)), 'Map': types(('Map', 'Record')), 'fields': fields(('', 'Boolean', 'Integer', 'Number')),
             'fields2': fields(('Binary', 'String')), 'fields3': fields(('Enumerated', 'ArrayOf')), 'names': names, 'items': items}
