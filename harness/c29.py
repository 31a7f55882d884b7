"""C29: definition objects behave like the lists they stand for."""
import jadn
from jadn.convert import diagram_dumps, html_dumps, jidl_dumps, markdown_dumps
from jadn.definitions import EnumFieldDefinition, GenFieldDefinition, TypeDefinition
from jadn.transform import unfold_extensions
from jadn.translate import json_schema_dumps
from jadn.utils import list_type_schema, object_type_schema

BOUNDS = ('columns: objects of the three kinds built from 0..all columns, the values symbolic (numbers, texts up to 2 characters, lists), read back by every index of -7..7 (a symbolic number), by every slice with bounds in -6, -4, -2..2, 4..6 or absent and '
          'steps -2..2 or absent, by name, by iteration and as attributes; comparison of two objects that differ in at most one column. '
          'changes: sequences of 2 (thorough: 3) assignments, deletions (by index of either sign, by name) and in-place additions to lists on one of two objects, compared with a list after each (texts of one character there and for slices). '
          'schema: schemas with every kind of definition, symbolic numbers, texts, options and descriptions, types with and without field columns, as objects and back, then changed; the text conversions, unfolding and dependency analysis of the object form.')
ASSUMPTIONS = ['Deleting a column means restoring its default value.']
PARAMS = {'quick': {'steps': 2}, 'thorough': {'steps': 3}}
REACH = ['read', 'slice', 'out of range', 'equal', 'differ', 'set', 'del', 'grow', 'schema', 'converted', 'unfolded']

KINDS = {
    'item': (EnumFieldDefinition, ('ItemID', 'ItemValue', 'ItemDesc'), (0, '', '')),
    'field': (GenFieldDefinition, ('FieldID', 'FieldName', 'FieldType', 'FieldOptions', 'FieldDesc'), (0, 'FieldName', 'FieldType', [], '')),
    'type': (TypeDefinition, ('TypeName', 'BaseType', 'TypeOptions', 'TypeDesc', 'Fields'), ('DefinitionName', 'DefinitionType', [], '', [])),
}


def value(sx, name, default, n=None):
    if n is not None:
        return [sx.str(name, n, n)] if isinstance(default, list) else sx.int(name, -2, 300) if isinstance(default, int) else sx.str(name, n, n)
    if isinstance(default, list):
        return [sx.str(f'{name}.{i}', 0, 1) for i in range(sx.pick(name + '.n', (0, 1)))]
    return sx.int(name, -2, 300) if isinstance(default, int) else sx.str(name, 0, 2)


def make(sx, name, kind, given=None, n=None):
    cls, names, defaults = KINDS[kind]
    k = len(names) if given is None else given
    vals = [value(sx, f'{name}.{c}', d, n) for c, d in zip(names[:k], defaults)]
    o = cls(*vals)
    return o, [list(v) if isinstance(v, list) else v for v in vals] + [list(d) if isinstance(d, list) else d for d in defaults[k:]]


def agree(sx, o, want, names):
    got = list(o)
    sx.check(sx.same(got, want), 'the columns differ', (got, want))
    for n, c in enumerate(names):
        sx.check(sx.same(getattr(o, c), want[n]), 'an attribute differs', c)


def columns(sx):
    kind = sx.pick('kind', tuple(KINDS))
    _, names, _ = KINDS[kind]
    o, want = make(sx, 'c', kind, sx.pick('given', tuple(range(len(names) + 1))))
    sx.check(len(o) == len(want), 'another length', len(o))
    how = sx.pick('how', ('all', 'index', 'name'))
    if how == 'all':
        agree(sx, o, want, names)
    elif how == 'name':
        n = sx.pick('n', tuple(range(len(names))))
        sx.check(sx.same(o[names[n]], want[n]), 'another value by name', names[n])
    else:
        i = sx.int('i', -7, 7)
        r = sx.call(lambda: o[i])
        w = sx.call(lambda: want[i])
        sx.check(r[0] == w[0], 'index: out of range in one form only', (i, r, w))
        if r[0] == 'ok':
            sx.check(sx.same(r[1], w[1]), 'another value by index', (i, r[1]))
        else:
            sx.check(isinstance(r[2], IndexError), 'index: not an IndexError', r[1])
            sx.reach('out of range')
    sx.reach('read')


def slices(sx):
    kind = sx.pick('kind', tuple(KINDS))
    o, want = make(sx, 'c', kind, None, 1)
    b = (None, -6, -4, -2, -1, 0, 1, 2, 4, 5, 6)
    s = slice(sx.pick('lo', b), sx.pick('hi', b), sx.pick('step', (None, 1, 2, -1, -2)))
    sx.check(sx.same(o[s], want[s]), 'another slice', s)
    sx.reach('slice')


def compare(sx):
    kind = sx.pick('kind', tuple(KINDS))
    _, names, defaults = KINDS[kind]
    a, wa = make(sx, 'a', kind)
    n = sx.pick('n', tuple(range(len(names))))
    wb = [list(v) if isinstance(v, list) else v for v in wa]
    wb[n] = value(sx, 'b', defaults[n])
    b = KINDS[kind][0](*[list(v) if isinstance(v, list) else v for v in wb])
    if sx.same(wa, wb):
        sx.check(a == b, 'equal definitions compare different', wa)
        sx.reach('equal')
    else:
        sx.check(a != b, 'different definitions compare equal', (wa, wb))
        sx.reach('differ')


def changes(sx):
    """Assignments, deletions and additions change one column of one object."""
    kind = sx.pick('kind', tuple(KINDS))
    cls, names, defaults = KINDS[kind]
    given = sx.pick('given', (0, len(names)))
    a, wa = make(sx, 'a', kind, given, 1)
    b, wb = cls(), [list(d) if isinstance(d, list) else d for d in defaults]
    for k in range(sx.p('steps', 2)):
        op = sx.pick(f'op{k}', ('set', 'del', 'grow'))
        n = sx.pick(f'n{k}', tuple(range(len(names))))
        key = {'index': n, 'negative': n - len(names), 'name': names[n]}[sx.pick(f'key{k}', ('index', 'negative', 'name'))]
        if op == 'set':
            v = value(sx, f'v{k}', defaults[n], 1)
            r = sx.call(a.__setitem__, key, v)
            wa[n] = list(v) if isinstance(v, list) else v
        elif op == 'del':
            r = sx.call(a.__delitem__, key)
            wa[n] = list(defaults[n]) if isinstance(defaults[n], list) else defaults[n]
        else:
            if not isinstance(defaults[n], list):
                sx.discard()
            r = sx.call(a[key].append, 'x')
            wa[n].append('x')
        sx.check(r[0] == 'ok', f'{op}: fails', r[1])
        agree(sx, a, wa, names)
        agree(sx, b, wb, names)
        sx.reach(op)
    agree(sx, cls(), [list(d) if isinstance(d, list) else d for d in defaults], names)


def make_schema(sx, d, e):
    n = sx.int('n', 0, 12)
    items = [[n, 'i', e], [n + 1, 'j', d]][:sx.pick('items', (0, 1, 2))]
    fields = [[1, 'a', 'String', ['{' + str(n)], d], [2, 'b', 'E', ['[0', ']3'], e]][:sx.pick('fields', (0, 1, 2))]
    types = [['E', 'Enumerated', [], e, items], ['R', sx.pick('base', ('Record', 'Choice')), [], d, fields],
             ['L', 'ArrayOf', ['*R', '{' + str(n)], ''], ['I', 'Integer', ['{' + str(n)], e]]
    if sx.bool('five'):
        types[2].append([])
        types[3].append([])
    return {'info': {'package': 'http://a', 'exports': ['R']}, 'types': types}


def schema(sx):
    s = make_schema(sx, sx.str('d', 0, 1), sx.str('e', 0, 1))
    s0 = sx.deepcopy(s)
    full = [t if len(t) == 5 else [*t, []] for t in s0['types']]
    o = object_type_schema(s)
    sx.check(sx.same(s, s0), 'object_type_schema modifies the schema', s)
    sx.check(len(o['types']) == len(s0['types']) and sx.same(o['info'], s0['info']), 'object_type_schema loses types', o)
    for t, w in zip(o['types'], full):
        sx.check(isinstance(t, TypeDefinition), 'a type is not an object')
        sx.check(sx.same([*t[:-1], [list(f) for f in t.Fields]], w), 'another type', (t, w))
        for f in t.Fields:
            sx.check(isinstance(f, EnumFieldDefinition if t.BaseType == 'Enumerated' else GenFieldDefinition), 'a field of another kind')
    back = list_type_schema(o)
    sx.check(sx.same(back, {'info': s0['info'], 'types': full}), 'another schema after conversion back', back)
    # the forms are independent of each other
    back['types'][1][4].append('x')
    back['types'][1][2].append('x')
    back['info']['exports'].append('x')
    o['types'][0].TypeOptions.append('y')
    o['info']['y'] = 1
    for f in o['types'][1].Fields:
        f.FieldOptions.append('y')
        f.FieldDesc = 'y'
    sx.check(sx.same(s, s0), 'the schema shares parts with its object form', s)
    for t in o['types'][1:]:
        sx.check('x' not in t.TypeOptions and 'y' not in t.TypeOptions, 'parts are shared', t)
    sx.check('x' not in o['info']['exports'], 'info is shared')
    sx.reach('schema')


def convert(sx):
    """Conversions of the object form give what those of the lists give."""
    s = make_schema(sx, sx.str('d', 0, 1, 'a"|<&*/'), 'e')
    s['types'] = [t if len(t) == 5 else [*t, []] for t in s['types']]
    o = object_type_schema(s)
    f = {'jidl': jidl_dumps, 'html': html_dumps, 'md': markdown_dumps, 'diagram': diagram_dumps, 'js': json_schema_dumps,
         'unfold': unfold_extensions, 'analyze': jadn.analyze, 'deps': jadn.build_deps}[sx.pick('f', ('jidl', 'html', 'md', 'diagram', 'js', 'unfold', 'analyze', 'deps'))]
    a, b = sx.call(f, s), sx.call(f, o)
    sx.check(a[0] == b[0], 'the object form is treated differently', (a[1], b[1]))
    if a[0] == 'ok':
        sx.check(sx.same(a[1], b[1]), 'the object form is converted differently', (a[1], b[1]))
        sx.reach('unfolded' if f is unfold_extensions else 'converted')
    sx.check(sx.same(list_type_schema(o), s), 'the conversion modifies the object form')


HARNESSES = {'columns': columns, 'slices': slices, 'compare': compare, 'changes': changes, 'schema': schema, 'convert': convert}
