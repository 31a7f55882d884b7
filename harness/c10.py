"""C10: JIDL text reads back as the same schema."""
import jadn
from jadn.convert import jidl_dumps, jidl_loads
import h_text

BOUNDS = ('Three types, of which one varies: types: each base type with every combination of accepted options (sizes symbolic, patterns of 0..2 (thorough: 0..3) arbitrary printable characters, Number bounds a choice) and a symbolic description of up to '
          'two characters; quoted: patterns and descriptions with comment marks, quotes, braces, brackets and keywords in each position; fields: every structured type with a field of each builtin type with any accepted options or of a '
          'defined type (symbolic and special names), every multiplicity (symbolic up to 30), key, link, dir; names: symbolic names, IDs, descriptions and tags, first and last type included; items: symbolic values of up to three characters, IDs '
          'and descriptions; info: every entry, symbolic texts. The columns are the default ones.')
ASSUMPTIONS = ['Texts are single-line printable text; descriptions and values without surrounding blanks; values without a comment mark; labels of ID types without ::; patterns without a quote followed by }, and not ending in a backslash.']
PARAMS = {'quick': {'n': 2}, 'thorough': {'n': 3, 'full': True}}
REACH = ['types', 'quoted', 'fields', 'names', 'items', 'info']


def trip(sx, s, tag):
    s0 = sx.deepcopy(s)
    text = jidl_dumps(s)
    sx.check(sx.same(s, s0), 'jidl_dumps modifies the schema', s)
    r = sx.call(jidl_loads, text)
    if r[0] == 'err' and sx.call(jadn.check, sx.deepcopy(s))[0] == 'err':
        sx.discard()
    sx.check(r[0] == 'ok', f'{tag}: the text is not read', (text, r[1]))
    a, b = jadn.canonicalize(s0), jadn.canonicalize(r[1])
    if sx.same(b, a):
        sx.reach(tag)
        return
    if sx.call(jadn.check, sx.deepcopy(s))[0] == 'err':
        sx.discard()
    sx.check(False, f'{tag}: another schema is read', (text, b))


def jidl_pattern(sx, p):
    sx.assume('"}' not in p)
    sx.assume(not p or p[-1] != '\\')


def pats(s):
    for t in s['types']:
        for o in t[2]:
            if o[0] == '%':
                yield o[1:]
        for f in t[4]:
            if len(f) == 5:
                for o in f[3]:
                    if o[0] == '%':
                        yield o[1:]


def of(gen, tag, stub=False):
    def h(sx):
        if stub:        # the definitions read are compared below; what check accepts is the subject of C18
            sx.stub('jadn.convert.jidl', 'check', lambda x: x)
        s = gen(sx)
        s = s[0] if isinstance(s, tuple) else s
        for p in pats(s):
            jidl_pattern(sx, p)
        trip(sx, s, tag)
    return h


B = ('Binary', 'Boolean', 'Integer', 'Number', 'String', 'Enumerated', 'Choice', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record')
HARNESSES = {'types': of(h_text.types(B[:6]), 'types', True), 'types2': of(h_text.types(B[6:]), 'types', True), 'quoted': of(h_text.quoted, 'quoted', True),
             'fields': of(h_text.fields(('', 'Boolean', 'Integer', 'Number')), 'fields', True), 'fields2': of(h_text.fields(('Binary', 'String', 'Enumerated', 'ArrayOf')), 'fields', True),
             'names': of(h_text.names, 'names'), 'items': of(h_text.items, 'items'), 'info': of(h_text.info, 'info')}
