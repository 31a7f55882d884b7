"""C28: JAS text lists every type, field and item."""
import os
from jadn.convert import jas_dump, jas_dumps
import h_text
from h_opts import tname

BOUNDS = ('Three types, of which one varies as in the checks of JIDL (C10): every base type with every combination of accepted options and a symbolic description, every structured type with a field of each builtin type with any accepted options and of a defined '
          'type in every multiplicity (symbolic up to 30), key, link and dir, symbolic names, IDs, descriptions and tags, enumerated items with symbolic values, IDs and descriptions, and every entry of the information with symbolic text; '
          'defined types of symbolic names without their empty fifth column.')
ASSUMPTIONS = ['Texts are single lines.', 'How the options of types and of fields other than ID, tag and optional are written is left open.']
PARAMS = {'quick': {'n': 1}, 'thorough': {'n': 2, 'full': True}}
REACH = ['types', 'fields', 'names', 'items', 'info', 'file']
JAS = {'Binary': 'BINARY', 'Boolean': 'BOOLEAN', 'Integer': 'INTEGER', 'Number': 'REAL', 'String': 'STRING', 'Array': 'ARRAY', 'ArrayOf': 'ARRAY_OF', 'Choice': 'CHOICE', 'Enumerated': 'ENUMERATED', 'Map': 'MAP', 'MapOf': 'MAP_OF', 'Record': 'RECORD'}


def num(opts, c, d):
    x = [o[1:] for o in opts if o[0] == c]
    return int(x[0]) if x else d


def after(sx, text, *parts):
    """The text after these parts, which are separated by blanks; None if it does not begin with them."""
    for p in parts:
        text = text.lstrip(' ')
        if text[:len(p)] != p:
            return None
        text = text[len(p):]
    return text


def comment(d):
    return '    -- ' + d if d else ''


def judge(sx, s, text, tag):
    want = []
    for t in s['types']:
        want.append((t, None, False))
        fs = t[4] if len(t) > 4 else []
        want += [(t, f, i == len(fs) - 1) for i, f in enumerate(fs)]
    lines = text.split('\n')
    if s.get('info'):
        need = [k for k in s['info']]
        sx.check(lines[0] == '/*', f'{tag}: no information', text)
        end = lines.index('*/')
        for k in need:
            sx.check(len([l for l in lines[1:end] if l.startswith(k + ':')]) == 1, f'{tag}: an entry of the information is missing', (k, text))
        lines = lines[end + 1:]
    lines = [l for l in lines if not l == '' and not l == '}']
    sx.check(len(lines) == len(want), f'{tag}: another number of definitions', (text, s))
    for line, (t, f, last) in zip(lines, want):
        if f is None:
            r = after(sx, line, t[0], '::=', JAS[t[1]])
            sx.check(r is not None and line[:len(t[0])] == t[0], f'{tag}: wrong type', (line, t))
            sx.check((r[:3] == '.ID') == ('=' in t[2]) and (r[:1] in ('', ' ', '(') or '=' in t[2]), f'{tag}: wrong id flag', (line, t))
            sx.check(r.endswith(comment(t[3])), f'{tag}: wrong type description', (line, t))
            sx.check(t[3] or '    -- ' not in r, f'{tag}: a description from nowhere', (line, t))
        elif t[1] == 'Enumerated':
            r = after(sx, line, f[1], '(' + str(f[0]) + ')')
            sx.check(r is not None and r == ('' if last else ',') + (' ' if last and f[2] else '') + comment(f[2]), f'{tag}: wrong item', (line, f))
        else:
            parts = (f[1], '[' + str(f[0]) + ']', JAS.get(f[2], f[2])) if t[1] != 'Record' else (f[1], JAS.get(f[2], f[2]))
            r = after(sx, line, *parts)
            sx.check(r is not None, f'{tag}: wrong field', (line, f))
            tagid = [o[1:] for o in f[3] if o[0] == '&']
            more = '(Tag(' + tagid[0] + '))' if tagid else ''
            more += '.*' if r[:2] == '.*' else ''
            more += ' OPTIONAL' if num(f[3], '[', 1) == 0 else ''
            more += ('' if last else ',') + (' ' if last and f[4] else '') + comment(f[4])
            sx.check(r == more or r[:len(more) + 2] == more + ' %', f'{tag}: wrong field', (line, f, more))


def of(gen, tag):
    def h(sx):
        s = gen(sx)
        s = s[0] if isinstance(s, tuple) else s
        if 'description' in s.get('info', ()):
            s['info']['description'] = sx.pick('about', ('about', 'a b ' * 30 + 'c: d'))      # texts are wrapped
        s0 = sx.deepcopy(s)
        text = jas_dumps(s)
        sx.check(sx.same(s, s0), 'jas_dumps modifies the schema', s)
        judge(sx, s, text, tag)
        sx.reach(tag)
    return h


def short(sx):
    """Definitions without columns, names of defined types, file."""
    n = tname(sx, 'n', False)
    sx.assume(n != 'A0' and n != 'Z9')
    s = {'info': {'package': 'http://a'}, **h_text.around(['T', sx.pick('b', ('Record', 'Choice')), [], 'd', [[1, 'f', n, sx.pick('o', ([], ['[0'])), ''], [2, 'g', n, [], '']]])}
    s['types'].insert(0, [n, 'String', [], sx.pick('d', ('', 'x'))])
    if sx.bool('file'):
        fn = os.path.join(sx.dir({}), 'j')
        jas_dump(s, fn)
        with open(fn) as f:
            text = f.read()
        sx.reach('file')
    else:
        text = jas_dumps(s)
    judge(sx, s, text, 'short')


B = sorted(JAS)
HARNESSES = {'types': of(h_text.types(B[:6]), 'types'), 'types2': of(h_text.types(B[6:]), 'types'), 'fields': of(h_text.fields(('', 'Integer', 'String', 'ArrayOf', 'Enumerated')), 'fields'), 'names': of(h_text.names, 'names'), 'items': of(h_text.items, 'items'),
             'info': of(h_text.info, 'info'), 'short': short}
