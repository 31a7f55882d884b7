"""C26: Markdown documentation lists every definition completely."""
import json
import jadn
from jadn.convert import markdown_dumps
from jadn.utils import jadn2typestr
from h_spec import options
from h_opts import BLANKS
import h_text

BOUNDS = ('Three types, of which one varies: types: each base type with every combination of accepted options; fields: every structured type with a field of each builtin type with any accepted options or of a defined type, every multiplicity '
          '(symbolic up to 30), key, link, dir; names: symbolic names, IDs and descriptions, tags; items: symbolic values and descriptions; quoted: patterns and descriptions with quotes, marks and braces; '
          'cells: descriptions, patterns and item values of 0..3 arbitrary characters, line breaks, vertical bars and colons included, in every kind of type; info: every entry. '
          'The tables are read back with the rules of Markdown tables: one row per line, cells separated by bars that are not escaped.')
ASSUMPTIONS = ['White space at the ends of a cell, line breaks within it and the emphasis marks (*) of the output are not significant.', 'Type names as accepted; the label of an id type may be in any column.']
PARAMS = {'quick': {'n': 2, 'm': 2}, 'thorough': {'n': 3, 'm': 3, 'full': True}}
REACH = ['types', 'quoted', 'fields', 'names', 'items', 'info', 'cells']


def lines(text):
    out = ['']
    for c in text:
        if c == '\n' or c == '\r':
            out.append('')
        else:
            out[-1] += c
    return out


def cells(row):
    """The cells of a table row."""
    out = ['']
    esc = False
    for c in row:
        if c == '|' and not esc:
            out.append('')
        else:
            out[-1] += c
        esc = not esc and c == '\\'
    return out


def plain(s):
    """Text without emphasis, escapes of * and # and |, and with line breaks and surrounding blanks removed."""
    out = ''
    for c in s:
        if c in '\\*' or c in BLANKS:
            continue
        out += c
    return out.replace('&#124;', '|')


def fieldtype(f, t):
    o = options(f[3])
    to = [x for x in f[3] if x[0] not in '[]&<KL']
    s = f[2]
    if 'tagid' in o:
        s += '(TagId[' + [g[1] for g in t[4] if g[0] == o['tagid']][0] + '])'
    s = jadn2typestr(s, to)
    if 'link' in o:
        s = f'Link({s})'
    if 'key' in o:
        s = f'Key({s})'
    lo, hi = o.get('minc', 1), o.get('maxc', 1)
    m = '1' if lo == 1 and hi == 1 else str(lo) + '..' + ('*' if hi == 0 else str(hi))
    return s, m


def judge(sx, s, tag):
    s0 = sx.deepcopy(s)
    text = markdown_dumps(s)
    sx.check(sx.same(s, s0), 'markdown_dumps modifies the schema')
    rest = text
    info = s.get('info', {})
    for k in info:
        sx.check(f'{k}: {json.dumps(info[k])}\n' in text, 'an information entry is missing', (k, text))
    at = lines(text)
    i = 0
    # tables in order
    tables = []
    while i < len(at):
        if at[i][:1] == '|' and at[i + 1][:2] == '|-':
            t = []
            j = i
            while j < len(at) and at[j][:1] == '|':
                t.append(cells(at[j]))
                j += 1
            tables.append((at[:i], t))
            at = at[j:]
            i = 0
        else:
            i += 1
    sx.check(len(tables) == len(s['types']), f'{tag}: not one table per type', (len(tables), text))
    for (head, tab), t in zip(tables, s['types']):
        for r in tab:
            sx.check(len(r) == len(tab[0]), f'{tag}: a row does not have the columns of the header', (r, text))
        sx.check(len(tab) > 1 and all(c == '' or set(c) == {'-'} for c in tab[1]), f'{tag}: no header line', text)
        body = [[plain(c) for c in r[1:-1]] for r in tab[2:]]
        defn = plain(jadn2typestr(t[1], t[2]))
        if len(t) > 4 and t[4]:
            h = plain(''.join(head))
            want = f'{t[0]}({defn})'
            sx.check(want in h, f'{tag}: the type definition is missing', (want, text))
            sx.check(plain(t[3]) in h, f'{tag}: the type description is missing', (t[3], text))
            sx.check(len(body) == len(t[4]), f'{tag}: not one row per field', text)
            for r, f in zip(body, t[4]):
                want = [str(f[0])]
                sx.check(r[0] == want[0], f'{tag}: wrong ID', (f, r))
                d = plain(f[-1])
                nm = plain(f[1])
                if t[1] == 'Enumerated':
                    if len(r) == 2:
                        sx.check(r[1] == nm + '-' + d, f'{tag}: wrong item', (f, r))
                    else:
                        sx.check(r[1:] == [nm, d], f'{tag}: wrong item', (f, r))
                    continue
                ft, m = fieldtype(f, t)
                if '<' in f[3]:
                    nm += '/'
                if len(r) == 4:
                    want = [plain(ft), plain(m), plain(f[1]) + '-' + d]
                else:
                    want = [nm, plain(ft), plain(m), d]
                sx.check(r[1:] == want, f'{tag}: wrong field', (want, r))
        else:
            sx.check(body == [[t[0], defn, plain(t[3])]], f'{tag}: wrong type row', (t, body))
    sx.reach(tag)


def cells_(sx):
    """Arbitrary text in every column."""
    b, o = sx.pick('base', h_text.KINDS + (('Enumerated', []), ('Enumerated', ['=']), ('String', [])))
    where = sx.pick('where', ('desc', 'type', 'name', 'pattern'))
    x = sx.str('x', 0, sx.p('m', 2))
    if sx.bool('special'):
        x = sx.pick('pre', ('|', 'a|', '::', 'a::', '\\', '\n')) + x
    d = x if where == 'desc' else 'about'
    td = x if where == 'type' else 'tdesc'
    nm = x + 'a' if where == 'name' and b == 'Enumerated' else 'ab'
    fs = [[1, nm, d], [2, 'q', 'z']] if b == 'Enumerated' else [[1, nm, 'String', ['%' + x] if where == 'pattern' else ['[0'], d], [2, 'q', 'A0', [], 'z']]
    if b == 'String':
        t = ['T', b, ['%' + x] if where == 'pattern' else [], td]
    else:
        t = ['T', b, o, td, fs]
    judge(sx, h_text.around(t), 'cells')


HARNESSES = {
    'cells': cells_,
    'text': lambda sx: judge(sx, h_text.types(('Binary', 'Boolean', 'Integer', 'Number', 'String', 'Enumerated'))(sx), 'types'),
    'collections': lambda sx: judge(sx, h_text.types(('Choice', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record'))(sx), 'types'),
    'quoted': lambda sx: judge(sx, h_text.quoted(sx)[0], 'quoted'),
    'builtin': lambda sx: judge(sx, h_text.fields(('Boolean', 'Integer', 'String', 'Enumerated') + (('Binary', 'Number', 'ArrayOf', 'MapOf') if sx.p('full') else ()))(sx), 'fields'),
    'defined': lambda sx: judge(sx, h_text.fields(('',))(sx), 'fields'),
    'names': lambda sx: judge(sx, h_text.names(sx), 'names'),
    'items': lambda sx: judge(sx, h_text.items(sx), 'items'),
    'info': lambda sx: judge(sx, h_text.info(sx), 'info'),
}
