"""C22: diagrams have one node per displayed type and one edge per reference between displayed types."""
import os
from jadn.convert import diagram_dump, diagram_dumps
from jadn.utils import jadn2typestr
from h_spec import options
from h_opts import plain_pattern, tname, visible
import h_text

BOUNDS = ('Both formats, three levels of detail and every combination of the attributes, links, link_horizontal, edge_label and edge_mult flags over: edges: structured types with up to two fields of defined, builtin, list and map types (inline and '
          'separate), symbolic multiplicity up to 30, link and key; names: a symbolic field and type name; labels: patterns, descriptions and item values of up to 2 (thorough: 3) arbitrary printable characters; '
          'fields: every structured type with a field of each builtin type with any accepted options; info: entries with arbitrary characters, line breaks included. The text is parsed back (DOT with HTML-like labels; PlantUML classes and relations).')
ASSUMPTIONS = ['Texts other than package information are printable and on one line.', 'The maximum number of displayed enumeration items (enums) is left open.', 'The escapes of HTML (DOT) and <U+xxxx> (PlantUML) are understood by the renderers.']
PARAMS = {'quick': {'n': 2}, 'thorough': {'n': 3, 'full': True}}
REACH = [f'{f}-{d}' for f in ('plantuml', 'graphviz') for d in ('conceptual', 'logical', 'information')] + ['edges', 'names', 'labels', 'fields', 'info', 'dump', 'edge', 'dashed', 'key', 'value']

PRIMS = ('Binary', 'Boolean', 'Integer', 'Number', 'String')


class Broken(Exception):
    pass


def need(c, *why):
    if not c:
        raise Broken(*why)


def lines(text):
    out = ['']
    for c in text:
        if c == '\n' or c == '\r':
            out.append('')
        else:
            out[-1] += c
    return out


def stripped(s):
    i = 0
    while i < len(s) and s[i] == ' ':
        i += 1
    j = len(s)
    while j > i and s[j - 1] == ' ':
        j -= 1
    return s[i:j]


# ---- PlantUML: {'nodes': [(id, label, rows)], 'edges': [(from, to, name, multiplicity, dashed)]}

def plantuml(sx, text):
    at = lines(text)
    need('@startuml' in at and '@enduml' in at, 'no frame')
    a = at.index('@startuml')
    for x in at[:a]:
        need(x == '' or x[0] == "'", 'text before the start', x)
    nodes, edges = [], []
    body = at[a + 1:at.index('@enduml')]
    for x in body:
        x = stripped(x)
        if x == '' or x[0] == "'" or x[:5] == 'hide ':
            continue
        if x[:7] == 'class "':
            j = x.index('"', 7) if '"' in x[7:] else -1
            need(j > 0 and x[j:j + 5] == '" as ', 'class', x)
            nodes.append((x[j + 5:], x[7:j].replace('<U+0022>', '"'), []))
            continue
        w = x.split(' ', 3)
        if len(w) > 2 and w[1] == ':':
            hit = [n for n in nodes if n[0] == w[0]]
            need(hit, 'row of an undeclared node', x)
            r = stripped(x[len(w[0]) + 2:])
            hit[0][2].append(r.replace('{field} ', '', 1))
            continue
        # a ["1"] --> ["m"] b [: label]
        w = x.split(' ')
        i = 1
        mult = None
        if w[i] == '"1"':
            i += 1
        arrow = w[i]
        need(arrow in ('-->', '->', '..>', '.>'), 'arrow', x)
        i += 1
        if w[i][:1] == '"':
            mult = w[i]
            need(mult[-1:] == '"' and len(mult) > 2, 'multiplicity', x)
            mult = mult[1:-1]
            i += 1
        name = None
        if len(w) > i + 1:
            need(w[i + 1] == ':' and len(w) == i + 3, 'label', x)
            name = w[i + 2]
        edges.append((w[0], w[i], name, mult, arrow))
    return nodes, edges


# ---- DOT

LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'


def dot_tokens(text):
    out = []
    i = 0
    n = len(text)
    bol = True
    while i < n:
        c = text[i]
        if bol and c == '#':
            while i < n and text[i] != '\n':
                i += 1
            continue
        if c == '\n':
            bol = True
            i += 1
            continue
        if c == ' ':
            i += 1
            continue
        bol = False
        if c == '"':
            s = ''
            i += 1
            while True:
                need(i < n, 'open string')
                if text[i] == '"':
                    break
                if text[i] == '\\' and text[i + 1] == '"':
                    i += 1
                s += text[i]
                i += 1
            i += 1
            out.append(('id', s))
        elif c == '<':
            depth = 0
            j = i
            while True:
                need(i < n, 'open label')
                if text[i] == '<':
                    depth += 1
                elif text[i] == '>':
                    depth -= 1
                    if depth == 0:
                        break
                i += 1
            out.append(('html', text[j + 1:i]))
            i += 1
        elif c in LETTERS:
            s = ''
            while i < n and (text[i] in LETTERS or text[i] in '0123456789'):
                s += text[i]
                i += 1
            out.append(('key' if s in ('node', 'edge', 'graph', 'digraph', 'subgraph', 'strict') else 'id', s))
        elif c in '0123456789.':
            s = ''
            while i < n and text[i] in '0123456789.':
                s += text[i]
                i += 1
            out.append(('id', s))
        elif c == '-':
            need(text[i + 1] == '>', 'minus')
            out.append(('op', '->'))
            i += 2
        else:
            need(c in '{}[],;=', 'character', c)
            out.append(('op', c))
            i += 1
    return out


def html_rows(s):
    """The texts of an HTML-like label, one per cell."""
    rows = ['']
    stack = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            j = i
            while s[j] != '>':
                j += 1
                need(j < len(s), 'open tag')
            tag = s[i + 1:j]
            if tag[:1] == '/':
                need(stack and stack[-1] == tag[1:], 'tag', tag)
                if stack.pop() == 'td':
                    rows.append('')
            else:
                name = tag.split(' ')[0]
                need(name in ('b', 'table', 'tr', 'td', 'hr/'), 'tag', tag)
                if name[-1] != '/':
                    stack.append(name)
            i = j + 1
            continue
        need(c != '>', 'stray >')
        if c == '&':
            for e, x in (('&lt;', '<'), ('&gt;', '>'), ('&amp;', '&'), ('&quot;', '"'), ('&#x27;', "'"), ('&#39;', "'"), ('&#34;', '"')):
                if s[i:i + len(e)] == e:
                    rows[-1] += x
                    i += len(e)
                    break
            else:
                need(False, 'stray &')
            continue
        rows[-1] += ' ' if c == '\n' else c
        i += 1
    need(not stack, 'open tags')
    rows = [stripped(r) for r in rows]
    return rows if len(rows) == 1 else rows[:-1]


def graphviz(sx, text):
    t = dot_tokens(text)
    need(t[:3] == [('key', 'digraph'), ('id', 'G'), ('op', '{')] and t[-1] == ('op', '}'), 'no frame', t[:3])
    t = t[3:-1]
    nodes, edges = [], []
    i = 0
    while i < len(t):
        if t[i] == ('op', ';'):
            i += 1
            continue
        kind, name = t[i]
        need(kind in ('id', 'key'), 'statement', t[i])
        i += 1
        to = None
        if i + 1 < len(t) and t[i] == ('op', '='):     # graph attribute
            i += 2
            continue
        if i + 1 < len(t) and t[i] == ('op', '->'):
            to = t[i + 1][1]
            need(t[i + 1][0] == 'id', 'edge', t[i + 1])
            i += 2
        attr = {}
        if i < len(t) and t[i] == ('op', '['):
            i += 1
            while t[i] != ('op', ']'):
                need(t[i][0] == 'id' and t[i + 1] == ('op', '=') and t[i + 2][0] in ('id', 'html'), 'attribute', t[i:i + 3])
                attr[t[i][1]] = t[i + 2]
                i += 3
                if t[i] == ('op', ','):
                    i += 1
            i += 1
        if kind == 'key':
            continue
        if to is None:
            need('label' in attr and attr['label'][0] == 'html', 'node label', name)
            rows = html_rows(attr['label'][1])
            nodes.append((name, rows[0], rows[1:]))
        else:
            label = attr.get('label')
            mult = attr.get('headlabel')
            edges.append((name, to, label and label[1], mult and mult[1], '.>' if attr.get('style') == ('id', 'dashed') else '-->'))
    return nodes, edges


# ---- what the diagram has to show

def mult(o):
    lo, hi = o.get('minc', 1), o.get('maxc', 1)
    return '1' if lo == 1 and hi == 1 else str(lo) + '..' + ('*' if hi == 0 else str(hi))


def expected(sx, s, style):
    shown = [t for t in s['types'] if style['attributes'] or t[1] not in PRIMS + ('Enumerated',)]
    names = [t[0] for t in shown]
    nodes, edges = [], []
    plant = style['format'] == 'plantuml'
    info = style['detail'] == 'information'
    for t in shown:
        idt = t[1] == 'Array' or any(o[0] in '=C' for o in t[2])
        rows = []
        label = t[0] + (' : ' + jadn2typestr(t[1], t[2]) if info else '')

        def edge(to, name, m='1', link=False):
            if to in names and (style['links'] or not link):
                arrow = '-->' if not link else '..>' if plant and not style['link_horizontal'] else '.>'
                edges.append((t[0], to, name if style['edge_label'] else None, m if style['edge_mult'] else None, arrow))
                sx.reach('dashed' if link else name if name in ('key', 'value') else 'edge')

        if t[1] in ('MapOf', 'ArrayOf'):
            o = options(t[2])
            for k in ('ktype', 'vtype'):
                if k in o:
                    edge(o[k], 'key' if k == 'ktype' else 'value')
        for f in t[4]:
            if t[1] == 'Enumerated':
                rows.append(f[1] if not info else str(f[0]) + ' ' + ('' if idt else f[1]))
                continue
            o = options(f[3])
            to = [x for x in f[3] if x[0] not in '[]&<KL']
            m = mult(o)
            ft = f[2] + (('(TagId[' + [g[1] for g in t[4] if g[0] == o['tagid']][0] + '])') if 'tagid' in o else '')
            ft = jadn2typestr(ft, to)
            ft = f'Link({ft})' if 'link' in o else ft
            ft = f'Key({ft})' if 'key' in o else ft
            rows.append(f[1] if not info else str(f[0]) + ' ' + ('' if idt else f[1]) + ('/' if 'dir' in o else '') + ' : ' + ft + ('' if m == '1' else f' [{m}]'))
            for r in ([o['ktype'], o['vtype']] if f[2] == 'MapOf' else [o['vtype']] if f[2] == 'ArrayOf' else [f[2]]):
                edge(r, f[1], m, 'link' in o)
        nodes.append((t[0], label, [] if style['detail'] == 'conceptual' else rows))
    return nodes, edges


def judge(sx, s, tag, style, given=None, text=None):
    sx.reach(style['format'] + '-' + style['detail'])
    given = style if given is None else given
    s0, st0 = sx.deepcopy(s), dict(given)
    if text is None:
        text = diagram_dumps(s, given)
        sx.check(sx.same(s, s0) and given == st0, f'{tag}: diagram_dumps modifies its arguments')
    nodes, edges = expected(sx, s, style)
    try:
        got, arcs = (plantuml if style['format'] == 'plantuml' else graphviz)(sx, text)
        ids = [g[0] for g in got]
        for i in range(len(ids)):
            need(ids[i] not in ids[:i], 'two nodes with one ID')
        for a, b, *_ in arcs:
            need(a in ids and b in ids, 'edge of an undeclared node', (a, b))
    except Broken as e:
        sx.check(False, f'{tag}: {style["format"]}: {e.args}', text)
    sx.check(len(got) == len(nodes), f'{tag}: not one node per type', (text, nodes))
    byid = {}
    for (i, label, rows), (name, wlabel, wrows) in zip(got, nodes):
        byid[i] = name
        sx.check(stripped(label) == stripped(wlabel), f'{tag}: wrong node', (label, wlabel))
        sx.check(len(rows) == len(wrows), f'{tag}: not one row per field', (rows, wrows, text))
        for r, w in zip(rows, wrows):
            sx.check(stripped(r) == stripped(w), f'{tag}: wrong row', (r, w))
    arcs = [(byid[a], byid[b], n, m, k) for a, b, n, m, k in arcs]
    edges = [(a, b, n if style['format'] == 'plantuml' or n is None else n.replace('-', '_'), m, k) for a, b, n, m, k in edges]
    sx.check(len(arcs) == len(edges), f'{tag}: another number of edges', (arcs, edges))
    for e in edges:
        hit = [i for i in range(len(arcs)) if arcs[i] == e]
        sx.check(hit, f'{tag}: an edge is missing', (e, arcs))
        del arcs[hit[0]]
    sx.reach(tag)


FLAGS = ('attributes', 'links', 'link_horizontal', 'edge_label', 'edge_mult')


def style(sx, details=('conceptual', 'logical', 'information'), vary=(), **kw):
    s = {'format': sx.pick('format', ('plantuml', 'graphviz')), 'detail': sx.pick('detail', details)}
    for f in FLAGS:
        s[f] = kw[f] if f in kw else sx.bool(f) if f in vary or sx.p('full') else f != 'attributes'
    return s


def edges(sx):
    """References of every kind."""
    base, bo = sx.pick('base', (('Record', []), ('Map', ['=']), ('Choice', []), ('Array', []), ('ArrayOf', []), ('MapOf', [])))
    tgt = [['Rec', 'Record', [], '', [[1, 'back', 'T', ['[0'], '']]], ['Prim', 'Integer', [], '', []], ['Enu', 'Enumerated', [], '', [[1, 'x', '']]], ['Lst', 'ArrayOf', ['*Rec'], '', []]]
    names = ('Rec', 'Prim', 'Enu', 'Lst', 'T', 'Missing', 'ns:Rec', 'Integer')
    st = style(sx, ('conceptual', 'information') if sx.p('full') else ('conceptual',), vary=('attributes',))
    if base in ('ArrayOf', 'MapOf'):
        o = ['*' + sx.pick('v', names + ('#Rec',))]
        if base == 'MapOf':
            o.append('+' + sx.pick('k', names))
        if sx.bool('rev'):
            o = o[::-1]
        t = ['T', base, o, '', []]
    else:
        fs = []
        for i in range(sx.pick('n', (1, 2))):
            k = sx.pick(f'kind{i}', ('plain', 'list', 'map')) if i == 0 else 'plain'
            r = sx.pick(f'r{i}', names[:7] if i == 0 else ('Rec', 'Prim'))
            o = []
            if k == 'list':
                o, r = ['*' + r], 'ArrayOf'
            elif k == 'map':
                o, r = ['+' + sx.pick('rk', ('Rec', 'Enu', 'String')), '*' + r], 'MapOf'
            if k == 'plain' and i == 0:
                o += list(sx.pick('kl', ('', 'L', 'K', 'KL')))
            if i == 0 and k == 'plain' and r in ('Rec', 'T'):
                m = sx.pick('m', ('', '0', 'n'))
                if m == 'n':
                    a, b = sx.int('a', 0, 20), sx.int('b', 0, 30)
                    sx.assume(sx.Or(b == 0, a <= b))
                    o += ['[' + str(a), ']' + str(b)]
                elif m == '0':
                    o.append('[0')
            fs.append([i + 1, ('fld', 'node')[i], r, o, ''])
        t = ['T', base, bo, '', fs]
    where = sx.pick('where', (0, 2))
    judge(sx, {'types': tgt[:where] + [t] + tgt[where:]}, 'edges', st)


SMALL = {'types': [['T', 'Record', [], '', [[1, 'a', 'Rec', ['L', '[0'], ''], [2, 'b', 'Rec', [']0'], ''], [3, 'c', 'Prim', [], ''], [4, 'd', 'Enu', [], '']]], ['Rec', 'MapOf', ['+Enu', '*T'], '', []],
                   ['Prim', 'String', ['%a"b'], '', []], ['Enu', 'Enumerated', ['='], '', [[1, 'x', ''], [3, 'y<', '']]]]}


DEFAULT = {'format': 'plantuml', 'detail': 'conceptual', 'attributes': False, 'links': True, 'link_horizontal': True, 'edge_label': True, 'edge_mult': True}


def flags(sx):
    """Every combination of flags, given or left to their defaults; twice in a row."""
    st = style(sx, vary=FLAGS)
    given = {k: v for k, v in st.items() if DEFAULT[k] != v} if sx.bool('few') else st
    judge(sx, sx.deepcopy(SMALL), 'edges', st, given)
    judge(sx, sx.deepcopy(SMALL), 'edges', DEFAULT, {})


def dump(sx):
    """Written to a file, with or without the name of a source."""
    st = style(sx)
    s = sx.deepcopy(SMALL)
    fn = os.path.join(sx.dir({}), 'd')
    diagram_dump(s, fn, sx.pick('source', ('', 'x.jadn', 'a "b" <c>')), st)
    with open(fn) as f:
        text = f.read()
    judge(sx, s, 'dump', st, text=text)


def names(sx):
    """Symbolic names."""
    st = style(sx, vary=())
    f = sx.str('f', 1, 1, 'agz$') + sx.str('f2', 0, 2, 'aZ0_$-')
    n = tname(sx, 'n', False)
    sx.assume(':' not in n)
    sx.assume(n != 'A0' and n != 'Z9')
    judge(sx, h_text.around([n, sx.pick('base', ('Record', 'Choice')), [], '', [[1, sx.pick('kw', ('graph', 'edge', 'strict')) if sx.bool('dot') else f, 'A0', [], ''], [2, 'zz', n, ['[0'], '']]]), 'names', st)


def labels(sx):
    """Arbitrary text in patterns, descriptions and item values."""
    st = style(sx, ('logical', 'information'), vary=('attributes',))
    x = visible(sx, sx.str('x', 0, sx.p('n', 2)))
    if sx.bool('special'):
        x = sx.pick('pre', ('&lt;', '</td>', '"', '" as n1', '<', "'", '\\', '{')) + x
    where = sx.pick('where', ('pattern', 'fpattern', 'item', 'desc'))
    if where == 'pattern':
        t = ['T', 'String', ['%' + x], '', []]
    elif where == 'fpattern':
        t = ['T', 'Record', [], '', [[1, 'f', 'String', ['%' + x], '']]]
    elif where == 'item':
        sx.assume(x != '' and x[0] != ' ' and x[-1] != ' ')
        t = ['T', 'Enumerated', sx.pick('id', ([], ['='])), '', [[1, x, '']]]
    else:
        t = ['T', 'Record', [], x, [[1, 'f', 'A0', [], x]]]
    judge(sx, h_text.around(t), 'labels', st)


TYPES = {'Boolean': ([],), 'Integer': (['{-2', '}7'], ['/i8']), 'Number': (['y0.5'],), 'Binary': (['}3', '/eui'],), 'String': (['{1'], ['%a|b<"&>'], ['/date-time']), 'Enumerated': (['#A0'], ['=', '>A0']),
         'ArrayOf': (['*A0', 'q', '{1'], ['*#A0', 's'], ['*Z9']), 'MapOf': (['+String', '*A0'], ['+#A0', '*Z9', 'o', '}2'], ['+Z9', '*>A0']), 'A0': ([], ['q']), 'Z9': ([],), 'Link': ([],), 'ns:A0': ([],)}


def fields(sx):
    """Rows of fields of every type."""
    st = style(sx, ('logical', 'information'), attributes=True)
    base, bo = sx.pick('base', h_text.KINDS)
    ft = sx.pick('ft', list(TYPES))
    o = sx.pick('opts', TYPES[ft])
    m = sx.pick('m', ('', '0', 'n') if ft in ('A0', 'ArrayOf') else ('', '0'))
    fid = sx.int('id', 0, 99) if base in ('Map', 'Choice') and m == '' else 1
    if m == 'n':
        a, b = sx.int('a', 0, 20), sx.int('b', 2, 30)
        sx.assume(a <= b)
        m = ['[' + str(a), ']' + str(b)]
    elif m:
        m = ['[0']
    if 'q' in o and ft == 'A0':
        m = [']0']
    fs = [[fid, 'fld', ft, list(o) + list(m) + list(sx.pick('kl', ('', '<', 'K', 'KL') if ft == 'A0' else ('', 'K'))), 'about']]
    if ft == 'A0' and sx.bool('tag'):
        fs = [[fid, 'k', 'Integer', [], ''], [fid + 1, 'fld', 'Rec', ['&' + str(fid)], 'x']]
    judge(sx, h_text.around(['T', base, bo, '', fs]), 'fields', st)


def info(sx):
    st = style(sx, ('conceptual',))
    s = {'info': {'package': 'http://a', sx.pick('key', ('title', 'description', 'comment')): sx.str('x', 0, sx.p('n', 2) + 1) + sx.pick('tail', ('', '\n}', '\n@enduml', '\r\nx')), 'exports': ['T']}}
    judge(sx, {**s, **h_text.around(['T', 'Record', [], '', [[1, 'f', 'A0', [], '']]])}, 'info', st)


HARNESSES = {'edges': edges, 'flags': flags, 'names': names, 'labels': labels, 'fields': fields, 'info': info, 'dump': dump}
