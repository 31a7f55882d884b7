"""Schemas for the text conversions (JIDL, HTML, Markdown), with symbolic content in every position."""
from h_opts import DIGIT, LOWER, UPPER, kv, line, plain_pattern, tname, visible, topts

KINDS = (('Record', []), ('Map', []), ('Map', ['=']), ('Choice', []), ('Choice', ['=']), ('Choice', ['CX']), ('Array', []))


def around(t, info=None):
    """The type between two others, so that neighbours are seen not to interfere."""
    s = {'types': [['A0', 'Array', [], 'first', [[1, 'one', 'Integer', [], '']]], t, ['Z9', 'Enumerated', [], '', [[7, 'zed', 'last']]]]}
    return {'info': info, **s} if info else s


def types(bases):
    """Every base type with every combination of options; symbolic description."""
    def h(sx):
        b = sx.pick('base', bases)
        d = sx.pick('d', ('', 'about it')) if not sx.bool('dsym') else None
        if d is None:
            d = line(sx, 'desc', sx.p('n', 2))
            o = sx.pick('o', ([], ['X'])) if b in ('Record', 'Choice', 'Enumerated') else {'ArrayOf': ['*A0', '{1'], 'MapOf': ['*A0', '+String'], 'String': ['%a'], 'Number': ['y0.5'], 'Integer': ['}-1'], 'Boolean': []}.get(b, ['}3'])
        else:
            o = topts(sx, 't', b, sx.p('n', 2), True) if b != 'Enumerated' else topts(sx, 't', b, 1)
        fields = []
        if b == 'Enumerated' and not any(x[0] in '#>' for x in o):
            fields = [[3, 'i', '']]
        return around(['T', b, o, d, fields])
    return h


def quoted(sx):
    """Pattern and description interact."""
    p = plain_pattern(sx, 'pattern', sx.p('n', 2))
    pre = sx.pick('pre', ('', 'a // ', '"', '{', "\\\\", '[1] '))
    d = sx.pick('dk', ('', 'say "x', 'a // b', '}"', 'see {pattern="q"} // ok', '= {', '[0..1]', 'x optional', '// lead', 'a:: b', 'k: v'))
    p = pre + p
    where = sx.pick('where', ('type', 'field', 'optfield', 'idfield'))
    if where == 'type':
        t = ['T', 'String', ['%' + p], d, []]
    else:
        t = ['T', 'Array' if where == 'idfield' else 'Record', [], d, [[1, 'f', 'String', ['%' + p] + (['[0'] if where == 'optfield' else []), d], [2, 'g', 'A0', ['[0', ']0'], d]]]
    return around(t), p


def fields(fts):
    """One field of each type and multiplicity in each kind of structured type."""
    def h(sx):
        ft = sx.pick('ft', fts)
        base, bo = sx.pick('base', KINDS if not ft or sx.p('full') else (KINDS[0], KINDS[6]))
        o = topts(sx, 't', ft, 1, True) if ft else []
        focus = not ft and not sx.p('full') and sx.bool('name')
        m = sx.pick('m', ([], ['[0'], [']0'], ['[0', ']0'], 'n', 'nn') if not ft and not focus else ([], ['[0'], ['[2', ']0']))
        if m == 'n' or m == 'nn':
            a, b = sx.int('a', 0, 20), sx.int('b', 2, 30)
            sx.assume(a <= b)
            m = (['[' + str(a)] if m == 'nn' else []) + [']' + str(b)]
        if not ft:
            ft = sx.pick('ftn', ('A0', 'Key', 'Link', 'Xoptional', 'Enum', 'ns:Ab', '$A-b$', 'Pattern')) if focus or sx.p('full') else 'A0'
            if (focus or sx.p('full')) and sx.bool('sym'):
                ft = tname(sx, 'ftany', False)
            if any(x[0] == ']' for x in m) and sx.bool('q'):
                o.append('q')
            if not focus and sx.bool('dir'):
                o.append('<')
        if not focus:
            o += list(sx.pick('kl', ('', 'K', 'L', 'KL') if base == 'Record' and not bo else ('', 'KL')))
        return around(['T', base, bo, '', [[1, 'fld', ft, o + list(m), sx.pick('d', ('', 'about')) if focus or sx.p('full') else sx.pick('same', ('about', ft)) if m else 'about']]])
    return h


def names(sx):
    """Symbolic names, IDs and descriptions of two fields; tags."""
    base, bo = sx.pick('base', KINDS)
    k = sx.pick('vary', ('name', 'desc', 'tag'))
    d = line(sx, 'd', sx.p('n', 2)) if k == 'desc' else 'about'
    nm = sx.str('n1', 1, 1, LOWER + '$') + sx.str('n2', 0, 1, LOWER + UPPER + DIGIT + '_$') if k == 'name' else 'ab'
    i = 1 if base in ('Record', 'Array') else sx.int('id', 0, 20)
    o = list(sx.pick('opts', ([], ['[0'], [']0'], ['<']))) if k == 'tag' else []
    fs = [[i, nm, 'Integer', [], d], [i + 1, 'zz9', 'Z9', o, '' if k != 'desc' or sx.bool('d2') else 'x:: y']]
    if k == 'tag':
        o.append('&' + str(i))
    s = around(['T', base, bo, '', fs])
    where = sx.pick('where', ('mid', 'last', 'first')) if k == 'tag' else 'mid'
    if where != 'mid':
        s['types'] = s['types'][:2] if where == 'last' else s['types'][1:]
    return s


def items(sx):
    """Enumerated items with symbolic values and descriptions."""
    idd = sx.bool('id')
    v = line(sx, 'v', sx.p('n', 2) + 1, 1)
    if idd:
        sx.assume('::' not in v and v[-1] != ':')
    sx.assume(' //' not in ' ' + v)
    k = sx.pick('vary', ('value', 'desc'))
    d = line(sx, 'd', sx.p('n', 2)) if k == 'desc' else ''
    if k == 'desc':
        v = 'val'
    return around(['T', 'Enumerated', ['='] if idd else [], 'x' if k == 'desc' else '', [[sx.int('i', 0, 99), v, d], [100, 'other', d]]])


def info(sx):
    """Package information: any printable text in every entry, order and presence of entries."""
    k = sx.pick('key', ('title', 'version', 'description', 'comment', 'copyright', 'license', 'ns', 'nsarr', 'exports', 'roots', 'config', 'all'))
    i = {'package': 'http://a.b/c'}
    x = sx.str('x', 1, sx.p('n', 2) if k == 'title' else 1)
    if k == 'title':
        visible(sx, x)
    if not sx.p('full'):
        sx.assume(sx.Or(ord(x[-1]) < 256, ord(x[-1]) > 0xfff0))
    if k == 'ns':
        i['namespaces'] = {'n': 'http://x', 'q': 'http://y#:{"a'} if sx.bool('two') else {'': 'http://x'}
    elif k == 'nsarr':
        i['namespaces'] = [['n', 'http://x'], ['n', 'http://y']]
    elif k in ('exports', 'roots'):
        i[k] = ['T', 'A0'] if sx.bool('two') else ['T']
    elif k == 'config':
        i[k] = {'$MaxString': sx.int('max', 255, 999), '$FieldName': '^.*$', '$Sys': x}
    elif k == 'all':
        i.update({'version': '1', 'comment': 'c', 'title': 't', 'roots': ['T'], 'license': 'l', 'description': 'd', 'exports': ['T'], 'copyright': 'c', 'config': {'$MaxElements': 100}})
    else:
        i[k] = x
    return {'info': i, **around(['T', 'String', [], '', []])}
