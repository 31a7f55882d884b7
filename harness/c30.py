"""C30: files written by the converters hold exactly the converted text."""
import json
import os

import jadn
from jadn.convert import diagram_dump, diagram_dumps, html_dump, html_dumps, html_load, html_loads, jas_dump, jas_dumps, jidl_dump, jidl_dumps, jidl_load, jidl_loads, markdown_dump, markdown_dumps
from jadn.translate import json_schema_dump, json_schema_dumps

BOUNDS = ('kinds: dump, jidl_dump, html_dump, markdown_dump, jas_dump, diagram_dump (both formats), json_schema_dump to a file that does not exist or holds a longer text, with and without a source header (three source texts), with and without '
          'styles, for a schema with every kind of definition whose descriptions are symbolic texts of up to 2 (thorough: 3) characters, tab, quotes, markup and non-ASCII included (a fixed text for HTML, whose file is compared by loading it). '
          'load: the loaders of JADN and JIDL given a file, an open text, or the text itself.')
ASSUMPTIONS = ['The header added for a source is one comment line of the format, then an empty line; its time stamp is not judged.']
PARAMS = {'quick': {'n': 2}, 'thorough': {'n': 3}}
REACH = ['jadn', 'jidl', 'html', 'md', 'jas', 'plantuml', 'graphviz', 'json', 'header', 'no header', 'overwritten', 'style', 'load', 'json-source']

HEADS = {'jidl': '// ', 'html': '<! ', 'md': '<!--- ', 'jas': '-- ', 'plantuml': "' ", 'graphviz': '# ', 'jadn': '"'}
TAILS = {'html': '>', 'md': ' --->', 'jadn': '"', 'plantuml': '"', 'graphviz': '"'}


def make_schema(sx, kind):
    d, e = ('d <b> "q"', '') if kind == 'html' else (sx.str('d', 0, sx.p('n', 1), 'a"&<>\\\xe9\t%{/|*'), 'e')
    return {'info': {'package': 'http://a', 'version': '1', 'title': 'T', 'exports': ['R']}, 'types': [
        ['R', 'Record', ['{1'], d, [[1, 'a', 'String', ['{2', '}7'], e], [2, 'b', 'E', ['[0', ']0'], d], [3, 'c', 'C', ['&2'], '']]],
        ['E', 'Enumerated', [], '', [[0, 'i', e], [7, 'j2', d]]],
        ['C', 'Choice', [], '', [[0, 'i', 'Integer', [], ''], [7, 'j2', 'String', [], e]]],
        ['A', 'ArrayOf', ['*Integer', 'q'], e, []]]}


STYLES = {'jidl': ({'page': 40}, {'desc': 30}), 'plantuml': ({'detail': 'information'}, {'links': False}), 'graphviz': ({'detail': 'logical'}, {'edge_label': False}), 'json': ({'verbose': False}, {'enum_style': 'const'})}


def write(sx, kind, s, fn, source, style):
    """Write the file, return the text it must hold after the header."""
    if kind in ('plantuml', 'graphviz'):
        st = dict(style, format=kind) if kind == 'graphviz' or style else {}
        want = diagram_dumps(s, st) + '\n'
        diagram_dump(s, fn, source, st)
    elif kind == 'jidl':
        want = jidl_dumps(s, style) if style else jidl_dumps(s)
        jidl_dump(s, fn, source, style) if style else jidl_dump(s, fn, source)
    elif kind == 'json':
        want = json_schema_dumps(s, **style)
        json_schema_dump(s, fn, source, **style)
    elif kind == 'jadn':
        strip = sx.bool('strip')
        want = jadn.dumps(s, strip) + '\n'
        jadn.dump(s, fn, source, strip)
    else:
        dumps, dump = {'md': (markdown_dumps, markdown_dump), 'jas': (jas_dumps, jas_dump)}[kind]
        want = dumps(s)
        dump(s, fn, source)
    return want


def files(kinds):
    def h(sx):
        kind = sx.pick('kind', kinds)
        source = sx.pick('source', ('', 'model.jadn', 'a = b: "c"'))
        fn = os.path.join(sx.dir({}), 'out.' + kind)
        s = make_schema(sx, kind)
        s0 = sx.deepcopy(s)
        if sx.bool('old'):
            with open(fn, 'w') as f:
                f.write('x' * 9000)
            sx.reach('overwritten')
        style = sx.pick('style', ({},) + STYLES.get(kind, ()))
        want = write(sx, kind, s, fn, source, style)
        sx.check(sx.same(s, s0), f'{kind}: the schema is modified', s)
        if style:
            sx.reach('style')
        with open(fn, encoding='utf8') as f:
            got = f.read()
        sx.reach(kind)
        if kind == 'json':
            r = sx.call(json.loads, got)
            sx.check(r[0] == 'ok', 'json: the file does not hold JSON', got)
            doc, w = r[1], json.loads(want)
            if source:
                c = doc.pop('$comment', '')
                sx.check(sx.same(doc, w), 'json: another document than without a source', doc)
                sx.check(source in c, 'json: the source is not named', c)
                sx.reach('json-source')
            else:
                sx.check(got == want, 'json: the file differs from the text', got)
            return
        if source:
            n = got.find('\n')
            head, rest = got[:n], got[n:]
            sx.check(head.startswith(HEADS[kind] + 'Generated from ' + source), f'{kind}: wrong header', head)
            sx.check(head.endswith(TAILS.get(kind, '')), f'{kind}: the header does not end', head)
            sx.check(rest == '\n\n' + want, f'{kind}: the file differs from the text', (rest, want))
            sx.reach('header')
        else:
            sx.check(got == want, f'{kind}: the file differs from the text', (got, want))
            sx.reach('no header')
    return h


def html(sx):
    s = make_schema(sx, 'html')
    source = sx.pick('source', ('', 'model.jadn', 'a = b: "c"'))
    fn = os.path.join(sx.dir({}), 'out.html')
    s0 = sx.deepcopy(s)
    a = sx.call(html_loads, html_dumps(s))
    html_dump(s, fn, source)
    sx.check(sx.same(s, s0), 'html: the schema is modified', s)
    b = sx.call(html_load, fn)
    sx.check(a[0] == b[0] == 'ok', 'html: a file is not loaded', (a[1], b[1]))
    sx.check(sx.same(a[1], b[1]), 'html: the file holds another schema than the text', (a[1], b[1]))
    sx.reach('html')


def load(sx):
    kind = sx.pick('kind', ('jadn', 'jidl'))
    s = make_schema(sx, kind)
    fn = os.path.join(sx.dir({}), 'in.' + kind)
    text = jadn.dumps(s) if kind == 'jadn' else jidl_dumps(s)
    with open(fn, 'w', encoding='utf8') as f:
        f.write(text)
    with open(fn, encoding='utf8') as f:
        a = sx.call(jadn.load if kind == 'jadn' else jidl_load, f)
    b = sx.call(jadn.loads if kind == 'jadn' else jidl_loads, text)
    sx.check(a[0] == b[0] == 'ok', 'a file is not loaded', (a[1], b[1]))
    sx.check(sx.same(a[1], b[1]), 'the file holds another schema than the text', (a[1], b[1]))
    sx.reach('load')


HARNESSES = {'text': files(('jidl', 'md', 'jas')), 'jadn': files(('jadn',)), 'diagrams': files(('plantuml', 'graphviz')), 'json': files(('json',)), 'html': html, 'load': load}
