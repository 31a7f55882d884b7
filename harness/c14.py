"""C14: saved schemas load back unchanged."""
import json
import os

import jadn
from jadn.convert import html_dump, html_load, jidl_dump, jidl_load

BOUNDS = ('text: schemas with every kind of definition in which, in turn, each text that the schema checker leaves free (descriptions of types, items and fields, enumerated values, option texts, package texts, namespace prefixes and '
          'namespaces in both forms, configured patterns) is a symbolic text of 0..2 (thorough: 0..3) characters of the whole universe (quotes, backslashes, control characters, line separators and non-ASCII letters included); '
          'stripped and not. files: dump, jidl_dump, html_dump with and without a source header, read by load, jidl_load, html_load and load_any; descriptions symbolic, up to two characters.')
ASSUMPTIONS = ['File names end in the extension of their format.']
PARAMS = {'quick': {'n': 2}, 'thorough': {'n': 3}}
REACH = ['text', 'checked', 'jadn', 'jidl', 'html', 'any', 'source']

SPOTS = ('tdesc', 'fdesc', 'idesc', 'item', 'option', 'pattern', 'title', 'version', 'nsid', 'ns', 'nsarr', 'config', 'configval', 'tname')


def schema_with(sx, spot, x):
    def at(s, d):
        return x if spot == s else d
    info = {'package': 'http://a', 'title': at('title', 'T'), 'version': at('version', '1'), 'exports': ['R']}
    if spot in ('nsid', 'ns'):
        info['namespaces'] = {at('nsid', 'a'): at('ns', 'http://b'), 'zz': 'http://z'}
    if spot == 'nsarr':
        info['namespaces'] = [[x, 'http://b'], ['q', 'http://c']]
    if spot in ('config', 'configval'):
        info['config'] = {'$MaxString': 99, at('config', '$Sys'): '$', '$NSID': at('configval', '.*')}
    return {'info': info, 'types': [
        ['R', 'Record', ['{0', '}9'], at('tdesc', 'd'), [[1, 'a', 'String', ['%' + at('pattern', 'x')], at('fdesc', '')], [2, 'b', 'E', ['[0', ']0', 'q'], 'it']]],
        ['E', 'Enumerated', ['='], '', [[0, at('item', 'i'), at('idesc', '')], [7, 'j2', 'k']]],
        ['N', 'Number', ['y1.5'], 'n', []],
        [at('tname', 'A'), 'ArrayOf', ['*Integer', '!' + at('option', 'o')], '', []],
        ['M', 'MapOf', ['+String', '*R'], 'a // b', []],
        ['Q', 'Array', [], '', []]]}


def text(sx):
    spot = sx.pick('spot', SPOTS)
    s = schema_with(sx, spot, sx.str('x', 0 if spot != 'tname' else 1, sx.p('n', 2)))
    if spot in ('nsid', 'config'):
        sx.assume(len(s['info']['namespaces' if spot == 'nsid' else 'config']) == (2 if spot == 'nsid' else 3))
    strip = sx.bool('strip')
    orig = sx.deepcopy(s)
    t = jadn.dumps(s, strip) if strip else jadn.dumps(s)
    sx.check(sx.same(s, orig), 'dumps modifies the schema', s)
    r = sx.call(json.loads, t)
    sx.check(r[0] == 'ok', 'dumps does not write JSON', t)
    sx.check(sx.same(r[1], s), 'dumps: another schema is read back', (t, r[1]))
    sx.check(list(r[1]['info']) == list(s['info']), 'dumps: the order of info changes', t)
    sx.reach('text')


def whole(sx):
    """Accepted schemas: loads(dumps(s)) == s."""
    spot = sx.pick('spot', ('tdesc', 'fdesc', 'idesc', 'item', 'version', 'nsid'))
    s = schema_with(sx, spot, sx.str('x', 1 if spot == 'version' else 0, 1))
    s['types'][3][2] = ['*Integer']
    if spot == 'nsid':
        s['info']['config'] = {'$NSID': '.'}
    s0 = sx.deepcopy(s)
    c = sx.call(jadn.check, s)
    if c[0] == 'err':
        sx.discard()
    sx.check(sx.same(s, s0), 'check changes the schema', s)
    r = sx.call(jadn.loads, jadn.dumps(s, sx.bool('strip')))
    sx.check(r[0] == 'ok', 'a saved schema is not accepted', r[1])
    sx.check(sx.same(r[1], s), 'another schema is read back', r[1])
    sx.reach('checked')


def file_schema(sx):
    d = sx.str('d', 0, 1, 'a"&<>\\\xe9[=/(')
    e = sx.str('e', 0, 1, 'b"%{')
    return {'info': {'package': 'http://a', 'title': 'T' + d, 'version': '1', 'exports': ['R']}, 'types': [
        ['R', 'Record', ['{1'], d, [[1, 'a', 'String', ['{2', '}7'], e], [2, 'b', 'E', ['[0', ']0'], d], [3, 'c', 'C', ['&2'], '']]],
        ['E', 'Enumerated', [], '', [[0, 'i', e], [7, 'j2', '']]],
        ['C', 'Choice', [], '', [[1, 'i', 'Integer', [], ''], [2, 'j2', 'String', [], e]]],
        ['A', 'ArrayOf', ['*Integer', 'q'], e, []]]}


def files(sx):
    s = file_schema(sx)
    kind = sx.pick('kind', ('jadn', 'jidl', 'html'))
    fn = os.path.join(sx.dir({}), 'out.' + kind)
    source = sx.pick('source', ('', 'model.jadn', 'a = b: "c"'))
    if kind == 'jadn':
        if source and sx.known('dump-source-header'):
            sx.discard()
        jadn.dump(s, fn, source, sx.bool('strip'))
    elif kind == 'jidl':
        jidl_dump(s, fn, source)
    else:
        html_dump(s, fn, source)
    if sx.bool('any'):
        with open(fn, encoding='utf8') as f:
            r = sx.call(jadn.load_any, f)
        sx.reach('any')
    elif kind == 'html':
        r = sx.call(html_load, fn)
    else:
        with open(fn, encoding='utf8') as f:
            r = sx.call(jadn.load if kind == 'jadn' else jidl_load, f)
    sx.check(r[0] == 'ok', f'{kind}: a saved schema is not read back', r[1])
    sx.check(sx.same(jadn.canonicalize(r[1]), jadn.canonicalize(s)), f'{kind}: another schema is read back', r[1])
    sx.reach(kind)
    if source:
        sx.reach('source')


HARNESSES = {'text': text, 'whole': whole, 'files': files}
