"""C25: results do not depend on the order in which sets are iterated."""
import jadn
from jadn.codec import Codec
from jadn.convert import diagram_dumps, html_dumps, html_loads, jas_dumps, jidl_dumps, jidl_loads, markdown_dumps
from jadn.core import analyze
from jadn.utils import build_deps, topo_sort
from jadn.transform import resolve_imports, strip_comments, unfold_extensions
from jadn.translate import json_schema_dumps
import c13
import c15
import c18
import c19
import c20
import c21
import c22
import h_cases
import h_text

BOUNDS = ('Every operation is carried out twice on equal inputs, once with sets iterated in a fixed order and once with every set of texts that it iterates, pops from or turns into text in an order that the explorer chooses freely (all '
          'permutations; one order per contents of a set); the results, including the order of dicts, or the types of the exceptions must agree. Inputs are those of the checks of the single operations: unfolding (C15), canonical form (C13), '
          'reference analysis (C19), acceptance (C18), JSON Schema (C20), package resolution (C21), diagrams (C22), JIDL, HTML and Markdown in both directions (C10, C11, C26) and encoding and decoding in every mode (C01), with their symbolic contents (quick: without some combinations of field types, of packages and of flat codec types).')
ASSUMPTIONS = ['Texts of exceptions are not compared.', 'Sets of equal contents are iterated in the same order; sets of numbers, whose order does not depend on the hash seed, in a fixed one.',
               'Sets that C code iterates outside str, repr, format, join, itertools and the built-in functions are not permuted.']
PARAMS = {'quick': {'max': 2, 'n': 1, 'hashseeds': 32}, 'thorough': {'max': 3, 'n': 2, 'hashseeds': 32}}
REACH = ['unfold', 'canonicalize', 'analyze', 'check', 'jsonschema', 'resolve', 'diagram', 'jidl', 'html', 'markdown', 'codec']


class Done(Exception):
    """The rest of a borrowed harness judges something else."""


def pairs(x):
    """The value with the order of its dicts."""
    if isinstance(x, dict):
        return ('dict', [(k, pairs(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return [pairs(y) for y in x]
    return x


def free(sx, tag, f, x, *args):
    """f(x, *args) does not depend on set orders."""
    r = sx.order_free(tag, lambda: pairs(f(sx.deepcopy(x), *args)))
    sx.reach(tag)
    return r


def unfolding(sx, types, ext=None):
    schema = {'info': {'package': 'http://p'}, 'types': types}
    if ext is None:
        free(sx, 'unfold', unfold_extensions, schema)
    else:
        sx.order_free('unfold', lambda: pairs(unfold_extensions(sx.deepcopy(schema), set(ext))))
    raise Done


def canon(sx, build, opts, perm, base, at):
    free(sx, 'canonicalize', jadn.canonicalize, build(list(opts)))


def accept(sx, schema, want, tag, full=None):
    free(sx, 'check', jadn.check, schema)


def diagram(sx, s, tag, style, given=None, text=None):
    free(sx, 'diagram', diagram_dumps, s, style)


def schema(sx, schema, t, x, exact=True, rec=True, doc=None, **kw):
    if doc is None:
        sx.stub('jadn.translate.jsonschema_w', 'json', c20.Plain)
        sx.order_free('jsonschema', lambda: pairs(json_schema_dumps(sx.deepcopy(schema), verbose=rec, **kw)))
        sx.reach('jsonschema')
    return {}


def resolving(sx, w, tag, files=None, inside=True, **kw):
    if files is None:
        files = {f'{p.lower()}.jadn': c21.json.dumps(w.schemas[p]) for p in w.schemas if p != 'R' or inside}
    d = sx.dir(files)
    r = sx.order_free('resolve', lambda: pairs(resolve_imports(sx.deepcopy(w.schemas['R']), d, **kw)))
    sx.reach('resolve')
    return r


c13.judge, c15.judge, c18.judge, c20.agree, c21.run, c22.judge = canon, unfolding, accept, schema, resolving, diagram
c21.World.judge = lambda self, *a: None


def graph(sx):
    names = 'ABC'
    types = []
    for i, t in enumerate(names):
        es = [sx.pick(f'e{i}{j}', 'ABYZ') for j in range(sx.pick(f'k{i}', (0, 1, 2) if i < 2 else (0,)))]
        types.append([t, 'Record', [], '', [[j + 1, f'f{j}', e, [], ''] for j, e in enumerate(es)]])
    roots = ['ABX'[i] for i in range(sx.pick('roots', (0, 1, 2, 3)))]
    s = {'info': {'package': 'x', 'exports': roots}, 'types': types}
    free(sx, 'analyze', analyze, s)
    free(sx, 'analyze', build_deps, s)
    free(sx, 'analyze', lambda s: topo_sort(build_deps(s), roots), s)


FUNCS = {'unfold': unfold_extensions, 'canonicalize': jadn.canonicalize, 'strip': lambda s: strip_comments(s, 3), 'check': jadn.check, 'analyze': lambda s: (analyze(s), build_deps(s)), 'dumps': jadn.dumps, 'jidl': jidl_dumps, 'html': html_dumps, 'markdown': markdown_dumps,
         'plantuml': lambda s: diagram_dumps(s, {'detail': 'information', 'attributes': True}), 'dot': lambda s: diagram_dumps(s, {'format': 'graphviz', 'detail': 'logical', 'attributes': True}), 'conceptual': diagram_dumps,
         'jas': jas_dumps, 'jsonschema': json_schema_dumps, 'enums': lambda s: json_schema_dumps(s, verbose=False, enum_style='regex'), 'jidl_loads': lambda s: jidl_loads(jidl_dumps(s)), 'html_loads': lambda s: html_loads(html_dumps(s)),
         'expand': lambda s: jidl_dumps(jadn.canonicalize(unfold_extensions(s)))}


def rich(sx):
    """Several of everything: options, multiplicities, links, derived enumerations, maps with enumerated keys, information."""
    m = sx.pick('m', ([']0'], ['[0', ']3', 'q'], ['[2', ']' + str(sx.int('max', 2, 9))], ['[0'], []))
    x = sx.str('x', 1, 1, 'ab')
    o = sx.pick('o', (['String', '{1', '}' + str(sx.int('hi', 2, 9))], ['ArrayOf', '*String', '{1', '}4', 'q'], ['MapOf', '+#M', '*#R', '{1', '}4'], ['Integer', '{2', '}7'], ['Number', 'y0.5', 'z2.5'], ['Enumerated', '#M', '='], ['ArrayOf', '*>R', '}4', 's'],
                      ['Binary', '{1', '}5', '/eui'], ['E', 'q'], ['C', '&1'], ['R', 'L'], ['K', 'L']))
    mm = [y for y in m if y != 'q' or o[0] in ('ArrayOf', 'E', 'R', 'K') and 'q' not in o[1:]]
    if ']0' not in m and ']3' not in m and o[0] == 'E':
        o = o[:1]
    if o[0] == 'C':
        mm = [y for y in m if y == '[0']
    rev = sx.bool('rev')
    fo = o[1:] + mm
    fs = [[1, 'k', 'E', ['K'], ''], [2, 'f', o[0], fo[::-1] if rev else fo, 'about ' + x], [3, 'g', o[0], list(fo), ''], [4, 'r', 'R', ['L', '[0', ']3'], ''], [5, 's', 'K', ['L', '[0'], 'self']]
    types = [['R', 'Record', [], x, fs], ['K', 'Map', ['{2', '}5', '='], '', [[1, 'k', 'String', ['{1', '}9', 'K'], ''], [7, 'b', 'Integer', ['{1', '}9', '[0', ']2'], '']]],
             ['M', 'Map', [], '', [[3, 'x', 'Number', ['y0', 'z1'], ''], [2, 'y', 'R', ['<', '[0'], '']]], ['E', 'Enumerated', ['='], '', [[1, 'm', x], [2, 'n', '']]], ['C', 'Choice', [], '', [[1, 'm', 'Integer', [], ''], [2, 'n', 'M', [], x]]],
             ['O', 'MapOf', ['*R', '+E', '{1', '}2'], '', []], ['P', 'MapOf', ['+#M', '*>R'], '', []], ['Q', 'ArrayOf', ['*#K', '{1', '}2', 'q'], '', []], ['D', 'Enumerated', ['#M'], '', []], ['W', 'Enumerated', ['>M'], '', []]]
    roots = ['R', 'K', 'P']
    s = {'info': {'package': 'http://x', 'title': x, 'version': '1', 'exports': roots[::-1] if rev else roots, 'config': {'$MaxString': 99, '$MaxElements': 50, '$FieldName': '^[a-z]+$'}, 'namespaces': {'a': 'http://a', 'b': 'http://b'}}, 'types': types}
    f = sx.pick('op', list(FUNCS))
    r = free(sx, f, FUNCS[f], s)
    sx.reach('rich-' + f + '-' + r[0])


def of(gen):
    def h(sx):
        for m in ('jidl', 'html'):
            sx.stub('jadn.convert.' + m, 'check', lambda x: x)
        s = gen(sx)
        s = s[0] if isinstance(s, tuple) else s
        r = free(sx, 'jidl', jidl_dumps, s)
        if r[0] == 'ok':
            sx.order_free('jidl', lambda: pairs(jidl_loads(r[1])))
        r = free(sx, 'html', html_dumps, s)
        if r[0] == 'ok':
            sx.order_free('html', lambda: pairs(html_loads(r[1])))
        free(sx, 'markdown', markdown_dumps, s)
        free(sx, 'check', strip_comments, s, 3)
    return h


def codec(case):
    def h(sx):
        s, t, v, vr, vs = case(sx)

        def both():
            c = Codec(sx.deepcopy(s), verbose_rec=vr, verbose_str=vs)
            e = c.encode(t, sx.deepcopy(v))
            return pairs(e), pairs(c.decode(t, e))
        sx.order_free('codec', both)
        for x in (v, {'c': 1, 'zz': 2, 'b': v} if isinstance(v, dict) else [v, v]):
            sx.order_free('codec', lambda: pairs(Codec(sx.deepcopy(s), verbose_rec=vr, verbose_str=vs).decode(t, sx.deepcopy(x))))
        sx.reach('codec')
    return h


def only(f):
    def h(sx):
        try:
            f(sx)
        except Done:
            pass
    return h


HARNESSES = {'graph': graph, 'rich': rich}
HARNESSES.update({'unfold-' + n: only(f) for n, f in c15.HARNESSES.items()})
HARNESSES.update({'canon-' + n: f for n, f in c13.HARNESSES.items()})
HARNESSES.update({'accept-' + n: c18.HARNESSES[n] for n in ('three', 'ids')})
HARNESSES.update({'schema-' + n: c20.HARNESSES[n] for n in ('fields', 'choices', 'mapofs', 'links', 'tags', 'enums', 'meta')})
HARNESSES.update({'resolve-' + n: c21.HARNESSES[n] for n in ('graph', 'kinds', 'prefixes')})
HARNESSES.update({'diagram-' + n: c22.HARNESSES[n] for n in ('edges', 'fields')})
HARNESSES.update({'text-' + n: of(f) for n, f in (('types', h_text.types(('ArrayOf', 'Choice', 'Enumerated', 'String'))), ('fields', h_text.fields(('Enumerated', ))), ('names', h_text.names), ('items', h_text.items), ('info', h_text.info))})
HARNESSES.update({'codec-' + n: codec(f) for n, f in h_cases.CASES.items()})


def deeper(f):
    def h(sx):
        if sx.p('n') > 1:
            f(sx)
    return h


HARNESSES.update({'more-types': deeper(of(h_text.types(sorted(set(c15.BUILTIN) - {'ArrayOf', 'Choice', 'Enumerated', 'String'})))), 'more-fields': deeper(of(h_text.fields(('', 'ArrayOf'))))})
HARNESSES.update({n: deeper(HARNESSES[n]) for n in ('resolve-kinds', 'codec-flat')})
