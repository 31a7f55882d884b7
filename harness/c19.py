"""C19: dependencies, analysis and topological order follow exactly the references in the schema."""
import jadn
from jadn.utils import build_deps, topo_sort

BOUNDS = ('refs: one type of every base type that can refer, with up to two references placed in every position where the information model allows one (field type, key type, value type, derived and pointer enumeration, '
          'the same inside field options, and derived enumerations as key or value type), each reference symbolic text of one or two characters that may or may not equal one of the type names, or any builtin type. '
          'graph: every reference graph on 3 (thorough: 4) types with up to two references each for two of them and one for the others, references symbolic over the type names and an undefined name, and up to 2 symbolic roots.')
ASSUMPTIONS = ['An undefined name that is reachable from the roots may or may not be listed by topo_sort.']
PARAMS = {'quick': {'n': 3}, 'thorough': {'n': 4}}
REACH = ['builtin', 'ref', 'undefined', 'cycle', 'roots', 'noroots', 'unreferenced', 'sorted']

BUILTIN = ('Binary', 'Boolean', 'Integer', 'Number', 'String', 'Enumerated', 'Choice', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record')
NAMES = 'ABC'


def target(sx, p, builtin=True):
    """A reference: (name, is it a reference to a type that is not builtin)."""
    if builtin and sx.bool(p + '.b'):
        sx.reach('builtin')
        return sx.pick(p + '.bn', ('String', 'Integer', 'Binary')), False
    sx.reach('ref')
    return sx.str(p + '.r', 1, 2 if builtin and p.endswith('t') else 1, 'ABCZ'), True


def spot(sx, p, want, short=False):
    """A field or type with references; returns (base type, options) and adds the expected references to want."""
    k = sx.pick(p, ('name', 'kvtype', 'kenum') if short else ('name', 'vtype', 'kvtype', 'enum', 'pointer', 'venum', 'kenum', 'plain'))
    def ref(q, builtin=True):
        t, r = target(sx, f'{p}.{q}', builtin and not short)
        if r:
            want.append(t)
        return t
    if k == 'name':
        return ref('t'), []
    if k == 'plain':
        return 'String', ['%*A', '/email'] if sx.bool(p + '.pat') else ['!A']
    if k == 'enum':
        return 'Enumerated', ['#' + ref('t', False)]
    if k == 'pointer':
        return 'Enumerated', ['=', '>' + ref('t', False)]
    if k == 'vtype':
        return 'ArrayOf', ['*' + ref('v'), '{1']
    if k == 'kvtype':
        o = ['*' + ref('v'), '+' + ref('k')]
        return 'MapOf', o
    c = sx.pick(p + '.c', '#>')
    if k == 'venum':
        return 'ArrayOf', ['{0', '*' + c + ref('t', False)]
    return 'MapOf', ['+' + c + ref('t', False), '*' + ref('v')]


def covers(sx, want, got, tag):
    for w in want:
        sx.check(sx.Or(*[sx.eq(w, g) for g in got]) if got else False, f'{tag}: a reference is missing', (w, got))
    for g in got:
        sx.check(sx.Or(*[sx.eq(w, g) for w in want]) if want else False, f'{tag}: not a reference', (g, want))


def refs(sx):
    want = []
    if sx.bool('fields'):
        b = sx.pick('base', ('Record', 'Map', 'Array', 'Choice'))
        fs = []
        for i in range(sx.pick('n', (0, 1, 2)) if b == 'Record' else 1):
            t, o = spot(sx, f'f{i}', want, i == 1 and not sx.p('full'))
            o = o + sx.pick(f'm{i}', ([], ['[0', ']0'], ['L'], ['&1', '<'])) if b == 'Choice' else o
            fs.append([i + 1, 'ABC'[i], t, o, 'A'])
        tdef = ['A', b, ['='] if b in ('Map', 'Choice') else [], 'C', fs]
    else:
        b, o = spot(sx, 't', want)
        if b not in ('ArrayOf', 'MapOf', 'Enumerated', 'String'):
            sx.discard()
        items = [[1, 'B', 'C']] if sx.bool('items') and b == 'Enumerated' else []
        tdef = ['A', b, o, 'C', items]
        if not items and sx.bool('four'):
            tdef.pop()
    schema = {'info': {'package': 'B', 'exports': []}, 'types': [['B', 'String', [], '', []], tdef, ['C', 'Enumerated', [], '', [[1, 'A', '']]]]}
    orig = sx.deepcopy(schema)
    deps = build_deps(schema)
    sx.check(sx.same(schema, orig), 'build_deps modifies the schema')
    sx.check(list(deps) == ['B', 'A', 'C'], 'a type is missing', list(deps))
    sx.check(deps['B'] == [] and deps['C'] == [], 'a reference that does not exist', deps)
    covers(sx, want, deps['A'], 'deps')
    # analysis of the same schema
    a = jadn.analyze(schema)
    sx.check(sx.same(schema, orig), 'analyze modifies the schema')
    undef = [w for w in want if w != 'A' and w != 'B' and w != 'C']
    covers(sx, undef, a['undefined'], 'undefined')
    unref = [n for n in NAMES if not any(w == n for w in want)]
    covers(sx, unref, a['unreferenced'], 'unreferenced')
    sx.reach('undefined' if undef else 'unreferenced')


def graph(sx):
    n = sx.p('n', 3)
    names = 'ABCD'[:n]
    rk = sx.pick('roots', ('exports', 'two', 'roots', 'both', 'none', 'noinfo'))
    deg = 2 if rk == 'exports' else 0
    edges = {}
    types = []
    for i, t in enumerate(names):
        k = sx.pick(f'k{i}', (0, 1, 2) if i < deg else (0, 1))
        edges[t] = [sx.str(f'e{i}{j}', 1, 1, names + 'Z') for j in range(k)]
        types.append([t, 'Record', [], '', [[j + 1, f'f{j}', e, [], ''] for j, e in enumerate(edges[t])]] if k < 2 else
                     [t, 'MapOf', ['+' + edges[t][0], '*' + edges[t][1]], '', []])
    nr = 2 if rk == 'two' else 1
    roots = [sx.str(f'root{i}', 1, 1, names + 'Z') for i in range(nr)] if rk not in ('none', 'noinfo') else []
    if nr == 2:
        sx.assume(roots[0] != roots[1])
    info = {'exports': {'exports': roots}, 'two': {'exports': roots}, 'roots': {'roots': roots}, 'both': {'roots': roots, 'exports': ['Y']}, 'none': {}, 'noinfo': None}[rk]
    schema = {'types': types} if info is None else {'info': {'package': 'x', **info}, 'types': types}
    a = jadn.analyze(schema)
    allrefs = [e for t in names for e in edges[t]] + roots
    covers(sx, [e for e in allrefs if e == 'Z'], a['undefined'], 'undefined')
    covers(sx, [t for t in names if not any(e == t for e in allrefs)], a['unreferenced'], 'unreferenced')
    sx.check(len(set(a['undefined'])) == len(a['undefined']) and len(set(a['unreferenced'])) == len(a['unreferenced']), 'a name is listed twice', a)
    deps = build_deps(schema)
    out = topo_sort(deps, roots)
    sx.reach('roots' if roots else 'noroots')
    if not roots:
        sx.check(sorted(out) == sorted(names), 'no roots: every type once', out)
        return
    # reachable types
    reach = list(roots)
    for x in reach:
        for e in edges[x] if x != 'Z' else []:
            if not any(e == y for y in reach):
                reach.append(e)
    got = [x for x in out if x != 'Z']
    want = [x for x in reach if x != 'Z']
    sx.check(len(got) == len(want), 'topo_sort: wrong number of types', (out, reach))
    covers(sx, want, got, 'topo_sort')
    if got:
        sx.check(any(out[0] == r for r in roots), 'topo_sort does not start at a root', (out, roots))
    for i, x in enumerate(out):
        if not any(x == r for r in roots):
            sx.check(any(e == x for y in out[:i] if y != 'Z' for e in edges[y]), 'topo_sort: a type comes before all types that refer to it', (out, edges))
            sx.reach('sorted')
    if any(e == t for t in names for e in edges[t]):
        sx.reach('cycle')


HARNESSES = {'refs': refs, 'graph': graph}
