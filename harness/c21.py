"""C21: resolving imports yields one self-contained package."""
import json
import jadn
from jadn.transform import resolve_imports

BOUNDS = ('Three packages (root R, imported P and Q) with two types each (thorough: with up to three in P) and symbolic one-character type names that may be equal across packages; each type refers to any type of any package in '
          'one or two of the ways: field type, vtype, ktype, derived enumeration or pointer as type, field, vtype or ktype; roots and exports; prefixes that are different or the same in different packages, as object and as array; root package in '
          'the directory or not; unrelated, duplicate and .jidl files; types that nothing refers to; short rows.')
ASSUMPTIONS = ['Every package that is referred to is in the directory, every type that is referred to is defined; the root package declares roots or exports.', 'Prefixes listed in no_nsid belong to packages without type names in common with others.',
               'Names that contain $ are reserved for generated names.']
PARAMS = {'quick': {'n': 2}, 'thorough': {'n': 3, 'full': True}}
REACH = ['graph', 'kinds', 'prefixes', 'plain', 'files', 'columns', 'merged', 'dropped', 'same-name', 'cycle']

URI = {'R': 'http://r', 'P': 'http://p', 'Q': 'http://q/x'}
KINDS = ('field', 'vtype', 'ktype', 'fvtype', 'fktype', 'enum', 'pointer', 'fenum', 'fpointer', 'venum', 'kpointer', 'fvenum', 'tag')


def typ(kind, ref, desc):
    """A definition that refers to the given type names."""
    o, b, fs = [], 'Record', [[1, 'a', 'String', [], '']]
    r = list(ref)
    if kind == 'field':
        fs += [[i + 2, 'bcd'[i], x, ['[0'], 'f'] for i, x in enumerate(r)]
    elif kind == 'tag':
        fs = [[1, 'a', 'Integer', [], '']] + [[i + 2, 'bcd'[i], x, ['&1', ']0', 'L'], 'f'] for i, x in enumerate(r)]
    elif kind == 'vtype':
        b, o, fs = 'ArrayOf', ['*' + r[0], '{1'], []
    elif kind == 'ktype':
        b, o, fs = 'MapOf', ['+' + r[0], '*' + r[-1], '}5'], []
    elif kind == 'venum':
        b, o, fs = 'ArrayOf', ['q', '*#' + r[0]], []
    elif kind == 'kpointer':
        b, o, fs = 'MapOf', ['+>' + r[0], '*String'], []
    elif kind in ('enum', 'pointer'):
        b, o, fs = 'Enumerated', [{'enum': '#', 'pointer': '>'}[kind] + r[0], '='], []
    else:
        f = {'fvtype': ['ArrayOf', ['*' + r[0], '[0']], 'fktype': ['MapOf', ['+' + r[0], '*' + r[-1]]], 'fenum': ['Enumerated', ['#' + r[0]]], 'fpointer': ['Enumerated', ['>' + r[0], '[0']],
             'fvenum': ['ArrayOf', ['*#' + r[0]]]}[kind]
        fs = fs + [[2, 'b', f[0], f[1], 'g']]
    return [None, b, o, desc, fs]


class World:
    """Packages with the references between their types: refs[(package, index)] = (kind, [(package, index)])."""

    def __init__(self, sx, names, refs, prefix, roots, array=()):
        self.sx, self.names, self.refs, self.prefix, self.roots = sx, names, refs, prefix, roots
        self.schemas = {}
        for p in names:
            types = []
            for i, n in enumerate(names[p]):
                if (p, i) in refs:
                    kind, to = refs[(p, i)]
                    t = typ(kind, [self.local(p, x) for x in to], f'{p}{i}')
                else:
                    t = [None, 'Enumerated' if i else 'String', [], f'{p}{i}', [[1, 'x:y', '*A']] if i else []]
                t[0] = n
                types.append(t)
            info = {'package': URI[p], 'title': 'about ' + p}
            if prefix.get(p):
                info['namespaces'] = [[a, URI[q]] for q, a in prefix[p].items()] if p in array else {a: URI[q] for q, a in prefix[p].items()}
            if p == 'R':
                info[sx.pick('rootkey', ('roots', 'exports'))] = [names['R'][i] for i in roots]
            self.schemas[p] = {'info': info, 'types': types}

    def local(self, p, x):
        q, i = x
        return self.names[q][i] if q == p else self.prefix[p][q] + ':' + self.names[q][i]

    def reachable(self):
        seen = []
        todo = [('R', i) for i in self.roots]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.append(x)
                if x in self.refs:
                    todo += self.refs[x][1]
        return seen

    def judge(self, tag, got, root, qualified=True):
        sx = self.sx
        sx.check(got[0] == 'ok', f'{tag}: a package with its imports present is not resolved', got[1])
        s = got[1]
        want = self.reachable()
        info = {k: v for k, v in root['info'].items() if k != 'namespaces'}
        sx.check(sx.same(s['info'], info), f'{tag}: package information changes', (s['info'], info))
        sx.check(len(s['types']) == len(want), f'{tag}: not every reachable type once', (s['types'], want))
        new = {}
        for t in s['types']:
            sx.check(len(t) == 5, f'{tag}: columns are missing', t)
            d = t[3]
            k = (d[0], int(d[1]))
            sx.check(k in want and k not in new, f'{tag}: a type is not reachable or occurs twice', t)
            new[k] = t[0]
        names = [t[0] for t in s['types']]
        for i in range(len(names)):
            sx.check(names[i] not in names[:i], f'{tag}: two types with one name', names)
            sx.check(':' not in names[i], f'{tag}: a namespace prefix is left', names)
        for k in new:
            if k[0] == 'R' or not qualified:
                sx.check(new[k] == self.names[k[0]][k[1]], f'{tag}: a type is renamed', (k, new[k]))
        for t in s['types']:
            k = (t[3][0], int(t[3][1]))
            orig = [x for x in self.schemas[k[0]]['types'] if x[3] == t[3]][0]
            w = orig
            if k in self.refs:
                kind, to = self.refs[k]
                w = typ(kind, [new[x] for x in to], t[3])
            sx.check(t[1] == w[1] and sx.same(t[2], w[2]) and sx.same(t[4], w[4]), f'{tag}: a definition changes', (t, w))
        total = 0
        for p in self.names:
            total += len(self.names[p])
        if len(want) < total:
            sx.reach('dropped')
        if [k for k in want if k[0] != 'R']:
            sx.reach('merged')
        if any(a != b and self.names[a[0]][a[1]] == self.names[b[0]][b[1]] for a in want for b in want):
            sx.reach('same-name')
        sx.reach(tag)


def names(sx, p, n, sym=True):
    out = []
    for i in range(n):
        x = sx.str(f'{p}{i}', 1, 1, 'ABC') if sym else p + 'T' + str(i)
        sx.assume(x not in out)
        out.append(x)
    return out


def run(sx, w, tag, files=None, inside=True, **kw):
    root = sx.deepcopy(w.schemas['R'])
    if files is None:
        files = {f'{p.lower()}.jadn': json.dumps(w.schemas[p]) for p in w.schemas if p != 'R' or inside}
    d = sx.dir(files)
    r = sx.call(resolve_imports, root, d, **kw)
    sx.check(sx.same(root, w.schemas['R']), f'{tag}: the input schema is changed', root)
    return r


def trust(sx):
    """What check accepts is the subject of C18."""
    sx.stub('jadn.core', 'check', lambda x: x)
    sx.stub('jadn.transform.resolve', 'check', lambda x: x)


PRE = {'R': {'P': 'p', 'Q': 'q'}, 'P': {'Q': 'q', 'R': 'r'}, 'Q': {'P': 'p', 'R': 'r'}}


def target(sx, n, own, nm):
    return sx.pick(n, [(q, i) for q in nm for i in range(len(nm[q]))])


def graph(sx):
    """Every reference graph; equal names in different packages."""
    trust(sx)
    nm = {'R': ['A', 'B'], 'P': names(sx, 'P', 2), 'Q': names(sx, 'Q', 1)}
    refs = {}
    refs[('R', 0)] = ('field', [target(sx, 'r0', 'R', nm)] + ([target(sx, 'r0b', 'R', nm)] if sx.p('full') and sx.bool('two') else []))
    refs[('P', 0)] = (sx.pick('kind', ('field', 'fvenum') if sx.p('full') else ('field',)), [target(sx, 'p0', 'P', nm)])
    refs[('Q', 0)] = ('vtype', [target(sx, 'q0', 'Q', nm)])
    if sx.bool('p1'):
        refs[('P', 1)] = ('enum', [target(sx, 'p1t', 'P', nm)])
    if ('R', 0) in refs[('Q', 0)][1]:
        sx.reach('cycle')
    w = World(sx, nm, refs, PRE, [0])
    w.judge('graph', run(sx, w, 'graph'), w.schemas['R'])


def kinds(sx):
    """Every way to refer to a type, from every package; two roots."""
    trust(sx)
    nm = {'R': ['A', 'B'], 'P': names(sx, 'P', 2), 'Q': names(sx, 'Q', 2)}
    k0, k1 = sx.pick('k0', KINDS), sx.pick('k1', KINDS)
    refs = {('R', 0): (k0, [('P', 0), sx.pick('o', (('P', 1), ('R', 1), ('Q', 0)))] if k0 in ('field', 'ktype', 'fktype', 'tag') else [('P', 0)]), ('P', 0): (k1, [sx.pick('t', (('Q', 1), ('R', 1), ('P', 1)))])}
    w = World(sx, nm, refs, PRE, sx.pick('roots', ([0], [0, 1], [1])))
    w.judge('kinds', run(sx, w, 'kinds'), w.schemas['R'])


def prefixes(sx):
    """Prefixes are local to their package."""
    trust(sx)
    nm = {'R': ['A', 'B'], 'P': ['A', 'C'], 'Q': ['A', 'B']}
    pre = {}
    for p in 'RPQ':
        a, b = [q for q in 'RPQ' if q != p]
        x, y = sx.str(p + 'x', 1, 1, 'pqa'), sx.str(p + 'y', 1, 1, 'pqa')
        sx.assume(x != y)
        pre[p] = {a: x, b: y}
        if sx.bool(p + 'rev'):
            pre[p] = {b: y, a: x}
    if not sx.bool('all'):
        del pre['R']['Q']       # the root does not import Q itself
    if sx.bool('self'):
        pre['P']['P'] = 'me'
    refs = {('R', 0): ('field', [('P', 0)] + ([('Q', 1)] if 'Q' in pre['R'] else [])), ('P', 0): ('ktype', [('Q', 0), ('P', 1)]), ('Q', 0): ('venum', [('R', 1)])}
    w = World(sx, nm, refs, pre, [0], 'RPQ' if sx.bool('array') else '')
    if 'P' in pre['P']:
        w.schemas['P']['types'][0][2] = w.schemas['P']['types'][0][2][:1] + ['*me:C'] + w.schemas['P']['types'][0][2][2:]
    w.judge('prefixes', run(sx, w, 'prefixes', inside=sx.bool('inside')), w.schemas['R'])


def plain(sx):
    """no_nsid: types of these packages keep their names."""
    trust(sx)
    nm = {'R': ['A', 'B'], 'P': ['C', 'D'], 'Q': ['E']}
    refs = {('R', 0): ('field', [('P', 0), target(sx, 'r', 'R', nm)]), ('P', 0): (sx.pick('k', KINDS), [target(sx, 'p', 'P', nm)]), ('Q', 0): ('vtype', [target(sx, 'q', 'Q', nm)])}
    w = World(sx, nm, refs, PRE, [0])
    w.judge('plain', run(sx, w, 'plain', no_nsid=('p', 'q', 'r')), w.schemas['R'], False)


def files(sx):
    """Other files in the directory."""
    trust(sx)
    nm = {'R': ['A', 'B'], 'P': ['A', 'C'], 'Q': ['D']}
    refs = {('R', 0): ('field', [('P', 0)]), ('P', 0): ('vtype', [('Q', 0)])}
    w = World(sx, nm, refs, PRE, [0])
    fs = {'%s%s' % (sx.pick('n' + p, ('a', 'z')) if p == 'P' else 'm' + p, '.jadn'): json.dumps(w.schemas[p]) for p in 'RPQ'}
    other = {'info': {'package': 'http://other', 'namespaces': {'p': 'http://q/x', 'x': 'http://p'}}, 'types': [['A', 'String', [], 'Z0', []]]}
    k = sx.pick('other', ('none', 'text', 'package', 'twice', 'jidl'))
    if k == 'text':
        fs['a.txt'] = 'no schema'
        fs['README'] = ''
    elif k == 'package':
        fs[sx.pick('o', ('a0', 'zz')) + '.jadn'] = json.dumps(other)
    elif k == 'twice':
        fs['zzz.jadn'] = json.dumps(w.schemas[sx.pick('dup', ('R', 'P', 'Q'))])
    elif k == 'jidl':
        fs['q2.jidl'] = jadn.convert.jidl_dumps(w.schemas['Q'])
        del fs['mQ.jadn']
    w.judge('files', run(sx, w, 'files', fs), w.schemas['R'])


def columns(sx):
    """Rows without their last columns; the result is an accepted schema."""
    nm = {'R': ['A', 'B'], 'P': ['A', 'B'], 'Q': ['A']}
    refs = {('R', 0): ('field', [('R', 1), ('P', 1)]), ('P', 1): ('enum', [('Q', 0)]), ('Q', 0): ('vtype', [('P', 0)])}
    w = World(sx, nm, refs, PRE, [0])
    for p in 'RPQ':
        for t in w.schemas[p]['types']:
            if t[4] == [] and sx.bool(f'cut.{t[3]}'):
                del t[4]
    r = run(sx, w, 'columns')
    for p in 'RPQ':
        for t in w.schemas[p]['types']:
            t += [[]][:5 - len(t)]
    w.judge('columns', r, w.schemas['R'])
    sx.check(sx.call(jadn.check, r[1])[0] == 'ok', 'columns: the result is not accepted', r[1])


HARNESSES = {'graph': graph, 'kinds': kinds, 'prefixes': prefixes, 'plain': plain, 'files': files, 'columns': columns}
