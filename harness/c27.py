"""C27: flat and nested forms of data."""
from jadn.utils import dlist, flatten, fluff, hdict

BOUNDS = ('Nested data of up to three levels: every tree with up to two (thorough: three) members per dict or list; keys are texts of one or two arbitrary characters other than the separator, with or without a namespace prefix, or numerals; leaves are symbolic '
          'numbers and texts, Booleans and None; the separator is the default or any text of one or two characters. A list of up to 12 elements.')
ASSUMPTIONS = ['No empty dicts and lists; no dict whose keys are exactly the numerals 0..n-1; keys that share a dict differ after removal of prefixes.']
PARAMS = {'quick': {'w': 2}, 'thorough': {'w': 3, 'full': True}}
REACH = ['dict', 'list', 'long', 'prefix', 'sep', 'hdict']


def text(sx, n, sep, hi=1):
    k = sx.str(n, 1, hi)
    for c in k:
        sx.assume(c != ':' and c not in sep)
    return k


def key(sx, n, sep):
    """(key, key without prefix)"""
    k = sx.pick(n + '.kind', ('any', 'ns', 'num'))
    if k == 'num':
        return ('1', '1')
    t = text(sx, n, sep)
    if k == 'ns':
        sx.reach('prefix')
        return (sx.str(n + '.p', 0, 1, 'ab9') + ':' + t, t)
    return (t, t)


def leaf(sx, n):
    k = sx.pick(n + '.leaf', ('int', 'str', 'none', 'bool'))
    return sx.int(n, -9, 99) if k == 'int' else sx.str(n, 0, 1) if k == 'str' else None if k == 'none' else False


def tree(sx, n, sep, depth, path, leaves):
    """(data, data without prefixes); appends (path, value) of every leaf."""
    k = 'dict' if n == '' else 'leaf' if not depth or n[1:2] in ('b', '1') and not sx.p('full') else sx.pick(n + '.t', ('leaf', 'dict', 'list'))
    if k == 'leaf':
        v = leaf(sx, n) if not leaves else len(leaves)
        leaves.append((path, v))
        return v, v
    m = sx.pick(n + '.n', list(range(1, (sx.p('w', 2) if len(n) < (2 if n[:1] in ('', 'a') or sx.p('full') else 1) else 1) + 1)))
    if k == 'list':
        sx.reach('list')
        xs = [tree(sx, n + str(i), sep, depth - 1, path + [str(i)], leaves) for i in range(m)]
        return [x for x, _ in xs], [y for _, y in xs]
    sx.reach('dict')
    a, b = {}, {}
    for i in range(m):
        ns, t = key(sx, n + 'abc'[i], sep) if i == 0 and len(n) < 2 or len(n) == 0 and sx.p('full') else ('k' + str(i), 'k' + str(i))
        sx.assume(t not in b)
        x, y = tree(sx, n + 'abc'[i], sep, depth - 1, path + [t], leaves)
        a[ns], b[t] = x, y
    sx.assume(not all(str(i) in b for i in range(m)))
    return a, b


def judge(sx, a, b, sep, leaves):
    kw = {} if sep is None else {'sep': sep}
    s = '.' if sep is None else sep
    a0 = sx.deepcopy(a)
    flat = flatten(a, **kw)
    sx.check(sx.same(a, a0), 'flatten modifies its input', a)
    sx.check(len(flat) == len(leaves), 'not one entry per leaf', (a, flat))
    for (k, v), (path, want) in zip(flat.items(), leaves):
        sx.check(k == s.join(path) and sx.same(v, want), 'an entry is wrong', (a, flat))
    f0 = sx.deepcopy(flat)
    nested = fluff(flat, **kw)
    sx.check(sx.same(flat, f0), 'fluff modifies its input', flat)
    got = dlist(nested)
    sx.check(sx.same(got, b), 'the nested data differ', (a, flat, got))


def trees(sx):
    leaves = []
    a, b = tree(sx, '', '.', sx.p('depth', 3), [], leaves)
    judge(sx, a, b, None, leaves)


def seps(sx):
    sep = sx.str('sep', 1, 2)
    sx.assume(':' not in sep and '0' not in sep and '1' not in sep)
    leaves = []
    k, j = text(sx, 'k', sep, 2), text(sx, 'j', sep)
    sx.assume(k != j and k != '0' and k != '1' and j != '0' and j != '1')
    v = sx.int('v', 0, 9)
    kind = sx.pick('kind', ('dict', 'list', 'deep'))
    a = {k: {k: v, j: 'x'}, j: None} if kind == 'dict' else {k: [v, {j: v}], j: {k: [1]}} if kind == 'list' else {k: {k: {j: {k: v, j: [v, v]}}}}
    leaves = [([k, k], v), ([k, j], 'x'), ([j], None)] if kind == 'dict' else [([k, '0'], v), ([k, '1', j], v), ([j, k, '0'], 1)] if kind == 'list' else [([k, k, j, k], v), ([k, k, j, j, '0'], v), ([k, k, j, j, '1'], v)]
    judge(sx, a, a, sep, leaves)
    sx.reach('sep')


def long(sx):
    n = sx.pick('n', (1, 2, 9, 10, 11, 12))
    xs = [sx.int('x' + str(i), 0, 9) if i in (0, n - 1) else i for i in range(n)]
    k = text(sx, 'k', '.')
    sx.assume(k != '0')
    judge(sx, {k: xs}, {k: xs}, None, [([k, str(i)], x) for i, x in enumerate(xs)])
    sx.reach('long')


def single(sx):
    sep = sx.str('sep', 1, 2)
    n = sx.pick('n', (1, 2, 3))
    ks = [text(sx, 'k' + str(i), sep) for i in range(n)]
    v = leaf(sx, 'v')
    want = v
    for k in ks[::-1]:
        want = {k: want}
    sx.check(sx.same(hdict(sep.join(ks), v, sep), want), 'hdict: another nesting', ks)
    sx.reach('hdict')


HARNESSES = {'trees': trees, 'seps': seps, 'long': long, 'single': single}
