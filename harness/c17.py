"""C17: strip_comments changes descriptions only, to at most the requested width."""
import jadn
from jadn.transform import strip_comments
from jadn.utils import etrunc

BOUNDS = ('Schemas with every base type, with and without fields, 4 or 5 columns per type; every description is symbolic text of 0..5 characters (thorough: 0..9) over the whole character universe '
          '(one long and the others short, each in turn); the width is a symbolic integer 0..12, or 10^6, or absent, or None. Names, options and info values are arbitrary texts of one character.')
ASSUMPTIONS = ['Negative widths are outside the property.']
PARAMS = {'quick': {'n': 5}, 'thorough': {'n': 9}}
REACH = ['fits', 'cut', 'zero', 'one', 'wide', 'none', 'default']

BASES = ('Enumerated', 'Choice', 'Array', 'Map', 'Record')
PLAIN = ('Binary', 'Boolean', 'Integer', 'Number', 'String', 'ArrayOf', 'MapOf')


def expected(sx, s, w):
    """What is left of description s at width w."""
    if w is None or len(s) <= w:
        return s
    if w < 2:
        return s[:w]
    n = 0
    while n < w - 2:        # w is symbolic: find it by comparison
        n += 1
    return s[:n] + '..'


def widths(sx, n):
    k = sx.pick('width', ('sym', 'zero', 'none', 'big', 'default'))
    if k == 'sym':
        return (sx.int('w', 0, n + 3),)
    return {'zero': (0,), 'none': (None,), 'big': (10 ** 6,), 'default': ()}[k]


def run(sx, schema, descs):
    """descs: list of (path, text)"""
    w = widths(sx, sx.p('n', 5))
    orig = sx.deepcopy(schema)
    out = strip_comments(schema, *w)
    sx.check(sx.same(schema, orig), 'the original schema is modified', schema)
    if not w:
        sx.reach('default')
    w = w[0] if w else 0
    want = sx.deepcopy(orig)
    for path, s in descs:
        at = want['types']
        for p in path[:-1]:
            at = at[p]
        at[path[-1]] = expected(sx, s, w)
        sx.reach('none' if w is None else 'fits' if len(s) <= w else 'cut')
    sx.reach('zero' if not w else 'wide' if w >= 2 else 'one')
    sx.check(sx.same(out, want), 'strip_comments: wrong result', (out, want))


def fields(sx):
    b = sx.pick('base', BASES)
    n = sx.pick('nf', (0, 1, 2))
    where = sx.pick('long', list(range(n + 1)))
    ds = [sx.str(f'd{i}', 0, sx.p('n', 5)) if i == where else sx.str(f'd{i}', 0, 1) for i in range(n + 1)]
    nm = sx.str('name', 1)
    if b == 'Enumerated':
        fs = [[i + 1, nm, ds[i + 1]] for i in range(n)]
    else:
        fs = [[i + 1, nm, 'String', ['/' + nm], ds[i + 1]] for i in range(n)]
    schema = {'info': {'package': 'http://x', 'description': nm}, 'types': [['S', 'String', ['%' + nm], ''], ['T', b, ['='], ds[0], fs]]}
    fd = 2 if b == 'Enumerated' else 4
    run(sx, schema, [((1, 3), ds[0])] + [((1, 4, i, fd), ds[i + 1]) for i in range(n)])


def plain(sx):
    d = [sx.str('d0', 0, sx.p('n', 5)), sx.str('d1', 0, 1)]
    bs = [PLAIN[sx.pick('b', list(range(len(PLAIN))))], 'Boolean']
    five = [sx.bool('five'), True]
    if sx.bool('swap'):
        bs.reverse(), five.reverse(), d.reverse()
    schema = {'types': [[f'T{i}', bs[i], ['*String', '+String'], d[i]] + ([[]] if five[i] else []) for i in (0, 1)]}
    run(sx, schema, [((i, 3), d[i]) for i in (0, 1)])


def trunc(sx):
    """etrunc on its own: longer texts."""
    s = sx.str('s', 0, sx.p('n', 5) + 7)
    w = sx.int('w', 0, 20)
    r = etrunc(s, w)
    sx.check(len(r) <= w, 'etrunc: longer than the width', (s, w, r))
    sx.check(sx.same(r, expected(sx, s, w)), 'etrunc: wrong result', (s, w, r))


HARNESSES = {'fields': fields, 'plain': plain, 'trunc': trunc}
