"""Programs for conformance.py.  The first letter of an argument says what it is: i int, b bool, f float, y bytes, v any value,
l list of ints, d dict, t list of texts, p one of the defaults, anything else text over the alphabet given as default."""
import collections
import functools
import itertools
import operator
import re
import string
import json
import copy
import enum
import contextlib
from collections import defaultdict, OrderedDict, Counter, namedtuple, ChainMap, deque
from dataclasses import dataclass, field
from functools import reduce, partial, lru_cache
from itertools import chain, groupby, zip_longest, islice, takewhile, dropwhile, accumulate, product, starmap, count, repeat
from operator import itemgetter, attrgetter


def is_true(b, v):
    return v is True, v is False, v is None, b is True, b is not False


def match_seq(l):
    match l:
        case []:
            return 'empty'
        case [x]:
            return 'one', x
        case [0, *rest]:
            return 'zero', rest
        case [a, b, *_] if a == b:
            return 'same', a
        case _:
            return 'other'


def match_map(d):
    match d:
        case {'a': x, **rest}:
            return x, rest
        case {'b': 1}:
            return 'b1'
        case {}:
            return 'any'


def match_cls(v):
    match v:
        case bool(x):
            return 'bool', x
        case int(x) | float(x):
            return 'num', x
        case str() as s if s:
            return 'str', s
        case str(''):
            return 'empty'
        case None:
            return 'none'
        case list() | dict():
            return 'cont'
        case _:
            return 'other'


def match_lit(s='ab'):
    match s:
        case 'a' | 'b' as x:
            return x
        case '':
            return 0
        case 'ab':
            return 1
    return None


def match_tuple(s, i):
    match s, i:
        case '', 0:
            return 1
        case '', n:
            return n
        case t, (1 | 2):
            return t
        case (x, y) if y < 0:
            return x
    return 9


def loop_while(s):
    n = 0
    while n < len(s) and s[n] == 'a':
        n += 1
    else:
        n += 10
    return n


def for_else(t):
    for x in t:
        if x == '=':
            break
    else:
        return 'none'
    return x


def gen(l):
    def g():
        for x in l:
            if x > 1:
                yield x
    return list(g()), sum(g()), max(g(), default=None)


def gen_send(l):
    def acc():
        tot = 0
        while True:
            x = yield tot
            if x is None:
                return
            tot += x
    a = acc()
    next(a)
    return [a.send(x) for x in l]


def dict_ops(d, s='ab'):
    e = dict(d)
    e.update({s: 5})
    x = e.pop('a', None)
    e.setdefault('b', 7)
    f = {**d, **e}
    g = d | e
    return e, x, f, g, f == g, list(e.items()), sorted(e), s in d, d.get(s), d.get(s, 3)


def dict_comp(t):
    return {k: i for i, k in enumerate(t)}, {k for k in t}, [k for k in t if k], {k: v for k, v in zip(t, range(9)) if k != '='}


def default_dict(t):
    d = defaultdict(list)
    for i, x in enumerate(t):
        d[x].append(i)
    return dict(d), len(d), sorted(d)


def counter(t):
    c = Counter(t)
    return dict(c), c['a'], c.most_common(1)[0][1] if c else 0, [k for k, v in c.items() if v > 1]


def ordered(t):
    d = OrderedDict()
    for x in t:
        d[x] = 1
        d.move_to_end(x)
    return list(d), list(dict.fromkeys(t))


def zips(t, l):
    return list(zip(t, l)), list(zip_longest(t, l, fillvalue=None)), list(zip(*[(1, 2), (3, 4)])), [x for p in zip(t, l) for x in p]


def chained(t, l):
    return list(chain(t, l)), list(chain.from_iterable([t, l])), list(islice(t, 2)), list(takewhile(lambda x: x < 2, l)), list(dropwhile(lambda x: x < 2, l))


def grouped(l):
    return [(k, len(list(g))) for k, g in groupby(sorted(l))]


def sort_key(t):
    return sorted(t, key=len), sorted(t, key=lambda x: (len(x), x), reverse=True), sorted(enumerate(t), key=itemgetter(1)), min(t, key=len, default=None)


def sort_in(l):
    a = list(l)
    a.sort(reverse=True)
    b = a[::-1]
    b.reverse()
    return a, b, list(reversed(l)), a == b


def list_ops(l, i):
    a = l[:]
    a.append(i)
    a.extend([1, i])
    a.insert(0, 9)
    x = a.pop()
    a += [x]
    n = a.count(1)
    j = a.index(9)
    if i in l:
        a.remove(i)
    del a[0]
    a[0:1] = [7, 8]
    return a, x, n, j, a * 2, [0] * 3


def unpack(l):
    try:
        a, *b = l
    except ValueError as e:
        return 'short'
    *c, d = l
    (e, f), g = (a, d), c
    return a, b, c, d, e, f, g


def walrus(s):
    if (n := len(s)) > 1 and (x := s[0]) != 'a':
        return n, x
    return n


def ternary(i, b):
    return 'neg' if i < 0 else 'zero' if not i else 'pos' if b else i


def boolops(v, i, s):
    return v or i or s, v and i and s, not v, bool(v), (v or 'x'), (i and s)


def any_all(l, t):
    return any(x > 1 for x in l), all(x > 1 for x in l), any(t), all(t), any(map(len, t)), sum(1 for x in t if x)


def mapfilter(t, l):
    return list(map(str.upper, t)), list(filter(None, t)), list(map(lambda a, b: (a, b), t, l)), list(filter(lambda x: x % 2, l))


def reduce_(l, t):
    return reduce(lambda a, b: a + b, l, 0), reduce(operator.or_, l, 0), reduce(lambda a, b: {**a, b: len(a)}, t, {}), list(accumulate(l))


def partial_(s):
    f = partial(str.split, s)
    g = functools.partial(lambda a, b, c=3: (a, b, c), 1, c=s)
    return f('='), g(2)


def str_ops(s):
    return (s.upper(), s.lower(), s.strip(), s.lstrip('a'), s.rstrip(' ='), s.split('='), s.split(), s.partition('='), s.rpartition('='),
            s.replace('a', 'bb'), s.startswith('a'), s.endswith(('a', '=')), s.find('='), s.rfind('a'), s.count('a'), s.title(), s.capitalize())


def str_ops2(s):
    return (s.removeprefix('a'), s.removesuffix('='), s.isdigit(), s.isalpha(), s.isalnum(), s.isidentifier(), s.islower(), s.isspace(),
            s.zfill(4), s.ljust(4, '.'), s.rjust(4), s.center(5, '*'), s.splitlines(), s.swapcase(), s.casefold(), s.rsplit('=', 1), s[::-1], s * 2)


def str_ops3(s, i):
    return s[i:], s[:i], s[-1:], s[1:-1], i, s[i] if 0 <= i < len(s) else None


def str_join(t):
    return ','.join(t), ''.join(sorted(t)), ', '.join(f'<{x}>' for x in t), '='.join(map(str, range(3)))


def formats(s, i, b):
    return f'{s}|{i}|{b}', f'{s!r}', f'{s:>4}|{s:<4}|{s:^5}', f'{i:03d}' if i >= 0 else '', '%s-%d' % (s, i), '{}:{}'.format(s, i), '{0}{x}'.format(s, x=i), str(i), repr(i), f'{i=}'


def formats2(s, i):
    return '%s' % s, '%-4s|' % s, '%(a)s' % {'a': s}, format(s, '>5'), format(i, 'd'), '{:>{w}}'.format(s, w=5), f"{s:{'>'}{4}}", string.Template('$x!').substitute(x=s)


def translate(s):
    return s.translate(str.maketrans({'a': 'x', '=': None})), s.translate(str.maketrans('ab', 'cd'))


def regex(s):
    m = re.match(r'(a+)(=)?(?P<r>.*)$', s)
    return (m.groups(), m.group('r'), m.group(0), m.start(2), m.groupdict(), m[1]) if m else None, re.sub('a', 'X', s), re.findall('[ab]', s), re.split('=', s), bool(re.fullmatch('[ab]*', s)), re.search('=|1', s) is None


def regex2(s):
    r = re.compile(r'\s*(\w)(?:\s*=\s*(\w))?', re.ASCII)
    return [m.groups() for m in r.finditer(s)], r.sub(lambda m: m.group(1).upper(), s), re.sub(r'(\w)=', r'\1:', s), re.escape(s)


def ints(s='0123456789-+ _x'):
    return int(s)


def int_base(s='01aAfFgx_'):
    return int(s, 16)


def floats(s='01.e-'):
    return float(s)


def int_ops(i, j='1'):
    return i + 1, i - 2, i * 3, i // 2, i % 3, -i, abs(i), i ** 2, divmod(i, 3), i & 3, i | 4, i ^ 1, i << 1, i >> 1, ~i, min(i, 3), max(i, 0), i == 3, 0 < i < 5, 0 <= i <= 3 <= 5


def int_ops2(i):
    return str(i), hex(i), bin(i), chr(i + 60), i.bit_length(), float(i), bool(i), i.__index__(), round(i), int(i), range(i)[-1] if i > 0 else None


def rng(i):
    return list(range(i)), [j for j in range(0, i, 2)], i in range(3), list(range(i, 0, -1))


def try_(s='01a'):
    try:
        n = int(s)
    except ValueError:
        return 'bad'
    except (TypeError, KeyError) as e:
        return 'type'
    else:
        n += 1
    finally:
        m = 3
    return n, m


def try_fin(l, i):
    out = []
    try:
        out.append(l[i])
    except IndexError as e:
        out.append('ie')
    finally:
        out.append('f')
    return out


def raises(i):
    if i < 0:
        raise ValueError(f'neg {i}')
    if i == 0:
        raise KeyError(i)
    assert i > 1, 'one'
    return i


def raise_from(s='01a'):
    try:
        int(s)
    except ValueError as e:
        raise TypeError(f'bad {s}') from e
    return 1


def suppress(d):
    with contextlib.suppress(KeyError):
        return d['a']
    return 'no'


def getitem_(d, s='abc'):
    return d[s]


def hashed(t, s='ab='):
    return s in set(t), len(set(t)), len(frozenset(t)), set(t) & {'a', '='}, set(t) - {s}, {s} <= set(t), set(t).isdisjoint({s}), set(t) | {s}, sorted(set(t) ^ {s})


def set_ops(t, s='ab='):
    x = set()
    for a in t:
        x.add(a)
    x.discard(s)
    x.update({'z'})
    y = x.copy()
    y -= {'z'}
    x |= y
    return x, y, x >= y, x == y, x.union(y, ['q']), x.intersection(y), x.difference(y), x.issuperset(y), sorted(x)


def tuple_keys(s='ab', i=0):
    d = {('a', 1): 'x', ('b', 2): 'y', s: 3, i: 4}
    return d.get((s, i)), (s, 1) in d, d[i], len(d)


def cmp_(s, i, v):
    return s == v, v == i, v != s, s != i, v in (1, 'a', None), v in [i, s], v not in {1, 2} if not isinstance(v, (list, dict)) else 0


def order(s, t):
    return s < 'a', s >= 'b', s <= 'aa' < 'b', [x > s for x in t], max(t, default=''), min([s, *t]), (s, 1) < ('a', 2), [s] > ['a']


def types(v):
    return (isinstance(v, str), isinstance(v, (int, float)), type(v) is int, type(v) == str, type(v).__name__, isinstance(v, bool), type(v) in (list, dict),
            v.__class__.__name__, callable(v), hasattr(v, 'items'), hasattr(v, 'upper'), issubclass(type(v), int), isinstance(v, collections.abc.Mapping),
            isinstance(v, collections.abc.Sequence), isinstance(v, int | str))


def closures(i):
    n = 0

    def inc(k=2):
        nonlocal n
        n += k
        return n
    inc(i)
    inc()
    return n, [f() for f in [lambda x=x: x + i for x in range(3)]]


def classes(s, i):
    class A:
        x = 1

        def __init__(self, v):
            self.v = v

        @property
        def w(self):
            return self.v + 1

        @staticmethod
        def st(a):
            return a

        @classmethod
        def mk(cls, a):
            return cls(a)

        def __eq__(self, o):
            return self.v == o.v

        def __len__(self):
            return 2

        def __getitem__(self, k):
            return (k, self.v)

        def __contains__(self, k):
            return k == self.v

        def __iter__(self):
            yield self.v

        def __call__(self, k):
            return k

    a = A.mk(i)
    setattr(a, 'z', s)
    return a.w, A.st(s), a == A(3), len(a), a[s], i in a, list(a), a(s), getattr(a, 'z'), getattr(a, 'q', None), a.x


@dataclass
class _D:
    a: str
    b: int = 0
    c: list = field(default_factory=list)


_N = namedtuple('_N', 'x y z', defaults=(None,))


class _E(enum.Enum):
    A = 'a'
    B = 'b'


def dataclasses_(s, i):
    d = _D(s, i)
    d.c.append(1)
    n = _N(s, i)
    return d.a, d.b, d.c, d == _D(s, i, [1]), n.x, n.y, n._replace(z=1).z, tuple(n), _N(*'ab').y


def enums(s='abc'):
    try:
        e = _E(s)
    except ValueError:
        return None
    return e.name, e.value, e is _E.A


def bytes_ops(y):
    return y.hex(), len(y), y[:1], list(y), y + b'a', y == b'a', bytes(reversed(y)), b'' == y, y.startswith(b'a'), bytes([x ^ 1 for x in y]), int.from_bytes(y, 'big')


def utf8(s='aé\u0100'):
    b = s.encode()
    return b, b.decode('utf-8'), len(b)


def json_(d, t, i):
    return json.loads(json.dumps({'d': d, 't': t, 'i': i})), json.dumps(t), json.dumps(i, indent=2), json.dumps(d, sort_keys=True)


def copy_(d, l):
    e = copy.deepcopy([d, l])
    e[1].append(1)
    f = copy.copy(d)
    f['q'] = 1
    g = l.copy()
    g.clear()
    return e, f, g, d, l


def nested(t, l):
    return [(x, y) for x in t if x for y in l if y > 1], {x: [y for y in l] for x in t}, [[j * i for j in range(2)] for i in l]


def del_(d, s='ab'):
    if s in d:
        del d[s]
    for k in list(d):
        if d[k] == 0:
            del d[k]
    return d


def kwargs(s, d):
    def f(*a, k=0, **kw):
        return a, k, kw
    return f(s, *[1, 2], k=s), f(**{'k': 1, 'm': s}), f(*s), f(**d)


def lru(s='ab'):
    @lru_cache(maxsize=None)
    def f(x):
        return x + 'z'
    return f(s), f(s), f('a')


def itemget(l, d):
    return [itemgetter(0)(l)] if l else [], list(map(itemgetter(1), d.items())), operator.add(1, len(l)), operator.contains(l, 2), operator.eq(d, {}), operator.not_(l)


def chainmap(d):
    c = ChainMap({'a': 9}, d)
    return c['a'], c.get('b'), 'A' in c, dict(c)


def deque_(l, i):
    q = deque(l)
    q.append(i)
    q.appendleft(1)
    out = []
    while q:
        out.append(q.popleft())
    return out


def iters(l):
    it = iter(l)
    a = next(it, None)
    b = list(it)
    e = list(enumerate(l, 1))
    return a, b, e, next((x for x in l if x > 1), 'none'), list(iter([1, 2].pop, 1))


def starmap_(l, t):
    return list(starmap(lambda a, b: (a, b), zip(l, t))), list(product(t, [1])), list(zip(count(), t)), list(zip(t, repeat(1)))


def early(t):
    seen = set()
    return [x for x in t if not (x in seen or seen.add(x))]


def ident(s, l):
    a = l
    return a is l, l is not None, s is None, (lambda x: x is a)(l)


def globs(i):
    global _G
    _G = i
    return _G, globals()['_G']


def slices(l, i):
    return l[i:], l[:i], l[-2:], l[::2], l[slice(1, None)], l[-1] if l else None


def chars(s):
    return [ord(c) for c in s], ''.join(chr(ord(c) + 1) for c in s), {c: s.index(c) for c in s}, set(s), list(s), tuple(s), sorted(s), s and s[0] in 'ab', all(c in 'ab' for c in s), [c for c in s if c.isalnum()], dict.fromkeys(s, 0)


def str_dispatch(s='abc'):
    return {'a': lambda: 1, 'b': lambda: 2}.get(s, lambda: 3)(), {'a': 1}.get(s) or len(s)


def float_ops(f):
    return f + 0 == f, f == int(f) if abs(f) < 100 else None, f < 1, f.is_integer() if abs(f) < 100 else None, isinstance(f, float), -f, abs(f) >= 0


def dict_iter(d):
    out = []
    for k, v in d.items():
        out.append((k, v))
    return out, list(d.keys()), list(d.values()), list(d), max(d.values(), default=0), {v: k for k, v in d.items()}, sorted(d.items(), key=lambda kv: kv[1]), d.keys() & {'a'}, d.keys() - {'a'}, d.items() >= {('a', 1)}, next(iter(d), None), list(reversed(d)), dict(sorted(d.items())), dict(zip(d, d.values())), d == {'a': 1}


def popitem(d):
    if d:
        return d.popitem(), d
    d.clear()
    return d


def strict_zip(t, l):
    return list(zip(t, l, strict=True))


def lists_eq(l, t):
    return l == [1], l != [1, 2], t == ['a', 'b'], (1, 2) == tuple(l), [] == l, l < [1, 2], [t] == [['a']]


def in_tuple(s):
    return s in ('a', 'b'), s in 'ab', s in {'a': 1}, s in ['aa', 'A'], s not in frozenset(('a',)), 'a' in s, 'ab' in s


def while_pop(t):
    out = []
    work = list(t)
    while work:
        x = work.pop(0)
        if not x:
            continue
        out.append(x)
    return out


def recursion(v):
    def walk(x):
        if isinstance(x, dict):
            return {k: walk(y) for k, y in x.items()}
        if isinstance(x, (list, tuple)):
            return [walk(y) for y in x]
        return str(x) if isinstance(x, int) and not isinstance(x, bool) else x
    return walk([v, {'k': v}])


def global_re(s):
    return _RE.sub('', s), bool(_RE.match(s))


_RE = re.compile('[a-c]+')


def getattr_dyn(s='ab'):
    return getattr(s, 'upper')(), getattr(str, 'lower')(s), str.join('-', [s, s]), getattr(operator, 'eq')(s, 'a')


def assign_multi(i, d):
    a = b = c = i
    a, b = b + 1, a
    d['x'] = d['y'] = i
    d['x'] += 1
    return a, b, c, d


def with_cls(s):
    class C:
        def __enter__(self):
            return s

        def __exit__(self, *a):
            return a[0] is ValueError
    with C() as x:
        raise ValueError
    return x


def text_wrap(s):
    import textwrap
    return textwrap.indent(s, '> '), textwrap.dedent(' ' + s), textwrap.shorten(s, 10)


def io_(t):
    import io
    f = io.StringIO()
    for x in t:
        f.write(x)
        print(x, file=f)
    return f.getvalue()


def bisect_(l, i):
    import bisect
    return bisect.bisect(sorted(l), i)


def sum_lists(l, t):
    return sum([[x] for x in l], []), sum((len(x) for x in t), start=1), len([*l, *t]), [*range(2), *l], (*t, 1), {**{x: 1 for x in t}}


def compare_types(v):
    return {str: 's', int: 'i', bool: 'b', float: 'f', list: 'l', dict: 'd', type(None): 'n'}[type(v)], {'str': 1}.get(type(v).__name__, 0), type(v) in {int, str}


def singledispatch_(v):
    @functools.singledispatch
    def f(x):
        return 'other'

    @f.register
    def _(x: str):
        return 'str'

    @f.register(int)
    def _(x):
        return 'int'
    return f(v)


def setdefault_(t):
    d = {}
    for i, x in enumerate(t):
        d.setdefault(x, []).append(i)
    return d


def sort_pairs(d):
    return sorted(d.items()), sorted(d, key=d.get), sorted(d, key=str.lower), sorted(((v, k) for k, v in d.items()), reverse=True)


def contains_none(t, v):
    return [x for x in [v, None, ''] if x], [x for x in (v,) if x is not None], v in (None, ''), v == '' or v is None


# ------------------------------------------------------------------ second group
def bool_index(i, s):
    return ['no', 'yes'][i > 2], 'x' * (i > 0), (i > 1) + (i > 2), ('a', 'b')[bool(s)], sum([i > 0, i > 5]), int(i > 3), [1, 2, 3][i > 0:], {True: 'T', False: 'F'}[i == 3], str(i > 1), not i > 1


def bool_cmp(i, s):
    return (i > 1) == (s == 'a'), (i > 1) != bool(s), (i > 1) is (i > 1) or None, (i > 1) & (s > 'a'), (i > 1) | True, (i > 1) ^ True, (i > 3) < (i > 2), (i > 1) == 1, hash_free(i > 1)


def hash_free(b):
    return {False: 0, True: 1}.get(b)


def ctxmgr(s, i):
    log = []

    @contextlib.contextmanager
    def cm(x):
        log.append('in' + x)
        try:
            yield x
        except ValueError:
            log.append('err')
        finally:
            log.append('out')
    with cm(s) as y, cm('q'):
        if i > 3:
            raise ValueError(s)
        log.append(y)
    return log


def wraps_(s, i):
    def deco(n):
        def d(f):
            @functools.wraps(f)
            def w(*a, **k):
                return (n, f(*a, **k))
            return w
        return d

    @deco(i)
    def g(x, y=2):
        return x, y
    return g(s), g(s, y=i), g.__name__


def inherit(s, i):
    class Base:
        kind = 'base'

        def __init__(self, x):
            self.x = x

        def show(self):
            return f'{self.kind}:{self.x}'

        def __str__(self):
            return 'B' + self.x

        def __lt__(self, o):
            return self.x < o.x

        def __hash__(self):
            return 1

    class Der(Base):
        kind = 'der'

        def __init__(self, x, y):
            super().__init__(x)
            self.y = y

        def show(self):
            return super().show() + '!' * (self.y > 1)

        def __repr__(self):
            return f'Der({self.x!r})'

        def __bool__(self):
            return self.y > 0
    d = Der(s, i)
    return d.show(), str(d), f'{d}', 'T' if d else 'F', isinstance(d, Base), [x.x for x in sorted([d, Base('a')])], not d, bool(d and 1), repr(d)


def yield_from(l, t):
    def a():
        yield from l
        r = yield from b()
        yield r

    def b():
        for x in t:
            yield x
        return len(t)
    return list(a()), dict(enumerate(a())), sorted(map(str, a()))


def exc_custom(i, s):
    class E(ValueError):
        def __init__(self, msg, code):
            super().__init__(msg)
            self.code = code
    try:
        try:
            if i > 5:
                raise E('big', i)
            if i < 0:
                raise KeyError(s)
            {}[s]
        except KeyError as e:
            raise TypeError('k') from e
        finally:
            i = i + 1
    except E as e:
        return e.code, str(e), e.args
    except (TypeError, ValueError) as e:
        return type(e).__name__, str(e), type(e.__cause__).__name__, e.__cause__.args
    return i


def str_exc(s, i):
    try:
        raise ValueError(f'{s}: {i}')
    except Exception as e:
        return str(e), e.args, f'{e}', isinstance(e, ValueError), type(e) is ValueError


def loops(l):
    out = []
    for i in range(len(l)):
        if l[i] == 0:
            continue
        for j in range(i + 1, len(l)):
            if l[j] == l[i]:
                break
            out.append((i, l[j]))
        else:
            out.append('e')
    return out


def loop_idx(t):
    i, n, out = 0, len(t), ''
    while True:
        if i >= n:
            break
        x = t[i]
        i += 2 if x == '=' else 1
        out += x + str(i)
    return out


def build_str(t, l):
    s = ''
    for x in t:
        s += f'{x},'
    s = s[:-1] if s.endswith(',') else s
    lines = []
    lines += [s, *map(str, l)]
    return s, '\n'.join(lines), s.rstrip(','), ''.join(x for x in t if x != '='), ('%s;' * len(t)) % tuple(t)


def nested_get(d, s='ab'):
    e = {'a': {'x': d}, 'b': {}}
    return e.get(s, {}).get('x', {}).get('a'), e.get(s) or 'none', [v for v in e.values() if v], s in e and bool(e[s])


def sort_multi(t, l):
    z = sorted(zip(l, t), key=lambda p: (-p[0], p[1]))
    i = sorted(range(len(t)), key=lambda k: t[k])
    t2 = list(t)
    t2.sort(key=str.lower)
    return z, i, t2, sorted(t, key=lambda x: x == '='), sorted(l, key=lambda x: -x)[:1], min(l, default=None), max(t, default=None, key=lambda x: (len(x), x))


def verbose_re(s):
    p = re.compile(r'''
        (?P<k>[a-z]+)   # key
        \s*=?\s*
        (?P<v>[A-Z0-9-]*)$
    ''', re.VERBOSE | re.I)
    m = p.match(s)
    return m and (m['k'], m['v'], m.span('k'), m.lastgroup), p.groups, p.pattern[:3], re.match('(?i)a', s) is not None


def re_flags(s='a\n=A'):
    return bool(re.search('^a', s, re.M)), re.sub(r'(?m)$', '!', s), re.findall(r'.', s), re.findall(r'.', s, re.S), re.split(r'(\n)', s), re.subn('a', 'b', s), re.match('a?$', s) is None, re.fullmatch('a?', s) is None


def re_more(s='ab=1'):
    return re.search(r'a(?=b)', s) is None, re.search(r'(?<!a)b', s) is None, re.findall(r'(a)|(b)', s), re.search(r'(a|b)\1', s) is None, re.sub(r'a+?', '-', s), re.match(r'[^\W\d]+', s) is None, re.sub('(a)(b)?', r'\2\g<1>', s)


def lookup_tbl(s='ab=', i=0):
    tbl = (('a', 1), ('b', 2), ('=', i))
    d = dict(tbl)
    inv = {v: k for k, v in d.items()}
    return next((v for k, v in tbl if k == s), None), d.get(s), inv.get(i), [k for k, v in tbl if v == i], len(inv), dict(a=1, **{'b': i}), {**d, s: 9}


def filter_keys(d):
    keep = {k: v for k, v in d.items() if k.islower() and v}
    drop = [k for k in d if k not in keep]
    for k in drop:
        d.pop(k)
    return keep == d, keep, d, bool(drop)


def swap(d, s='ab', u='AB'):
    d[u] = d.pop(s, None)
    d = {k: v for k, v in d.items() if v is not None}
    return d, list(d.items())[-1:] if d else None


def del_slice(l):
    a = list(l)
    del a[:1]
    b = a[:]
    b[len(b):] = [9]
    b[:0] = [8]
    a.clear()
    return a, b, l


def lists2(l, i):
    m = [[0] * 2 for _ in l]
    for k, x in enumerate(l):
        m[k][x > 1] += x
    return m, [x for r in m for x in r], list(map(sum, m)), [list(c) for c in zip(*m)], l + [i], [i] + l, i in l and l.index(i), l.count(i)


def tuples(s, i):
    a = (s, i)
    x, y = a
    return a == (x, y), a + (1,), a[0], a[-1], a * 2, len(a), (s,) < ('b',), a in [(s, i)], {a: 1}[(s, i)], hash_eq(a)


def hash_eq(a):
    return a in {('a', 1), ('b', 2)}


def isinst(v):
    num = (int, float)
    return isinstance(v, num) and not isinstance(v, bool), isinstance(v, (list, tuple, set)), isinstance(v, type(None)), isinstance(v, object), isinstance(v, collections.abc.Iterable), isinstance(v, collections.abc.Hashable), type(v) in num, type(v) is type('') or type(v) is dict, isinstance(v, numbers_())


def numbers_():
    import numbers
    return numbers.Number


def coerce(v):
    try:
        return int(v)
    except (TypeError, ValueError):
        pass
    try:
        return len(v)
    except TypeError:
        return None


def coerce2(v):
    try:
        return v + 1
    except TypeError as e:
        return 'te'


def coerce3(v):
    try:
        return sorted(v), list(v), max(v, default=0)
    except TypeError:
        return 'te'


def coerce4(v):
    try:
        return v['a']
    except TypeError:
        return 'te'
    except KeyError:
        return 'ke'
    except IndexError:
        return 'ie'


def coerce5(v, i):
    try:
        return v[i]
    except (TypeError, KeyError) as e:
        return type(e).__name__
    except IndexError:
        return 'ie'


def coerce6(v):
    try:
        return v < 3, v > 'a'
    except TypeError:
        return 'te'


def attr_err(v):
    try:
        return v.items() and 1
    except AttributeError:
        pass
    try:
        return v.upper()
    except AttributeError:
        return 'ae'


def in_err(v, s):
    try:
        return s in v
    except TypeError:
        return 'te'


def iter_err(v):
    try:
        return [x for x in v]
    except TypeError:
        return 'te'


def unpack_err(v):
    try:
        a, b = v
    except TypeError:
        return 'te'
    except ValueError:
        return 've'
    return a, b


def hash_err(v):
    try:
        return {v: 1} and len({v, 1})
    except TypeError:
        return 'te'


def json_fmt(v):
    return json.dumps(v), json.dumps([v], indent=1), json.dumps({'k': v}, separators=(',', ':')), json.loads(json.dumps(v)) == v


def str_val(v):
    return str(v), f'{v}', '%s' % (v,), '{}'.format(v), repr(v)


def eq_val(v, i, s):
    return v == i, v == s, v == [i], v == {s: 1}, v == True, v == None, v != 0, v in [i, s], [v] == [i]


def ordval(s, i):
    return [c for c in s if ord(c) > 64 + i], [chr(ord('a') + i)] if 0 <= i < 26 else [], s < chr(97), ''.join(reversed(s)), s[::2], [a + b for a, b in zip(s, s[1:])]


def digits_(s='01a-'):
    return s.isdigit() and int(s), s.lstrip('-').isdigit(), s.zfill(3), sum(int(c) for c in s if c.isdigit()), [int(c, 16) for c in s if c != '-'], s.isdecimal(), s.isnumeric()


def num_txt(i, j=3):
    return str(i).zfill(3), f'{i:>4}', f'{i:<4}|', f'{i:^5}', f'{i:+d}', f'{i:x}', f'{i:,}', '%03d' % i, '%+d' % i, f'{i:4d}', f'{str(i):>4}', len(str(i)), int(str(i)) == i, '{:02}'.format(i), str(i)[0], '-' in str(i)


def arith(i, l):
    return i % 4, i // 4, -i % 4, divmod(-i, 4), i * i, (i + 1) ** 2, 2 ** i if i >= 0 else None, i / 2, sum(l) / max(1, len(l)), max(l, default=0) - min(l, default=0), i & 7, 1 << i if 0 <= i < 5 else 0, sum(x * x for x in l)


def clamp(i, l):
    lo, hi = (l + [0, 0])[:2]
    return min(max(i, lo), hi), lo <= i <= hi, lo <= i < hi, not lo <= i, (lo, hi) <= (i, i), max(lo, hi, i), max([lo, i]), sorted([i, lo, hi])[1]


def opt_chain(v):
    return (v if isinstance(v, str) else None) or 'dflt', v and v, (v or {}) if isinstance(v, dict) else 0, [] if v is None else [v], None if not v else 1


def lists3(t):
    it = iter(t)
    pairs = list(zip(it, it))
    d = {}
    for a, b in pairs:
        d.setdefault(a, set()).add(b)
    return pairs, {k: sorted(v) for k, v in d.items()}, t[:len(t) // 2], [x for i, x in enumerate(t) if t.index(x) == i]


def graph(l):
    deps = {i: {x for x in l[:i]} for i in range(len(l))}
    out = []
    while deps:
        leaf = [k for k, v in deps.items() if not v - set(out)]
        if not leaf:
            break
        out.append(leaf[0])
        del deps[leaf[0]]
    return out, sorted(deps)


def mutual(i):
    def even(n):
        return True if n <= 0 else odd(n - 1)

    def odd(n):
        return False if n <= 0 else even(n - 1)
    return even(i), odd(i)


def gen_state(t):
    class It:
        def __init__(self, x):
            self.x, self.i = x, 0

        def __iter__(self):
            return self

        def __next__(self):
            if self.i >= len(self.x):
                raise StopIteration
            self.i += 1
            return self.x[self.i - 1]
    return list(It(t)), ''.join(It(t)), [*It(t)], dict(zip(It(t), It(t))), tuple(It(t)), sum(1 for _ in It(t)), next(It(t), None)


def stringio2(t):
    import io
    with io.StringIO() as f:
        f.writelines(x + '\n' for x in t)
        f.write('end')
        s = f.getvalue()
    g = io.StringIO(s)
    return s, [x.strip() for x in g], io.StringIO(s).read(), io.StringIO(s).readline()


def any_gen(s, t):
    return any(s.startswith(x) for x in t), all(x in s for x in t), next((i for i, x in enumerate(t) if x == s), -1), [x for x in t if not any(x == y for y in 'ab')], sum(s.count(x) for x in 'ab'), max((len(x) for x in t), default=0), any(c in '=-' for c in s)


def match_deep(v, i):
    match [v, i]:
        case [{'a': 1} | {'b': 1}, _]:
            return 'ab'
        case [[0 | 1 as x, *_], n] if n > 0:
            return x, n
        case [str() | None, 3]:
            return 3
        case [bool(), _] | [_, 0]:
            return 'bz'
        case [int() | float() as x, int(y)]:
            return x, y
        case [dict(), _]:
            return 'd'
    return 'no'


def match_cls2(s, i):
    match _D(s, i):
        case _D(a='a', b=x) if x > 1:
            return 'a', x
        case _D('b', y):
            return 'b', y
        case _D(a=str(z)):
            return z
    return None


def match_enum(s='ab'):
    try:
        e = _E(s)
    except ValueError:
        return 0
    match e:
        case _E.A:
            return 1
        case _E.B:
            return 2


def dataclass2(s, i):
    import dataclasses
    d = _D(s, i)
    return dataclasses.asdict(d), dataclasses.replace(d, b=3).b, [f.name for f in dataclasses.fields(d)], d == _D(s, i), d != _D('a', i), vars(d) == {'a': s, 'b': i, 'c': []}


def set_build(t, s):
    a = {x for x in t}
    b = set()
    b |= a
    b ^= {s}
    c = a.symmetric_difference([s])
    a.difference_update({'a'})
    return sorted(a), sorted(b), sorted(c), b == c, len(a | b), a < b, frozenset(a) == a, {*a, *b} == a | b, bool(a & b), max(a, default=''), sorted(a.union(*[[x] for x in t]))


def default2(t, l):
    d = defaultdict(int)
    for x in t:
        d[x] += 1
    e = defaultdict(lambda: [0])
    for x, n in zip(t, l):
        e[x][0] += n
    f = defaultdict(dict)
    f['a'][t[0] if t else ''] = 1
    return dict(d), {k: v for k, v in e.items()}, dict(f), d['a'], 'zz' in d, d.get('q'), e.pop('a', 0)


def counter2(t, l):
    c, d = Counter(t), Counter(a=2)
    e = c + d
    c.update(['a'])
    c['b'] += 2
    return dict(c), dict(e), dict(c - d), dict(c & d), sorted(c.elements()), sum(c.values()), max(c, key=c.get), c.most_common(), Counter(l) == Counter(sorted(l)), [k for k in c if c[k] > 1]


def ordered2(t):
    d = OrderedDict((x, i) for i, x in enumerate(t))
    if d:
        d.popitem(last=False)
    d['z'] = 0
    d.move_to_end('z', last=False)
    return list(d.items()), dict(d), d == OrderedDict(d), d == dict(d), list(reversed(d)), d.pop('a', 5), len(d)


def lru2(t):
    calls = []

    @functools.cache
    def f(x, y=0):
        calls.append(x)
        return x + 'q'
    return [f(x) for x in t], calls


def cmpkey(l):
    return sorted(l, key=functools.cmp_to_key(lambda a, b: b - a)), sorted(l, key=operator.neg), max(l, key=lambda x: -x, default=0)


def opfuncs(l, s, d):
    return list(map(operator.add, l, l)), operator.methodcaller('upper')(s), operator.itemgetter(0, -1)(l) if l else 0, operator.lt(s, 'a'), operator.ne(s, 'a'), list(map(operator.not_, l)), operator.or_({s}, {'a'}) == {s, 'a'}, reduce(operator.add, map(str, l), ''), operator.attrgetter('a')(_D(s)), list(map(dict.get, [d], [s])), list(map(d.get, 'ab')), list(filter(s.startswith, 'ab')), list(filter(str.isdigit, s)), list(map(s.find, 'ab')), list(map(len, [l, s, d]))


def views(d, s='ab'):
    k = d.keys()
    return k - {s}, k | {s}, {s} - k, k & {s}, k ^ {s}, k == {s}, k <= {s, 'B'}, s in k, ('a', 1) in d.items(), 1 in d.values(), len(k), sorted(k), set(d) == k, k.isdisjoint([s]), set(d.items()) == d.items(), list(d.items())[0] if d else 0


def iter_more(l, t):
    return list(itertools.pairwise(l)), list(itertools.batched(t, 2)), list(itertools.filterfalse(None, l)), list(itertools.compress(t, l)), list(accumulate(l, max)), list(accumulate(l, initial=1)), list(itertools.combinations(l, 2)), list(itertools.permutations(t, 2))[:2], [list(g) for k, g in groupby(t, key=bool)], list(islice(l, 1, None)), list(zip(l, itertools.cycle('ab')))


def partial2(s, i):
    f = partial(int, base=16)
    g = partial(sorted, reverse=True)
    h = partial(max, 3)
    return f('ff'), g(s), h(i), partial(partial(lambda *a, **k: (a, k), s, x=i), y=1)(2), list(map(partial(operator.mul, 2), [i]))


def fmt3(s, i, b):
    w = 6
    return f'{s:*^{w}}', f'{s!r:>8}', f'{i:0{w}d}' if i >= 0 else 0, f'{{{s}}}', f'{s + "x"}', f'{"a" if b else s}', f'{i > 2}', f'{s.upper():.1}', f'{[s, i]}', f'{ {s: i} }', f'{(s,)}', f'{None}{i}', '{0[0]}{1.imag}'.format([s], 1), '{a}'.format_map({'a': s}), f'{s:s}|{i:d}', f'{s!s:4}|'


def multi_ret(s='a=b'):
    k, sep, v = s.partition('=')
    head, *tail = s.split('=')
    a, b = (s.split('=', 1) + [''])[:2]
    return k, sep, v, head, tail, a, b, s.rpartition('=')[2], s.split('=')[-1], '='.join(s.split('=')) == s, [x.strip() for x in s.split('=') if x]


def chr_class(s):
    return [c.isupper() for c in s], s.upper().lower() == s.lower(), s.swapcase(), s.istitle() if False else 0, s.isascii(), s.isprintable(), [c for c in s if c in string.ascii_letters + string.digits], s.translate({ord('a'): 'bb'}), ''.join(c if c.isalnum() else '_' for c in s)


def nonlocal_(t):
    seen, count_ = set(), 0

    def visit(x):
        nonlocal count_
        if x in seen:
            return False
        seen.add(x)
        count_ += 1
        return True
    r = [visit(x) for x in t]
    return r, count_, len(seen)


def star_args(l, s):
    def f(a, /, *rest, k, **kw):
        return a, rest, k, sorted(kw)
    return f(s, *l, k=1), f(*[s, *l], k=2, z=3), (lambda *a: len(a))(*l, *s), max(*l, 0), print(*l) is None


def try_loop(t):
    out = []
    for x in t:
        try:
            if x == '=':
                raise ValueError
            if not x:
                continue
            out.append(x)
        except ValueError:
            out.append('E')
        else:
            out.append('ok')
        finally:
            out.append('.')
    return out


def ret_fin(i):
    def f():
        try:
            return i
        finally:
            if i > 5:
                return 'late'
    return f()


def prop_cls(i, s):
    class P:
        __slots__ = ('_v',)

        def __init__(self, v):
            self._v = v

        @property
        def v(self):
            return self._v

        @v.setter
        def v(self, x):
            self._v = x if x > 0 else 0

        def __add__(self, o):
            return P(self._v + (o._v if isinstance(o, P) else o))

        def __radd__(self, o):
            return self + o

        def __eq__(self, o):
            return isinstance(o, P) and self._v == o._v

        def __setitem__(self, k, v):
            self._v = (k, v)

        def __delitem__(self, k):
            self._v = k
    p = P(1)
    p.v = i
    q = p + 2
    r = sum([p, q])
    x = p == P(3)
    p[s] = i
    y = p.v
    del p['z']
    return q.v, r.v, x, y, p.v, hasattr(p, 'v'), P(1) != P(1)


def walrus2(t):
    return [y for x in t if (y := x.upper())], (n := len(t)) and n + 1, any((hit := x) == '=' for x in t) and hit


def json2(s='{}[]",:1a '):
    try:
        return json.loads(s)
    except json.JSONDecodeError as e:
        return 'bad'


def datetime_(s='0123-T:Z'):
    from datetime import datetime, date, time
    try:
        return date.fromisoformat('2020-01-0' + s).isoformat()
    except ValueError:
        return 'bad'


def base64_(y):
    import base64
    import binascii
    a = base64.b64encode(y)
    return a, base64.b64decode(a), base64.urlsafe_b64encode(y).decode().rstrip('='), binascii.hexlify(y), base64.b16encode(y), y.hex(':') if False else 0, bytes.fromhex(y.hex()) == y


def bytes2(y, i):
    return y.decode('latin-1'), list(y), y + bytes([1]), y in (b'a', b''), b''.join([y, y]), y[0] if y else None, y == bytes(list(y)), len(y) * 8, y.startswith(b'\0'), sum(y), bytearray_(y)


def bytearray_(y):
    return [b >> 4 for b in y] + [b & 15 for b in y]


def comp_cond(l, t):
    return [a if a > 1 else -a for a in l], [(a, b) for a in l for b in t if a and b], {a % 2 for a in l}, {a: b for a, b in zip(t, l) if b}, [[b for b in t if b != a] for a in t], list(x for x in l if x), dict((str(x), x) for x in l), sorted({x for x in t})


def assign_expr(d, s='ab'):
    d[s], d['q'] = 1, d.get(s)
    (d['x'], *d['y']), z = (1, 2, 3), 4
    d['n'] = d2 = {}
    d2[s] = d['x']
    for d['k'] in [5, 6]:
        pass
    return d, z


def find_dup(t):
    return [x for i, x in enumerate(t) if x in t[:i]], len(t) != len(set(t)), {x: t.count(x) for x in t}, [x for x, n in Counter(t).items() if n > 1], list(dict.fromkeys(t)), sorted(set(t), key=t.index)


def ver(s='1.2a'):
    parts = s.split('.')
    return tuple(int(p) if p.isdigit() else p for p in parts), len(parts) > 1 and parts[0] == '1', s.count('.'), s.replace('.', '_', 1), s.find('.') >= 0


def hier(d, s='ab'):
    out = []

    def walk(x, path=()):
        if isinstance(x, dict):
            for k, v in sorted(x.items()):
                walk(v, path + (k,))
        elif isinstance(x, list):
            for i, v in enumerate(x):
                walk(v, (*path, str(i)))
        else:
            out.append('/'.join(path) + f'={x}')
    walk({'d': d, 'l': [s, {'z': s}]})
    return out


def typed(v):
    table = {str: lambda x: x.upper(), int: lambda x: x + 1, bool: lambda x: not x, list: len, dict: lambda x: sorted(x), type(None): lambda x: 0, float: lambda x: 0}
    return table[type(v)](v), table.get(v.__class__) is not None, [t.__name__ for t in table if isinstance(v, t)]


def lens(v):
    n = len(v) if hasattr(v, '__len__') else -1
    return n, bool(n > 0), hasattr(v, '__iter__'), hasattr(v, 'keys'), getattr(v, 'real', None) is not None


def rng_big(i):
    return i in range(-2 ** 63, 2 ** 63), i in range(1, 6, 2), i in range(5, -5, -3), i in range(0), i in range(2, 2 ** 70)


def b64_text(y):
    import base64
    t = base64.b64encode(y).decode('ascii')
    u = t.translate(str.maketrans('+/', '-_')).rstrip('=')
    w = t.replace('+', '-').replace('/', '_')
    return u, w, base64.urlsafe_b64decode(w) == y, t.translate({43: None, 47: '__'})


def hex_pct(y):
    return ''.join('%02x' % b for b in y), ''.join(f'{b:02X}' for b in y), [f'{b:x}' for b in y], '%3x|%04X' % (y[0], y[0]) if y else ''
