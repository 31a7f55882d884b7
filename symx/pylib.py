"""
Pure Python forms of library functions that CPython has in C.  This file is instrumented like the code under test, so that they work
on symbolic values; rt/models route calls of the native functions here.
"""
import collections
import io


# ---- itertools
class groupby:
    def __init__(self, iterable, key=None):
        self.groups = []
        for x in iterable:
            k = x if key is None else key(x)
            if self.groups and self.groups[-1][0] == k:
                self.groups[-1][1].append(x)
            else:
                self.groups.append((k, [x]))
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.groups):
            raise StopIteration
        self.i += 1
        k, g = self.groups[self.i - 1]
        return k, iter(g)


def takewhile(pred, xs):
    for x in xs:
        if not pred(x):
            break
        yield x


def dropwhile(pred, xs):
    on = False
    for x in xs:
        if not on and pred(x):
            continue
        on = True
        yield x


def filterfalse(pred, xs):
    for x in xs:
        if not (x if pred is None else pred(x)):
            yield x


def starmap(f, xs):
    for a in xs:
        yield f(*a)


def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d


def accumulate(xs, func=None, *, initial=None):
    it = iter(xs)
    if initial is not None:
        tot = initial
    else:
        try:
            tot = next(it)
        except StopIteration:
            return
    yield tot
    for x in it:
        tot = tot + x if func is None else func(tot, x)
        yield tot


def from_iterable(xs):
    for x in xs:
        for y in x:
            yield y


def pairwise(xs):
    it = iter(xs)
    try:
        a = next(it)
    except StopIteration:
        return
    for b in it:
        yield a, b
        a = b


def batched(xs, n):
    out = []
    for x in xs:
        out.append(x)
        if len(out) == n:
            yield tuple(out)
            out = []
    if out:
        yield tuple(out)


# ---- functools
def lru_cache(maxsize=128, typed=False):
    def deco(f):
        cache = {}

        def wrapper(*args, **kw):
            key = (args, tuple(kw.items()), tuple(type(a) for a in args) if typed else None)
            for k, v in cache.items():
                if k == key:
                    return v
            hash_check(key)
            r = f(*args, **kw)
            cache[key] = r
            return r
        wrapper.__wrapped__ = f
        wrapper.__name__ = getattr(f, '__name__', 'f')
        wrapper.cache_clear = cache.clear
        return wrapper
    if callable(maxsize):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


def hash_check(key):
    {key: 1}


def cache(f):
    return lru_cache(None)(f)


def cmp_to_key(cmp):
    class K:
        def __init__(self, obj):
            self.obj = obj

        def __lt__(self, o):
            return cmp(self.obj, o.obj) < 0

        def __gt__(self, o):
            return cmp(self.obj, o.obj) > 0

        def __le__(self, o):
            return cmp(self.obj, o.obj) <= 0

        def __ge__(self, o):
            return cmp(self.obj, o.obj) >= 0

        def __eq__(self, o):
            return cmp(self.obj, o.obj) == 0
    return K


def singledispatch(func):
    registry = {object: func}

    def dispatch(cls):
        for c in cls.__mro__:
            if c in registry:
                return registry[c]
        best = None
        for c in registry:
            if issubclass(cls, c) and (best is None or issubclass(c, best)):
                best = c
        return registry[best]

    def register(cls, f=None):
        if f is None:
            if isinstance(cls, type):
                return lambda g: register(cls, g)
            f = cls
            import typing
            cls = next(iter(typing.get_type_hints(f).values()))
        for c in getattr(cls, '__args__', (cls,)):
            registry[c] = f
        return f

    def wrapper(*args, **kw):
        return dispatch(type(args[0]))(*args, **kw)
    wrapper.register = register
    wrapper.dispatch = dispatch
    wrapper.registry = registry
    wrapper.__name__ = getattr(func, '__name__', 'f')
    return wrapper


# ---- bisect
def bisect_right(a, x, lo=0, hi=None, *, key=None):
    hi = len(a) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if x < (a[mid] if key is None else key(a[mid])):
            hi = mid
        else:
            lo = mid + 1
    return lo


def bisect_left(a, x, lo=0, hi=None, *, key=None):
    hi = len(a) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if (a[mid] if key is None else key(a[mid])) < x:
            lo = mid + 1
        else:
            hi = mid
    return lo


def insort_right(a, x, lo=0, hi=None, *, key=None):
    a.insert(bisect_right(a, x if key is None else key(x), lo, hi, key=key), x)


def insort_left(a, x, lo=0, hi=None, *, key=None):
    a.insert(bisect_left(a, x if key is None else key(x), lo, hi, key=key), x)


# ---- collections
class Counter(collections.Counter):
    def __init__(self, iterable=None, /, **kw):
        if iterable is not None:
            self.update(iterable)
        for k in kw:
            self[k] = self.get(k, 0) + kw[k]

    def __missing__(self, key):
        return 0

    def update(self, iterable=None, /, **kw):
        if iterable is not None:
            if isinstance(iterable, collections.abc.Mapping):
                for k, v in iterable.items():
                    self[k] = self.get(k, 0) + v
            else:
                for x in iterable:
                    self[x] = self.get(x, 0) + 1
        for k in kw:
            self[k] = self.get(k, 0) + kw[k]

    def subtract(self, iterable=None, /, **kw):
        for k, v in Counter(iterable, **kw).items():
            self[k] = self.get(k, 0) - v

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return r if n is None else r[:n]

    def elements(self):
        return [k for k, v in self.items() for _ in range(v)]

    def total(self):
        return sum(self.values())

    def copy(self):
        return Counter(self)

    def _merge(self, other, f):
        r = Counter()
        for k in [*self, *[x for x in other if x not in self]]:
            n = f(self.get(k, 0), other.get(k, 0))
            if n > 0:
                r[k] = n
        return r

    def __add__(self, other):
        return self._merge(other, lambda a, b: a + b)

    def __sub__(self, other):
        return self._merge(other, lambda a, b: a - b)

    def __or__(self, other):
        return self._merge(other, lambda a, b: max(a, b))

    def __and__(self, other):
        return self._merge(other, lambda a, b: min(a, b))


class OrderedDict(dict):
    def __init__(self, *a, **kw):
        self.update(*a, **kw)

    def move_to_end(self, key, last=True):
        v = self.pop(key)
        rest = [] if last else list(self.items())
        if not last:
            self.clear()
        self[key] = v
        for k, x in rest:
            self[k] = x

    def popitem(self, last=True):
        if not self:
            raise KeyError('dictionary is empty')
        k = list(self)[-1 if last else 0]
        return k, self.pop(k)

    def copy(self):
        return OrderedDict(self)


class ChainMap(collections.abc.MutableMapping):
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, key):
        for m in self.maps:
            if key in m:
                return m[key]
        raise KeyError(key)

    def get(self, key, default=None):
        return self[key] if key in self else default

    def __contains__(self, key):
        return any(key in m for m in self.maps)

    def __iter__(self):
        d = {}
        for m in reversed(self.maps):
            d.update(dict.fromkeys(m))
        return iter(d)

    def __len__(self):
        return len(list(iter(self)))

    def __setitem__(self, key, value):
        self.maps[0][key] = value

    def __delitem__(self, key):
        del self.maps[0][key]

    def keys(self):
        return list(iter(self))

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]


# ---- io
class StringIO(io.StringIO):
    def __init__(self, initial='', newline='\n'):
        self.parts = [initial] if initial else []
        self.pos = 0

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError(f'string argument expected, got {type(s).__name__!r}')
        if self.pos != len(self.parts):
            self.seek(0, 2)
        self.parts.append(s)
        self.pos = len(self.parts)
        return len(s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def getvalue(self):
        return ''.join(self.parts)

    def seek(self, pos, whence=0):
        self.parts = list(self.getvalue()) if whence == 0 and pos else [self.getvalue()]
        self.pos = pos if whence == 0 else len(self.parts)
        return pos

    def tell(self):
        return sum(map(len, self.parts[:self.pos]))

    def read(self, n=-1):
        r = ''.join(self.parts[self.pos:])
        self.pos = len(self.parts)
        return r

    def readlines(self):
        return self.read().splitlines(True)

    def readline(self):
        lines = self.read().splitlines(True)
        self.parts = lines[1:]
        self.pos = 0
        return lines[0] if lines else ''

    def __iter__(self):
        return iter(self.readlines())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None
