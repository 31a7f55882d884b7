"""
Runtime the instrumented code calls: every call, subscript, membership test, equality, f-string and
dict/set display of the code under test goes through here so that symbolic values behave as Python values.
"""
import os
import builtins
import collections
import copy as _copy
import enum
import functools
import itertools
import numbers
import operator
import sys
import types

import z3

from . import values as V
from .engine import ENG, UIDX, Unsupported, EngineBug, Control, bits_of_set
from .values import (Sym, SymBool, SymInt, SymFloat, SymStr, LazyStr, SymBytes, StrOps, HASH_OK, And, Or, Not,
                     mkbool, has_sym, concrete, is_str, is_bytes, cps, mkstr, mkbytes, to_text)

PRIMS = (int, str, bool, float, bytes, type(None))
MARK = '__symx__'          # global that marks an instrumented module
HANDLERS = {}              # native callable -> model
PATH_METHODS = {}          # name of a method of path objects -> model
METHODS = {}               # (type, method name) -> model
NATIVE_OK = set()          # native callables that are safe on containers with symbolic elements
MODEL_CLASSES = set()      # engine-defined classes usable from code under test
NONDET = {'set_order': False, 'memo': {}}


def handler(*fs):
    def deco(g):
        for f in fs:
            HANDLERS[f] = g
        return g
    return deco


# ------------------------------------------------------------------------------------------- types
def pytype_of(x):
    return x.pytype if isinstance(x, Sym) else type(x)


@handler(type)
def m_type(*a):
    return pytype_of(a[0]) if len(a) == 1 else type(*a)


@handler(isinstance)
def m_isinstance(x, t):
    if isinstance(x, Sym):
        if isinstance(t, tuple):
            return any(m_isinstance(x, u) for u in t)
        if isinstance(t, types.UnionType):
            return any(m_isinstance(x, u) for u in t.__args__)
        return issubclass(x.pytype, t)
    return isinstance(x, t)


def is_(a, b):
    """a is b where one side is True or False."""
    return (bool(a) if isinstance(a, SymBool) else a) is (bool(b) if isinstance(b, SymBool) else b)


def isnot(a, b):
    return not is_(a, b)


def clsof(x):
    return x.pytype if isinstance(x, Sym) else x.__class__


def deco(d):
    """A decorator: its model if there is one."""
    try:
        return HANDLERS.get(d, d)
    except TypeError:
        return d


def kwargs(d):
    """The mapping of **d in a call: keyword names are native texts."""
    if isinstance(d, dict) and any(isinstance(k, Sym) for k in d):
        return {concrete(k) if is_str(k) else k: v for k, v in d.items()}
    return d


def mseq(x, n, star, keep):
    """Parts of a sequence pattern with n members (one of them starred at position star), or None."""
    if isinstance(x, (Sym, str, bytes, bytearray)) or not isinstance(x, collections.abc.Sequence):
        return None
    xs = list(x)
    if star is None:
        return xs if len(xs) == n else None
    if len(xs) < n - 1:
        return None
    end = len(xs) - (n - 1 - star)
    return xs[:star] + ([xs[star:end]] if keep else []) + xs[end:]


def mmap(x, keys, rest):
    from .models import FrozenDict
    if not isinstance(x, (collections.abc.Mapping, FrozenDict)):
        return None
    out = []
    for k in keys:
        if not contains(x, k):
            return None
        out.append(getitem(x, k))
    if rest:
        out.append(mkdict([(k, v) for k, v in x.items() if not contains(keys, k)]))
    return out


MATCH_SELF = (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple)


def mcls(x, cls, npos, names):
    if not call(isinstance, x, cls):
        return None
    if npos and any(issubclass(cls, c) for c in MATCH_SELF) and '__match_args__' not in vars(cls):
        attrs, out = names, [x]
    else:
        attrs, out = [*getattr(cls, '__match_args__', ())[:npos], *names], []
    for a in attrs:
        if not m_hasattr(x, a):
            return None
        out.append(getattr(x, a))
    return out


# ------------------------------------------------------------------------------------------- equality
def eq(a, b):
    """a == b as bool or SymBool, deep."""
    if isinstance(a, Sym):
        return a == b
    if isinstance(b, Sym):
        return b == a
    ta = type(a)
    if ta in PRIMS and type(b) in PRIMS:
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False if isinstance(a, list) != isinstance(b, list) else False
        out = []
        for x, y in zip(a, b):
            r = eq(x, y)
            if r is False:
                return False
            if r is not True:
                out.append(r)
        return And(*out)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        if not has_sym(a) and not has_sym(b):
            return a == b
        out = []
        for k, v in a.items():
            w = dict_get(b, k, MISSING)
            if w is MISSING:
                return False
            r = eq(v, w)
            if r is False:
                return False
            if r is not True:
                out.append(r)
        return And(*out)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if not has_sym(a) and not has_sym(b):
            return a == b
        return len(a) == len(b) and all(contains(b, x) for x in a)
    if isinstance(a, VIEWS) or isinstance(b, VIEWS):
        if isinstance(a, (set, frozenset, *VIEWS)) and isinstance(b, (set, frozenset, *VIEWS)):
            return eq(mkset(list(a)), mkset(list(b)))
        return False
    from .models import FrozenDict
    if isinstance(a, FrozenDict) and isinstance(b, FrozenDict):
        return eq(a.d, b.d)
    if isinstance(a, FrozenDict) and isinstance(b, dict):
        return eq(a.d, b)
    if isinstance(b, FrozenDict) and isinstance(a, dict):
        return eq(a, b.d)
    if hasattr(a, '__dataclass_fields__') and type(a) is type(b):
        return eq(vars(a), vars(b))
    return a == b


def same(a, b):
    """Typed deep equality (1, True and 1.0 differ), as bool or SymBool."""
    ta, tb = pytype_of(a), pytype_of(b)
    if ta is not tb:
        return False
    if ta in (list, tuple):
        if len(a) != len(b):
            return False
        return And(*[same(x, y) for x, y in zip(a, b)])
    if ta is dict:
        if len(a) != len(b):
            return False
        out = []
        for k, v in a.items():
            for k2, v2 in b.items():
                if pytype_of(k) is pytype_of(k2) and bool(eq(k, k2)):
                    out.append(same(v, v2))
                    break
            else:
                return False
        return And(*out)
    if ta is str and hasattr(a, 'root') and hasattr(b, 'root'):
        return same(tree(a.root), tree(b.root))
    if ta is float:
        if isinstance(a, float) and isinstance(b, float):
            return a == b or (a != a and b != b)
        za = a.e if isinstance(a, SymFloat) else z3.FPVal(a, z3.Float64())
        zb = b.e if isinstance(b, SymFloat) else z3.FPVal(b, z3.Float64())
        return mkbool(za == zb)
    return eq(a, b)


def tree(e):
    """Document model as nested lists."""
    return [str(e.tag), e.attrib, e.text, e.tail, [tree(k) for k in e.kids]]


MISSING = object()


def hashable(x):
    if isinstance(x, (list, dict, set, bytearray)):
        return False
    if isinstance(x, tuple):
        return all(hashable(v) for v in x)
    if type(x).__hash__ is None:
        return False
    return True


def need_hashable(x):
    if not hashable(x):
        t = x
        while isinstance(t, tuple):
            t = next(v for v in t if not hashable(v))
        raise TypeError(f"unhashable type: '{pytype_of(t).__name__}'")


def is_native_key(k):
    return not has_sym(k)


def find_key(d, k):
    """The key object of d equal to k, or MISSING (forks when equality is symbolic)."""
    need_hashable(k)
    if is_native_key(k):
        if k in d:
            return k
        for x in d:
            if type(x) not in PRIMS and has_sym(x) and bool(eq(x, k)):
                return x
        return MISSING
    for x in d:
        if x is k:
            return x
    for x in list(d):
        if bool(eq(x, k)):
            return x
    return MISSING


def dict_get(d, k, default=None):
    x = find_key(d, k)
    if x is MISSING:
        return default
    HASH_OK[0] += 1
    try:
        return dict.__getitem__(d, x)
    finally:
        HASH_OK[0] -= 1


def dict_set(d, k, v):
    x = find_key(d, k)
    HASH_OK[0] += 1
    try:
        dict.__setitem__(d, k if x is MISSING else x, v)
    finally:
        HASH_OK[0] -= 1


def dict_del(d, k):
    x = find_key(d, k)
    if x is MISSING:
        raise KeyError(k)
    HASH_OK[0] += 1
    try:
        dict.__delitem__(d, x)
    finally:
        HASH_OK[0] -= 1


def mkdict(pairs):
    d = {}
    sym = False
    for k, v in pairs:
        if type(k) not in PRIMS:
            sym = True
        if not sym:
            d[k] = v
        else:
            dict_set(d, k, v)
    return d


class DS:          # marker for **x inside a dict display
    def __init__(self, d):
        self.d = d


def dictdisplay(items):
    d = {}
    sym = False
    for it in items:
        if isinstance(it, DS):
            for k in it.d.keys():
                sym = sym or type(k) not in PRIMS
                dict_set(d, k, getitem(it.d, k))
        else:
            k, v = it
            sym = sym or type(k) not in PRIMS
            if not sym:
                d[k] = v
            else:
                dict_set(d, k, v)
    return d


def mkset(items, cls=set):
    items = list(items)
    if all(type(x) in PRIMS for x in items):
        s = cls(items)
        return s
    out = []
    for x in items:
        need_hashable(x)
        if not any(bool(eq(x, y)) for y in out):
            out.append(x)
    HASH_OK[0] += 1
    try:
        return cls(out)
    finally:
        HASH_OK[0] -= 1


class CharSet(Sym):
    """set(text) of symbolic text, duplicates not yet resolved."""
    __slots__ = ('cs',)
    pytype = set

    def __init__(self, cs):
        self.cs = cs

    def mat(self):
        return mkset([mkstr([c]) for c in self.cs])

    def __iter__(self):
        return iter(self.mat())

    def __len__(self):
        return len(self.mat())

    def __bool__(self):
        return len(self.cs) > 0

    __hash__ = None

    def __eq__(self, o):
        return eq(self.mat(), o.mat() if isinstance(o, CharSet) else o)

    def outside(self, o):
        """Characters not in the concrete set o of one-character strings, or None if o is something else."""
        if not all(type(x) is str and len(x) == 1 for x in o):
            return None
        pts = {ord(x) for x in o}
        bits = V.bits_of_set(pts)
        return [c for c in self.cs if not V.in_set(c, bits, lambda x: x in pts)]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        m = self.mat()
        return lambda *a, **k: call(getattr(m, n), *a, **k)


def set_find(s, x):
    return find_key(s, x)


def set_diff(a, b):
    if not has_sym(a) and not has_sym(b):
        return a - set(b)
    return mkset([x for x in a if find_key(b, x) is MISSING], type(a))


def set_or(a, b):
    if not has_sym(a) and not has_sym(b):
        return a | set(b)
    return mkset([*a, *b], type(a))


def set_xor(a, b):
    if not has_sym(a) and not has_sym(b):
        return a ^ set(b)
    return mkset([*[x for x in a if find_key(b, x) is MISSING], *[x for x in b if find_key(a, x) is MISSING]], type(a))


def set_and(a, b):
    if not has_sym(a) and not has_sym(b):
        return a & set(b)
    return mkset([x for x in a if find_key(b, x) is not MISSING], type(a))


# ------------------------------------------------------------------------------------------- order of sets
def set_iter(s):
    """Elements of a set in an order chosen by the explorer (when set order is modelled as nondeterministic)."""
    xs = fixed_order(s)
    if NONDET['set_order'] and len(xs) > 1 and any(seeded(x) for x in xs):
        key = tuple(map(repr, xs)) if not has_sym(xs) else None
        memo = NONDET['memo']
        if key is not None and key in memo:
            return list(memo[key])
        out = []
        while len(xs) > 1:
            out.append(xs.pop(ENG.choose(len(xs))))
        out += xs
        if key is not None:
            memo[key] = tuple(out)
        return out
    return xs


def seeded(x):
    """Does the hash of x depend on the hash seed?"""
    if isinstance(x, (tuple, frozenset)):
        return any(seeded(y) for y in x)
    return is_str(x) or isinstance(x, (bytes, SymBytes))


def fixed_order(s):
    xs = list(s)
    try:
        return sorted(xs)           # stable across processes
    except Exception:
        return xs


def it0(x):
    """Iterable whose order cannot show in the result."""
    if isinstance(x, (set, frozenset)):
        return fixed_order(x)
    return it(x)


def it(x):
    """Iterable used by a for loop, comprehension or star expression."""
    if isinstance(x, CharSet):
        x = x.mat()
    if isinstance(x, (set, frozenset)):
        return set_iter(x)
    return x


# ------------------------------------------------------------------------------------------- operators
def contains(c, x):
    if isinstance(c, CharSet):
        return any(bool(eq(mkstr([y]), x)) for y in c.cs)
    if isinstance(c, StrOps):
        return c.__contains__(x)
    if isinstance(c, str):
        if isinstance(x, Sym):
            if not is_str(x):
                raise TypeError(f"'in <string>' requires string as left operand, not {x.pytype.__name__}")
            if len(x) == 1 and len(c) > 1:
                return V.in_set(cps(x)[0], V.bits_of_set(map(ord, c)))
            return SymStr(cps(c)).find(x) >= 0 if c else len(x) == 0
        return x in c
    if isinstance(c, dict):
        if type(x) in PRIMS and x in c:
            return True
        return find_key(c, x) is not MISSING
    if isinstance(c, (set, frozenset)) or isinstance(c, collections.abc.KeysView):
        if type(x) in PRIMS and x in c:
            return True
        return find_key(c, x) is not MISSING
    if isinstance(c, (list, tuple)) or isinstance(c, (collections.abc.ValuesView, collections.abc.ItemsView, types.GeneratorType)) or type(c).__module__ == 'itertools' or type(c) in (zip, map, filter, enumerate, reversed):
        if type(x) in PRIMS and isinstance(c, (list, tuple)) and x in c_native(c):
            return True
        acc = []
        for y in c:
            if y is x:
                return True
            e = eq(y, x)
            if e is True:
                return True
            if e is not False:
                acc.append(e)
        return bool(Or(*acc)) if acc else False
    if isinstance(c, range) and isinstance(x, SymInt):
        if not c:
            return False
        lo, hi = sorted((c[0], c[-1]))
        ok = [x >= lo, x <= hi]
        if abs(c.step) != 1:
            ok.append((x - lo) % abs(c.step) == 0)
        return bool(And(*ok))
    return x in c


def c_native(c):
    return [y for y in c if type(y) in PRIMS]


def getitem(o, i):
    ti = type(i)
    if ti is int:
        to = type(o)
        if to is list or to is tuple:
            return o[i]
    if isinstance(o, dict):
        if ti in PRIMS and (type(o) is dict or i in o):
            try:
                return o[i]
            except KeyError:
                pass
        x = find_key(o, i)
        if x is MISSING:
            m = getattr(type(o), '__missing__', None)
            if m is not None:
                if isinstance(o, collections.defaultdict) and o.default_factory is not None:
                    v = call(o.default_factory)
                    dict_set(o, i, v)
                    return v
                return m(o, i)
            raise KeyError(i)
        HASH_OK[0] += 1
        try:
            return dict.__getitem__(o, x)
        finally:
            HASH_OK[0] -= 1
    if ti is slice:
        if any(isinstance(x, Sym) for x in (i.start, i.stop, i.step)):
            i = slice(*(x.__index__() if isinstance(x, (SymInt, SymBool)) else x for x in (i.start, i.stop, i.step)))
        return o[i]
    if isinstance(i, SymBool):
        i = int(bool(i))
    if isinstance(i, SymInt):
        if type(o) in (str, bytes) and len(o) > 4:
            return table_char(o, i)
        if isinstance(o, (list, tuple, str, bytes, range)) or isinstance(o, Sym):
            return o[sym_index(i, len(o))]
        if hasattr(type(o), '__getitem__'):
            return o[i.__index__()]
    elif isinstance(i, Sym) and isinstance(o, (list, tuple, str, bytes)):
        raise TypeError(f'indices must be integers or slices, not {i.pytype.__name__}')
    return o[i]


def table_char(o, i):
    """Character of a constant text at a symbolic index, as an if-then-else over runs of consecutive code points."""
    n = len(o)
    if bool(Or(i < -n, i >= n)):
        raise IndexError('string index out of range')
    e = i.e if bool(i >= 0) else i.e + n
    cs = [ord(c) for c in o] if isinstance(o, str) else list(o)
    if n == 16 and o in ('0123456789abcdef', '0123456789ABCDEF'):
        return mkstr((V.hex_char(z3.simplify(e), o[-1] == 'F'),))
    runs = []
    for k, c in enumerate(cs):
        if runs and c - k == runs[-1][1]:
            continue
        runs.append((k, c - k))
    t = e + runs[0][1]
    for k, off in runs[1:]:
        t = z3.If(e >= k, e + off, t)
    t = z3.simplify(t)
    if isinstance(o, bytes):
        return mkint(t)
    if all(c in UIDX for c in cs):
        ENG.derived(t, bits_of_set(frozenset(cs)))
    return mkstr((t.as_long(),) if z3.is_int_value(t) else (t,))


def sym_index(i, n):
    if bool(Or(i < -n, i >= n)):
        return n if bool(i >= 0) else -n - 1        # out of range: native access raises IndexError
    return i.__index__()


def setitem(o, i, v):
    if isinstance(o, dict):
        if type(i) in PRIMS and (i in o or not has_symkeys(o)):
            o[i] = v
        else:
            dict_set(o, i, v)
    elif isinstance(i, SymInt) and isinstance(o, list):
        o[sym_index(i, len(o))] = v
    else:
        o[i] = v


def has_symkeys(d):
    return any(type(k) not in PRIMS and has_sym(k) for k in d)


def delitem(o, i):
    if isinstance(o, dict):
        dict_del(o, i)
    elif isinstance(i, SymInt):
        del o[sym_index(i, len(o))]
    else:
        del o[i]


IOPS = {'+': operator.iadd, '-': operator.isub, '|': operator.ior, '&': operator.iand, '*': operator.imul,
        '//': operator.ifloordiv, '%': operator.imod, '/': operator.itruediv, '<<': operator.ilshift,
        '>>': operator.irshift, '^': operator.ixor, '**': operator.ipow}


def augsub(o, i, op, v):
    cur = getitem(o, i)
    setitem(o, i, binop_i(op, cur, v))


def binop_i(op, a, b):
    if isinstance(a, (set, frozenset)) and op in '-|&^':
        r = binop(op, a, b)
        if isinstance(a, set):
            r = list(r)
            a.clear()
            HASH_OK[0] += 1
            try:
                a.update(r)
            finally:
                HASH_OK[0] -= 1
            return a
        return r
    if op == '%':
        return binop(op, a, b)
    return IOPS[op](a, b)


def binop(op, a, b):
    if isinstance(a, CharSet):
        if op == '-' and isinstance(b, (set, frozenset)):
            out = a.outside(b)
            if out is not None:
                return mkset([mkstr([c]) for c in out])
        a = a.mat()
    if isinstance(b, CharSet):
        b = b.mat()
    if op == '%':
        if isinstance(a, str):
            return V.fmt_percent(a, b) if has_sym(b) or NONDET['set_order'] else a % b
        return a % b
    va, vb = isinstance(a, VIEWS), isinstance(b, VIEWS)
    if (va or vb or isinstance(a, (set, frozenset))) and (va or vb or isinstance(b, (set, frozenset))):
        if va and isinstance(b, collections.abc.Iterable) or isinstance(a, (set, frozenset)):
            a = mkset(list(a)) if va else a
            b = mkset(list(b)) if not isinstance(b, (set, frozenset)) else b
            return {'-': set_diff, '|': set_or, '&': set_and, '^': set_xor}[op](a, b)
    if op == '|' and isinstance(a, dict) and isinstance(b, dict):
        d = type(a)()
        for x in (a, b):
            for k, v in x.items():
                dict_set(d, k, v)
        return d
    return {'-': operator.sub, '|': operator.or_, '&': operator.and_, '^': operator.xor}[op](a, b)


def cmpop(op, a, b):
    """<, <=, >, >= where sets with symbolic members are possible."""
    if isinstance(a, CharSet):
        if op == '<=' and isinstance(b, (set, frozenset)):
            out = a.outside(b)
            if out is not None:
                return not out
        a = a.mat()
    if isinstance(b, CharSet):
        b = b.mat()
    if isinstance(a, VIEWS):
        a = mkset(list(a))
    if isinstance(b, VIEWS):
        b = mkset(list(b))
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (has_sym(a) or has_sym(b)):
        if op in ('>', '>='):
            a, b, op = b, a, {'>': '<', '>=': '<='}[op]
        sub = all(find_key(b, x) is not MISSING for x in a)
        return sub and (op == '<=' or len(a) < len(b))
    return {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[op](a, b)


VIEWS = (collections.abc.KeysView, collections.abc.ItemsView)
fjoin = V.fjoin


# ------------------------------------------------------------------------------------------- builtins
@handler(len)
def m_len(x):
    return x.sym_len() if hasattr(x, 'sym_len') else len(x)


@handler(int)
def m_int(*a, **kw):
    if not a:
        return int(**kw)
    x = a[0]
    base = a[1] if len(a) > 1 else kw.get('base', None)
    if is_str(x) and isinstance(x, Sym):
        return V.parse_int(x, 10 if base is None else base)
    if isinstance(x, SymBytes):
        return V.parse_int(x.decode('ascii'), 10 if base is None else base)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return int(bool(x))
    if isinstance(x, SymFloat):
        if ENG.decide(z3.fpIsNaN(x.e)):
            raise ValueError('cannot convert float NaN to integer')
        if ENG.decide(z3.fpIsInf(x.e)):
            raise OverflowError('cannot convert float infinity to integer')
        return int(concrete(x))
    return int(*a, **kw)


@handler(float)
def m_float(*a):
    if a and isinstance(a[0], Sym):
        x = a[0]
        if isinstance(x, SymFloat):
            return x
        if is_str(x) and len(x) == 0:
            raise ValueError("could not convert string to float: ''")
        return float(concrete(x))
    return float(*a)


@handler(str)
def m_str(*a, **kw):
    if not a:
        return str(**kw)
    x = a[0]
    if len(a) > 1 or kw:
        if isinstance(x, SymBytes):
            return x.decode(*a[1:], **kw)
        return str(*concrete(list(a)), **kw)
    return to_text(x)


@handler(repr)
def m_repr(x):
    return V.repr_text(x)


@handler(ascii)
def m_ascii(x):
    return ascii(concrete(x))


@handler(bool)
def m_bool(*a):
    return bool(*a)


@handler(bytes)
def m_bytes(*a, **kw):
    if a and has_sym(a[0]):
        x = a[0]
        if isinstance(x, SymBytes):
            return x
        if is_str(x):
            if len(a) < 2 and 'encoding' not in kw:
                raise TypeError('string argument without an encoding')
            return x.encode(*a[1:], **kw)
        if isinstance(x, SymInt):
            n = x.__index__()
            return bytes(n)
        out = []
        for v in x:
            if isinstance(v, SymInt):
                if bool(Or(v < 0, v > 255)):
                    raise ValueError('bytes must be in range(0, 256)')
                out.append(v.e)
            else:
                out.append(v.__index__())
        return mkbytes(out)
    return bytes(*a, **kw)


@handler(bytearray)
def m_bytearray(*a):
    if a and has_sym(a[0]):
        ENG.abort(Unsupported('bytearray'))
    return bytearray(*a)


@handler(memoryview)
def m_memoryview(x):
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, Sym):
        raise TypeError(f"memoryview: a bytes-like object is required, not '{x.pytype.__name__}'")
    return memoryview(x)


@handler(ord)
def m_ord(c):
    if isinstance(c, Sym):
        if isinstance(c, SymBytes):
            if len(c) != 1:
                raise TypeError('ord() expected a character')
            return c[0]
        if not is_str(c):
            raise TypeError('ord() expected string of length 1')
        a = cps(c)
        if len(a) != 1:
            raise TypeError(f'ord() expected a character, but string of length {len(a)} found')
        return a[0] if isinstance(a[0], int) else SymInt(a[0])
    return ord(c)


@handler(chr)
def m_chr(i):
    if isinstance(i, SymInt):
        if bool(Or(i < 0, i > 0x10ffff)):
            raise ValueError('chr() arg not in range(0x110000)')
        return mkstr([i.e])
    return chr(i)


@handler(set)
def m_set(*a):
    if a and isinstance(a[0], (SymStr, LazyStr)):
        return CharSet(cps(a[0]))
    return mkset(it0(a[0]) if a else [])


@handler(frozenset)
def m_frozenset(*a):
    return mkset(it0(a[0]) if a else [], frozenset)


@handler(dict)
def m_dict(*a, **kw):
    if not a:
        return dict(**kw)
    x = a[0]
    d = {}
    if hasattr(x, 'keys'):
        for k in call(x.keys):
            dict_set(d, k, getitem(x, k))
    else:
        for k, v in x:
            dict_set(d, k, v)
    for k, v in kw.items():
        dict_set(d, k, v)
    return d


@handler(collections.defaultdict)
def m_defaultdict(f=None, *a, **kw):
    d = collections.defaultdict(f)
    m_dict_update(d, *a, **kw)
    return d


@handler(list)
def m_list(*a):
    return list(it(a[0])) if a else []


@handler(tuple)
def m_tuple(*a):
    return tuple(it(a[0])) if a else ()


@handler(sorted)
def m_sorted(x, *, key=None, reverse=False):
    return sorted(it0(x) if key is None else it(x), key=fn(key) if key is not None else None, reverse=reverse)


@handler(map)
def m_map(f, *xs):
    g = fn(f)
    return map(g, *[it(x) for x in xs])


@handler(filter)
def m_filter(f, x):
    return filter(None if f is None else fn(f), it(x))


@handler(any)
def m_any(x):
    return any(it(x))


@handler(all)
def m_all(x):
    return all(it(x))


@handler(enumerate)
def m_enumerate(x, start=0):
    return enumerate(it(x), start.__index__() if isinstance(start, SymInt) else start)


@handler(zip)
def m_zip(*xs, **kw):
    return zip(*[it(x) for x in xs], **kw)


@handler(iter)
def m_iter(*a):
    if len(a) == 1:
        return iter(it(a[0]))
    return iter(*a)


@handler(next)
def m_next(*a):
    return next(*a)


@handler(bin)
def m_bin(v):
    if not isinstance(v, SymInt):
        return bin(v)
    return bin(v.__index__())


@handler(reversed)
def m_reversed(x):
    if isinstance(x, StrOps):
        return iter(list(x)[::-1])
    return reversed(x)


@handler(range)
def m_range(*a):
    return range(*[x.__index__() if isinstance(x, SymInt) else x for x in a])


@handler(sum)
def m_sum(x, /, start=0):
    return sum(it(x), start)


def _minmax(less):
    def f(*a, key=None, default=MISSING):
        xs = list(it(a[0])) if len(a) == 1 else list(a)
        if not xs:
            if default is not MISSING:
                return default
            raise ValueError('empty sequence')
        if key is None and any(isinstance(x, SymInt) for x in xs) and all(isinstance(x, (int, SymInt)) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                c = x < r if less else x > r
                if isinstance(c, SymBool):
                    r = V.mkint(z3.If(c.e, V.i2z(x), V.i2z(r)))
                else:
                    r = x if c else r
            return r
        k = fn(key) if key else (lambda z: z)
        r, kr = xs[0], k(xs[0])
        for x in xs[1:]:
            kx = k(x)
            if bool(kx < kr if less else kx > kr):
                r, kr = x, kx
        return r
    return f


HANDLERS[min] = _minmax(True)
HANDLERS[max] = _minmax(False)


@handler(abs)
def m_abs(x):
    return abs(x)


@handler(round)
def m_round(x, *a):
    if isinstance(x, SymInt) and not a:
        return x
    return round(concrete(x), *a)


@handler(divmod)
def m_divmod(a, b):
    return a // b, a % b


@handler(hash)
def m_hash(x):
    need_hashable(x)
    if has_sym(x):
        ENG.abort(Unsupported('hash()'))
    return hash(x)


@handler(id)
def m_id(x):
    return id(x)


@handler(print)
def m_print(*a, sep=' ', end='\n', file=None, flush=False):
    if file is not None and file not in (sys.stdout, sys.stderr):
        call(file.write, V.fjoin([x for i, v in enumerate(a) for x in ([sep or ' '] if i else []) + [(v, None, '')]] + ['\n' if end is None else end]))
    return None


@handler(format)
def m_format(v, spec=''):
    return V.fmt_value(v, None, spec)


@handler(hex)
def m_hex(v):
    if not isinstance(v, SymInt):
        return hex(v)
    return LazyStr(['-0x', V.int_to_hex(-v)]).force() if bool(v < 0) else LazyStr(['0x', V.int_to_hex(v)]).force()


@handler(getattr)
def m_getattr(o, n, *d):
    n = concrete(n) if isinstance(n, Sym) else n
    return getattr(o, n, *d)


@handler(hasattr)
def m_hasattr(o, n):
    n = concrete(n) if isinstance(n, Sym) else n
    if isinstance(o, Sym):
        return hasattr(o.pytype, n)
    return hasattr(o, n)


@handler(callable)
def m_callable(x):
    return False if isinstance(x, Sym) else callable(x)


@handler(int.from_bytes)
def m_from_bytes(b, byteorder='big', *, signed=False):
    if not isinstance(b, (bytes, bytearray, Sym, list, tuple)):
        b = list(it(b))
    return V.int_from_bytes(b, byteorder, signed=signed) if has_sym(b) else int.from_bytes(b, byteorder, signed=signed)


@handler(bytes.fromhex)
def m_fromhex(s):
    if isinstance(s, Sym):
        if not is_str(s):
            raise TypeError('fromhex() argument must be str')
        from . import models
        a = [c for c in cps(s) if not V.in_set(c, V.B_SPACE)]
        out = []
        if len(a) % 2:
            raise ValueError('non-hexadecimal number found in fromhex() arg')
        for i in range(0, len(a), 2):
            h, l = models.hexval(a[i]), models.hexval(a[i + 1])
            if h is None or l is None:
                raise ValueError('non-hexadecimal number found in fromhex() arg')
            out.append(models.byte_of(h, l))
        return mkbytes(out)
    return bytes.fromhex(s)


@handler(bytes.maketrans)
def m_maketrans(a, b):
    return bytes.maketrans(concrete(a), concrete(b))


@handler(str.maketrans)
def m_smaketrans(*a):
    return str.maketrans(*concrete(list(a)))


@handler(dict.fromkeys)
def m_fromkeys(ks, v=None):
    return mkdict([(k, v) for k in it(ks)])


@handler(functools.reduce)
def m_reduce(f, xs, *init):
    return functools.reduce(fn(f), it(xs), *init)


@handler(_copy.deepcopy)
def m_deepcopy(x, memo=None):
    return deepcopy(x, {})


def deepcopy(x, memo):
    t = type(x)
    if t in PRIMS or isinstance(x, Sym):
        return x
    k = id(x)
    if k in memo:
        return memo[k][0]
    if t is list:
        r = []
        memo[k] = (r, x)
        r.extend(deepcopy(v, memo) for v in x)
        return r
    if t is tuple:
        r = tuple(deepcopy(v, memo) for v in x)
        memo[k] = (r, x)
        return r
    if t in (dict, collections.OrderedDict, collections.defaultdict):
        r = collections.defaultdict(x.default_factory) if t is collections.defaultdict else t()
        memo[k] = (r, x)
        HASH_OK[0] += 1
        try:
            for a, b in x.items():
                r[deepcopy(a, memo)] = deepcopy(b, memo)
        finally:
            HASH_OK[0] -= 1
        return r
    if t in (set, frozenset):
        return mkset([deepcopy(v, memo) for v in x], t)
    if isinstance(x, (type, types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType, range)):
        return x
    if hasattr(t, '__deepcopy__'):
        return x.__deepcopy__(memo)
    if not has_sym(x) and not getattr(t, '__module__', '').startswith(('jadn', 'sym_')):
        return _copy.deepcopy(x)
    r = t.__new__(t)
    memo[k] = (r, x)
    for a, b in vars(x).items():
        object.__setattr__(r, a, deepcopy(b, memo))
    return r


@handler(_copy.copy)
def m_copy(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, dict):
        return x.copy()
    return _copy.copy(x)


def isub(o, k, v):
    setitem(o, k, v)


for _n, _h in dict(eq=eq, ne=lambda a, b: Not(eq(a, b)), lt=lambda a, b: cmpop('<', a, b), le=lambda a, b: cmpop('<=', a, b),
                   gt=lambda a, b: cmpop('>', a, b), ge=lambda a, b: cmpop('>=', a, b), add=lambda a, b: a + b, concat=lambda a, b: a + b,
                   sub=lambda a, b: binop('-', a, b), or_=lambda a, b: binop('|', a, b), and_=lambda a, b: binop('&', a, b), xor=lambda a, b: binop('^', a, b),
                   mod=lambda a, b: binop('%', a, b), mul=lambda a, b: a * b, floordiv=lambda a, b: a // b, truediv=lambda a, b: a / b, neg=lambda a: -a,
                   lshift=lambda a, b: a << b, rshift=lambda a, b: a >> b, not_=lambda a: not a, truth=bool, contains=contains,
                   getitem=getitem, setitem=isub, delitem=delitem, is_=lambda a, b: a is b, is_not=lambda a, b: a is not b,
                   iadd=lambda a, b: IOPS['+'](a, it(b)), ior=lambda a, b: binop_i('|', a, b), index=lambda a: a.__index__(), abs=abs, pos=lambda a: +a).items():
    HANDLERS[getattr(operator, _n)] = _h

for _f in (operator.itemgetter, operator.attrgetter, operator.methodcaller, itertools.chain, itertools.repeat, itertools.count, itertools.islice,
           itertools.product, itertools.combinations, itertools.permutations, itertools.zip_longest,
           super, object, slice, setattr, delattr, vars, dir, issubclass, open, staticmethod, classmethod,
           property, isinstance, collections.defaultdict, collections.OrderedDict, collections.deque,
           functools.partial, functools.wraps, BaseException.with_traceback, itertools.chain.from_iterable, globals, locals):
    NATIVE_OK.add(_f)

SEQ_FNS = {itertools.chain, itertools.islice, itertools.product, itertools.combinations, itertools.permutations, itertools.zip_longest,
           itertools.takewhile, itertools.dropwhile, itertools.accumulate, itertools.groupby, itertools.starmap, itertools.filterfalse,
           itertools.chain.from_iterable, itertools.cycle, collections.OrderedDict, collections.deque, collections.Counter,
           functools.reduce, dict.fromkeys, min, max, sum}
LIST_OK = {'append', 'insert', 'pop', 'reverse', 'copy', 'clear', 'index', 'count', 'remove', '__len__', '__iter__'}


def m_list_sort(self, *, key=None, reverse=False):
    return self.sort(key=fn(key) if key is not None else None, reverse=reverse)


METHODS[(list, 'sort')] = m_list_sort
METHODS[(list, 'extend')] = lambda self, x: self.extend(list(it(x)))
METHODS[(list, 'pop')] = lambda self, *i: self.pop(*[x.__index__() if isinstance(x, SymInt) else x for x in i])
METHODS[(list, '__getitem__')] = getitem
METHODS[(list, '__contains__')] = contains
METHODS[(dict, '__getitem__')] = getitem
METHODS[(dict, '__contains__')] = contains
METHODS[(dict, '__setitem__')] = setitem
METHODS[(dict, 'get')] = lambda self, k, d=None: dict_get(self, k, d)


def m_dict_setdefault(self, k, d=None):
    v = dict_get(self, k, MISSING)
    if v is MISSING:
        dict_set(self, k, d)
        return d
    return v


def m_dict_pop(self, k, *d):
    x = find_key(self, k)
    if x is MISSING:
        if d:
            return d[0]
        raise KeyError(k)
    HASH_OK[0] += 1
    try:
        return dict.pop(self, x)
    finally:
        HASH_OK[0] -= 1


def m_dict_update(self, *a, **kw):
    if a:
        x = a[0]
        if hasattr(x, 'keys'):
            for k in list(call(x.keys)):
                dict_set(self, k, getitem(x, k))
        else:
            for k, v in it(x):
                dict_set(self, k, v)
    for k, v in kw.items():
        dict_set(self, k, v)


def m_dict_copy(self):
    r = type(self)() if type(self) is not collections.defaultdict else collections.defaultdict(self.default_factory)
    HASH_OK[0] += 1
    try:
        for k, v in self.items():
            r[k] = v
    finally:
        HASH_OK[0] -= 1
    return r


for _t in (type({}.keys()), type({}.items()), type(collections.OrderedDict().keys()), type(collections.OrderedDict().items())):
    METHODS[(_t, 'isdisjoint')] = lambda self, o: len(set_and(mkset(list(self)), mkset(it(o)))) == 0
METHODS[(dict, 'setdefault')] = m_dict_setdefault
METHODS[(dict, 'pop')] = m_dict_pop
METHODS[(dict, 'update')] = m_dict_update
METHODS[(dict, 'copy')] = m_dict_copy
for _n in ('keys', 'values', 'items', 'clear', 'popitem', '__len__', '__iter__'):
    METHODS[(dict, _n)] = None      # native is fine
for _n in LIST_OK:
    METHODS.setdefault((list, _n), None)
for _n in ('index', 'count'):
    METHODS[(tuple, _n)] = None


def m_set_add(self, x):
    need_hashable(x)
    if find_key(self, x) is MISSING:
        HASH_OK[0] += 1
        try:
            set.add(self, x)
        finally:
            HASH_OK[0] -= 1


def m_set_discard(self, x):
    k = find_key(self, x)
    if k is not MISSING:
        HASH_OK[0] += 1
        try:
            set.discard(self, k)
        finally:
            HASH_OK[0] -= 1


def m_set_remove(self, x):
    if find_key(self, x) is MISSING:
        raise KeyError(x)
    m_set_discard(self, x)


def m_set_update(self, *xs):
    for x in xs:
        for y in it(x):
            m_set_add(self, y)


def m_set_pop(self):
    xs = set_iter(self)
    if not xs:
        raise KeyError('pop from an empty set')
    m_set_discard(self, xs[0])
    return xs[0]


for _t in (set, frozenset):
    METHODS[(_t, 'union')] = lambda self, *o: functools.reduce(lambda a, b: set_or(a, mkset(it(b))), o, self.copy() if not has_sym(self) else mkset(self, type(self)))
    METHODS[(_t, 'difference')] = lambda self, *o: functools.reduce(lambda a, b: set_diff(a, mkset(it(b))), o, self)
    METHODS[(_t, 'intersection')] = lambda self, *o: functools.reduce(lambda a, b: set_and(a, mkset(it(b))), o, self)
    METHODS[(_t, 'symmetric_difference')] = lambda self, o: set_xor(self, mkset(it(o)))
    METHODS[(_t, 'issubset')] = lambda self, o: cmpop('<=', self, mkset(it(o)))
    METHODS[(_t, 'issuperset')] = lambda self, o: set_superset(self, o)
    METHODS[(_t, 'isdisjoint')] = lambda self, o: len(set_and(self, mkset(it(o)))) == 0
    METHODS[(_t, 'copy')] = None
    METHODS[(_t, '__contains__')] = contains


def set_superset(self, o):
    if is_str(o) and not has_sym(self) and all(type(x) is str for x in self):
        ok = frozenset(ord(x) for x in self if len(x) == 1)
        bits = bits_of_set(ok)
        return all(V.in_set(c, bits, lambda c: c in ok) for c in cps(o))
    return cmpop('>=', self, mkset(it(o)))


METHODS[(set, 'add')] = m_set_add
METHODS[(set, 'discard')] = m_set_discard
METHODS[(set, 'remove')] = m_set_remove
METHODS[(set, 'update')] = m_set_update
METHODS[(set, 'difference_update')] = lambda self, *o: [binop_i('-', self, mkset(it(x))) for x in o] and None
METHODS[(set, 'intersection_update')] = lambda self, *o: [binop_i('&', self, mkset(it(x))) for x in o] and None
METHODS[(set, 'symmetric_difference_update')] = lambda self, o: binop_i('^', self, mkset(it(o))) and None
METHODS[(set, 'pop')] = m_set_pop
METHODS[(set, 'clear')] = None


def fn(f):
    """A native-callable version of f that routes through call()."""
    if isinstance(f, types.FunctionType) and MARK in f.__globals__:
        return f
    return lambda *a, **k: call(f, *a, **k)


def m_join(s, xs):
    xs = list(it(xs))
    if any(isinstance(x, Sym) for x in xs):
        return SymStr(cps(s)).join(xs)
    return s.join(xs)


FT, MT, BT = types.FunctionType, types.MethodType, types.BuiltinFunctionType
_missing_models = {}


def deep_args(args, kw):
    for a in args:
        if type(a) not in PRIMS and has_sym(a):
            return True
    for a in kw.values():
        if type(a) not in PRIMS and has_sym(a):
            return True
    return False


SAFE_MODULES = ('c0', 'c1', 'c2', 'symx.', 'jadn', 'h_', 'sym_', 'dataclasses', 'abc', 'typing', 'contextlib', 'harness', 'sympkg')


def call(f, /, *args, **kw):
    ENG.steps += 1
    if not ENG.steps & 0x3ff:
        ENG.steps -= 1
        ENG.tick()
    if f is isinstance and len(args) == 2 and not isinstance(args[0], Sym):
        return isinstance(*args)
    if NONDET['set_order'] and any(isinstance(a, (set, frozenset)) for a in args) and f in SEQ_FNS:
        args = [it(a) for a in args]
    t = type(f)
    if t is FT:
        g = f.__globals__
        if MARK in g:
            return f(*args, **kw)
        h = HANDLERS.get(f)
        if h is not None:
            return h(*args, **kw)
        m = f.__module__ or ''
        if m.startswith(SAFE_MODULES) or not deep_args(args, kw):
            return f(*args, **kw)
        return fallback(f, args, kw)
    if t is MT:
        s = f.__self__
        if isinstance(s, Sym) or MARK in getattr(f.__func__, '__globals__', ()):
            return f(*args, **kw)
        h = HANDLERS.get(f)
        if h is not None:
            return h(*args, **kw)
        h = PATH_METHODS.get(f.__name__) if isinstance(s, os.PathLike) else None
        if h is not None:
            return h(s, *args, **kw)
        m = type(s).__module__
        if m.startswith(SAFE_MODULES) or (isinstance(s, type) and s.__module__.startswith(SAFE_MODULES)):
            return f(*args, **kw)
        if has_sym(s) or deep_args(args, kw):
            return fallback(f, args, kw)
        return f(*args, **kw)
    if t is BT:
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            h = HANDLERS.get(f)
            if h is not None:
                return h(*args, **kw)
            if f in NATIVE_OK or not deep_args(args, kw):
                return f(*args, **kw)
            return fallback(f, args, kw)
        ts = type(s)
        if ts is str:
            if f.__name__ == 'join' and len(args) == 1:
                xs = list(it(args[0]))
                if any(isinstance(x, Sym) for x in xs):
                    return SymStr(cps(s)).join(xs)
                return s.join(xs)
            if deep_args(args, kw) or (NONDET['set_order'] and f.__name__ == 'format'):
                return str_method(s, f.__name__, args, kw)
            return f(*args, **kw)
        if ts is type:
            h = HANDLERS.get(f)
            if h is not None:
                return h(*args, **kw)
            if f in NATIVE_OK or not deep_args(args, kw):
                return f(*args, **kw)
            return fallback(f, args, kw)
        for base in ts.__mro__:
            key = (base, f.__name__)
            if key in METHODS:
                h = METHODS[key]
                if h is None:
                    return f(*args, **kw)
                if base is ts or base in (dict, list, set):
                    if not (ts in (dict, set, list) and all(type(a) in PRIMS for a in args) and not kw and not needs_model(s)) \
                            or (NONDET['set_order'] and ts is set and f.__name__ == 'pop'):
                        return h(s, *args, **kw)
                return f(*args, **kw)
        if ts is bytes and deep_args(args, kw):
            r = SymBytes(tuple(s))
            return getattr(r, f.__name__)(*args, **kw)
        if not has_sym(s) and not deep_args(args, kw):
            return f(*args, **kw)
        if ts.__module__ in ('builtins', 'itertools', 'collections') and f.__name__ in ('__next__', '__iter__', 'send', 'close', 'append', 'appendleft', 'popleft', 'pop', 'extend'):
            return f(*args, **kw)
        if isinstance(s, BaseException):
            return f(*args, **kw)
        return fallback(f, args, kw)
    if t is types.WrapperDescriptorType and args and not isinstance(args[0], Sym) and type(args[0]) is not f.__objclass__:
        return f(*args, **kw)
    if isinstance(f, type):
        h = HANDLERS.get(f)
        if h is not None:
            return h(*args, **kw)
        if f in NATIVE_OK or f in MODEL_CLASSES or issubclass(f, BaseException):
            return f(*args, **kw)
        if isinstance(f, enum.EnumMeta) and len(args) == 1 and not kw and isinstance(args[0], Sym):
            for m in f.__members__.values():
                if bool(eq(m.value, args[0])):
                    return m
            missing = f._missing_(None)
            if missing is not None:
                ENG.abort(Unsupported('_missing_ of an Enum'))
            raise ValueError(LazyStr([V.repr_text(args[0]), f' is not a valid {f.__qualname__}']))
        if f.__module__.startswith(SAFE_MODULES):
            return f(*args, **kw)
        if not deep_args(args, kw):
            return f(*args, **kw)
        return fallback(f, args, kw)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        if args and isinstance(args[0], Sym):
            if issubclass(args[0].pytype, f.__objclass__):
                if f.__name__ in ('__repr__', '__str__') and len(args) == 1:
                    return V.repr_text(args[0]) if f.__name__ == '__repr__' else to_text(args[0])
                return getattr(args[0], f.__name__)(*args[1:], **kw)
            raise TypeError(f"descriptor '{f.__name__}' requires a '{f.__objclass__.__name__}' object")
        if args and type(args[0]) is f.__objclass__ and not isinstance(args[0], BaseException):
            return call(getattr(args[0], f.__name__), *args[1:], **kw)
        return f(*args, **kw)
    if isinstance(f, functools.partial):
        return call(f.func, *f.args, *args, **{**f.keywords, **kw})
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*args, **kw)
    if type(f).__module__.startswith(SAFE_MODULES):
        return f(*args, **kw)
    if isinstance(f, Sym):
        raise TypeError(f"'{f.pytype.__name__}' object is not callable")
    if t is types.MethodWrapperType:
        return f(*args, **kw)
    if t in (operator.itemgetter, operator.attrgetter, operator.methodcaller):
        return op_object(f, *args, **kw)
    if not deep_args(args, kw):
        return f(*args, **kw)
    return fallback(f, args, kw)


def op_object(f, o):
    """itemgetter, attrgetter and methodcaller objects."""
    t = type(f)
    if t is operator.methodcaller:
        c, a = f.__reduce__()
        if isinstance(c, functools.partial):
            return call(getattr(o, c.args[0]), *a, **c.keywords)
        return call(getattr(o, a[0]), *a[1:])
    items = f.__reduce__()[1]

    def get(k):
        if t is operator.itemgetter:
            return getitem(o, k)
        r = o
        for n in k.split('.'):
            r = getattr(r, n)
        return r
    return get(items[0]) if len(items) == 1 else tuple(map(get, items))


def needs_model(s):
    """Does a dict/set contain symbolic keys (so that native hashing lookups are not enough)?"""
    if isinstance(s, list):
        return True
    for k in s:
        if type(k) not in PRIMS:
            return True
    return False


def str_method(s, name, args, kw):
    if name == 'format':
        return V.fmt_brace(s, args, kw)
    if isinstance(s, str) and not s and name == 'join':
        return SymStr(()).join(*args)
    r = getattr(SymStr(cps(s)), name)(*args, **kw)
    return r


def fallback(f, args, kw):
    """No model for a native callable with symbolic arguments: concretise (the path is no longer exhaustive)."""
    name = getattr(f, '__qualname__', str(f))
    mod = getattr(f, '__module__', '') or ''
    k = f'concretised call {mod}.{name}'
    ENG.unsup_msgs[k] = ENG.unsup_msgs.get(k, 0) + 1
    ENG.path_concretised += 1
    s = getattr(f, '__self__', None)
    if s is not None and has_sym(s) and not isinstance(s, types.ModuleType):
        f = getattr(concrete(s), f.__name__)
    return f(*[concrete(a) for a in args], **{k: concrete(v) for k, v in kw.items()})
