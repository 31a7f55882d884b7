"""
Symbolic values: SymBool, SymInt, SymFloat, SymStr (fixed length per path, symbolic code points),
LazyStr (formatted text that is only built when looked at), SymBytes, and bounded-length texts.
Concrete results are returned as native Python objects whenever every component is concrete.
"""
import types

import z3
from . import engine
from .engine import ENG, Unsupported, UNIVERSE, UIDX, UALL, bits_of, bits_of_set, EngineBug


class Sym:
    __slots__ = ()
    pytype = object

    def __hash__(self):
        if HASH_OK[0]:
            k = ('hash', id(self))      # deterministic across re-executions of a path
            h = ENG.pathmap.get(k)
            if h is None:
                n = ENG.pathmap['nhash'] = ENG.pathmap.get('nhash', 0) + 1
                h = ENG.pathmap[k] = (hash((n, 'sym')), self)
            return h[0]
        ENG.abort(Unsupported(f'native hash of {type(self).__name__}'))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        ENG.abort(Unsupported('pickle of symbolic value'))


HASH_OK = [0]


def b2z(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b.e if isinstance(b, SymBool) else b


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.e)
        elif isinstance(x, z3.BoolRef):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return mkbool(z3.And(*out) if len(out) > 1 else out[0])


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.e)
        elif isinstance(x, z3.BoolRef):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    return mkbool(z3.Or(*out) if len(out) > 1 else out[0])


def Not(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.e))
    if isinstance(x, z3.BoolRef):
        return mkbool(z3.Not(x))
    return not x


class SymBool(Sym):
    __slots__ = ('e',)
    pytype = bool

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.decide(self.e)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == b2z(o))
        return bool(self) == o

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = Sym.__hash__

    def __and__(self, o):
        return And(self, o) if isinstance(o, (bool, SymBool)) else NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o) if isinstance(o, (bool, SymBool)) else NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, b2z(o))) if isinstance(o, (bool, SymBool)) else NotImplemented
    __rxor__ = __xor__

    def __invert__(self):
        return ~int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return o * int(bool(self))
    __rmul__ = __mul__

    def __neg__(self):
        return -int(bool(self))

    def __lt__(self, o):
        return int(bool(self)) < o

    def __le__(self, o):
        return int(bool(self)) <= o

    def __gt__(self, o):
        return int(bool(self)) > o

    def __ge__(self, o):
        return int(bool(self)) >= o

    def __repr__(self):
        return f'<SymBool {self.e}>'


# ----------------------------------------------------------------------------------------------- int
def i2z(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return x


def mkint(e, nib=None):
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e, nib)


def _int_like(o):
    return isinstance(o, (int, SymInt, SymBool))


class SymInt(Sym):
    """Integer term; nib, if present, is its exact list of base-16 digits (most significant first)."""
    __slots__ = ('e', 'nib')
    pytype = int

    def __init__(self, e, nib=None):
        self.e = e
        self.nib = nib

    def __bool__(self):
        return ENG.decide(self.e != 0)

    def _cmp(self, o, op):
        if _int_like(o):
            return mkbool(op(self.e, i2z(o)))
        if isinstance(o, float):
            if o != o:
                return False
            if o in (float('inf'), float('-inf')):
                return bool(op(0.0, o))
            import fractions
            f = fractions.Fraction(o)
            return mkbool(op(z3.ToReal(self.e), z3.RealVal(f'{f.numerator}/{f.denominator}')))
        if isinstance(o, SymFloat):
            return o._cmp_int(self, op)
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = Sym.__hash__

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __add__(self, o):
        return mkint(self.e + i2z(o)) if _int_like(o) else NotImplemented if not isinstance(o, float) else concrete(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return mkint(self.e - i2z(o)) if _int_like(o) else NotImplemented if not isinstance(o, float) else concrete(self) - o

    def __rsub__(self, o):
        return mkint(i2z(o) - self.e) if _int_like(o) else NotImplemented if not isinstance(o, float) else o - concrete(self)

    def __mul__(self, o):
        if _int_like(o):
            return mkint(self.e * i2z(o))
        if isinstance(o, float):
            return concrete(self) * o
        if isinstance(o, (str, bytes, list, tuple, SymStr, LazyStr, SymBytes)):
            return self.__index__() * o
        return NotImplemented
    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e < 0, -self.e, self.e))

    def __floordiv__(self, o):
        if isinstance(o, int):
            if o > 0:
                return mkint(self.e / z3.IntVal(o))        # z3 div is floor for positive divisors
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
        return concrete(self) // (concrete(o))

    def __rfloordiv__(self, o):
        return o // concrete(self)

    def __mod__(self, o):
        if isinstance(o, int):
            if o > 0:
                return mkint(self.e % z3.IntVal(o))
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
        return concrete(self) % concrete(o)

    def __rmod__(self, o):
        return o % concrete(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return concrete(self) / concrete(o)

    def __rtruediv__(self, o):
        return concrete(o) / concrete(self)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 3:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return concrete(self) ** concrete(o)

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        o = o.__index__()
        if self.nib is not None and o % 4 == 0:
            return SymInt(z3.simplify(self.e * (1 << o)), self.nib + [0] * (o // 4))
        return mkint(self.e * (1 << o))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        o = o.__index__()
        if self.nib is not None and o % 4 == 0:
            return nibs_int(self.nib[:len(self.nib) - o // 4])
        return mkint(self.e / z3.IntVal(1 << o))

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        if isinstance(o, int) and o >= 0:
            n = o.bit_length()
            if o == (1 << n) - 1:
                if self.nib is not None and n % 4 == 0:
                    return nibs_int(self.nib[max(0, len(self.nib) - n // 4):])
                return mkint(self.e % z3.IntVal(1 << n))
            low = (o & -o).bit_length() - 1            # mask of consecutive ones shifted left
            w = o >> low
            if w & (w + 1) == 0:
                return ((self >> low) & w) << low
        return concrete(self) & concrete(o)
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, int):
            if o == 0:
                return self
            if o > 0 and self.nib is not None:
                o = SymInt(z3.IntVal(o), [int(c, 16) for c in '%x' % o])
        if isinstance(o, SymInt) and self.nib is not None and o.nib is not None:
            n = max(len(self.nib), len(o.nib))
            a = [0] * (n - len(self.nib)) + self.nib
            b = [0] * (n - len(o.nib)) + o.nib
            out = []
            for x, y in zip(a, b):
                if isinstance(x, int) and x == 0:
                    out.append(y)
                elif isinstance(y, int) and y == 0:
                    out.append(x)
                else:
                    return concrete(self) | concrete(o)
            return nibs_int(out)
        a, b = (o, self) if isinstance(o, int) else (self, o)
        for hi, lo in ((a, b), (b, a)):         # disjoint bits: a sum
            if isinstance(hi, int):
                ks = [(hi & -hi).bit_length() - 1] if hi > 0 else []
            else:
                ks = (10, 6, 8, 12, 16)
            for k in ks:
                if isinstance(lo, int):
                    if not 0 <= lo < 1 << k:
                        continue
                    c = []
                else:
                    c = [lo.e >= 0, lo.e < 1 << k]
                if not isinstance(hi, int):
                    c += [hi.e >= 0, hi.e % z3.IntVal(1 << k) == 0]
                if ENG.query(z3.Not(z3.And(*c))) == z3.unsat:
                    return mkint((hi.e if isinstance(hi, SymInt) else z3.IntVal(hi)) + (lo.e if isinstance(lo, SymInt) else z3.IntVal(lo)))
        return concrete(self) | concrete(o)
    __ror__ = __or__

    def __xor__(self, o):
        return concrete(self) ^ concrete(o)
    __rxor__ = __xor__

    def __invert__(self):
        return mkint(-self.e - 1)

    def __index__(self):
        """Concrete value on this path: forks over the feasible values."""
        for _ in range(400):
            v = ENG.value(self.e, as_long)
            if ENG.decide(self.e == v):
                return v
        ENG.abort(Unsupported('index with more than 400 feasible values'))

    __int__ = __index__

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self

    def __float__(self):
        return float(concrete(self))

    def bit_length(self):
        return concrete(self).bit_length()

    def is_integer(self):
        return True

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        length = length.__index__()
        if signed:
            return concrete(self).to_bytes(length, byteorder, signed=True)
        if ENG.decide(z3.Or(self.e < 0, self.e >= 256 ** length)):
            raise OverflowError('int too big to convert')
        nib = self.nib
        if nib is not None:
            nib = [0] * max(0, 2 * length - len(nib)) + nib
            nib = nib[len(nib) - 2 * length:]
            bs = [z3.simplify(z3_of(nib[i]) * 16 + z3_of(nib[i + 1])) for i in range(0, 2 * length, 2)]
        else:
            bs = [z3.simplify((self.e / z3.IntVal(256 ** (length - 1 - i))) % 256) for i in range(length)]
        bs = [b.as_long() if z3.is_int_value(b) else b for b in bs]
        return mkbytes(bs if byteorder == 'big' else bs[::-1])

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr(int, n):
            ENG.abort(Unsupported(f'int.{n}'))
        raise AttributeError(f"'int' object has no attribute '{n}'")

    def __repr__(self):
        return f'<SymInt {self.e}>'

    def __str__(self):
        ENG.abort(Unsupported('native str() of SymInt'))

    def __format__(self, spec):
        ENG.abort(Unsupported('native format of SymInt'))


def z3_of(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def nibs_int(nib):
    """Integer with the given hex digits."""
    nib = list(nib)
    while nib and isinstance(nib[0], int) and nib[0] == 0:
        nib.pop(0)
    if all(isinstance(x, int) for x in nib):
        v = 0
        for x in nib:
            v = v * 16 + x
        return v
    e = z3.IntVal(0)
    n = len(nib)
    e = z3.Sum([z3_of(x) * (16 ** (n - 1 - i)) for i, x in enumerate(nib)])
    return SymInt(z3.simplify(e), nib)


# --------------------------------------------------------------------------------------------- float
class SymFloat(Sym):
    """IEEE double term. Only comparisons are modelled; arithmetic concretises."""
    __slots__ = ('e',)
    pytype = float

    def __init__(self, e):
        self.e = e

    def _z(self, o):
        if isinstance(o, SymFloat):
            return o.e
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            f = float(o) if abs(o) < 2 ** 1000 else None
            if f is not None and int(f) == o:
                o = f
            else:
                return None
        if isinstance(o, float):
            return z3.FPVal(o, z3.Float64())
        return None

    def _cmp(self, o, fop):
        if isinstance(o, SymInt):
            ENG.abort(Unsupported('comparison of symbolic int and float'))
        z = self._z(o)
        if z is None:
            return NotImplemented
        return mkbool(fop(self.e, z))

    def _cmp_int(self, i, op):
        m = {'lt': z3.fpLT}
        # only used with op lambdas on reals: compare as reals when finite
        r = z3.fpToReal(self.e)
        fin = z3.Not(z3.Or(z3.fpIsNaN(self.e), z3.fpIsInf(self.e)))
        if ENG.decide(fin):
            return mkbool(op(z3.ToReal(i.e), r))
        if ENG.decide(z3.fpIsNaN(self.e)):
            return False
        return bool(op(0, float('-inf') if ENG.decide(z3.fpIsNegative(self.e)) else float('inf')))

    def __eq__(self, o):
        if not isinstance(o, (int, float, SymInt, SymFloat, bool)):
            return False
        return self._cmp(o, z3.fpEQ)

    def __ne__(self, o):
        return Not(self == o)
    __hash__ = Sym.__hash__

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __bool__(self):
        return ENG.decide(z3.Not(z3.fpIsZero(self.e)))

    def __neg__(self):
        return SymFloat(z3.fpNeg(self.e))

    def __abs__(self):
        return SymFloat(z3.fpAbs(self.e))

    def is_integer(self):
        return mkbool(z3.fpEQ(self.e, z3.fpRoundToIntegral(z3.RTZ(), self.e)))

    def _arith(name):
        def f(self, *a):
            return getattr(float, name)(concrete(self), *[concrete(x) for x in a])
        return f
    for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__',
               '__floordiv__', '__mod__', '__pow__', '__round__', '__int__', '__trunc__', '__float__'):
        locals()[_n] = _arith(_n)
    del _n

    def __str__(self):
        ENG.abort(Unsupported('native str() of SymFloat'))

    def __repr__(self):
        return f'<SymFloat {self.e}>'

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr(float, n):
            ENG.abort(Unsupported(f'float.{n}'))
        raise AttributeError(f"'float' object has no attribute '{n}'")


# ----------------------------------------------------------------------------------------------- str
B_SPACE = bits_of(lambda c: chr(c).isspace())
B_DIGIT = bits_of(lambda c: 48 <= c <= 57)
B_DECIMAL = bits_of(lambda c: chr(c).isdecimal())
B_LINE = bits_of(lambda c: len(('a' + chr(c) + 'b').splitlines()) > 1)


def mkstr(cs):
    for c in cs:
        if not isinstance(c, int):
            return SymStr(tuple(cs))
    return ''.join(map(chr, cs))


def cps(s):
    """Code points of a str / SymStr / LazyStr."""
    if isinstance(s, str):
        return tuple(map(ord, s))
    if isinstance(s, LazyStr):
        s = s.force()
        return cps(s)
    if isinstance(s, SymStr):
        return s.cs
    raise TypeError(f'expected str, got {type(s).__name__}')


def ch_eq(a, b):
    """Equality of two code points: bool or z3 term."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a is b:
        return True
    return a == b


def decide_ch_eq(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        a, b = b, a
    if isinstance(b, int):
        if b in UIDX:
            return ENG.decide_in(a, 1 << UIDX[b])
        return ENG.decide(a == b) if a.get_id() not in ENG.dom else False
    return ENG.decide(a == b)


def in_set(c, bits, pred=None):
    """Membership of a code point in a universe bitset; concrete ones outside the universe use pred."""
    if isinstance(c, int):
        i = UIDX.get(c)
        if i is not None:
            return bool(bits >> i & 1)
        return pred(c) if pred else False
    return ENG.decide_in(c, bits)


def seq_eq(a, b):
    """Formula (bool/SymBool) for equality of two code point sequences."""
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        r = ch_eq(x, y)
        if r is True:
            continue
        if r is False:
            return False
        if isinstance(x, int) or isinstance(y, int):
            v, k = (y, x) if isinstance(x, int) else (x, y)
            d = ENG.dom.get(v.get_id())
            if d is not None and not (k in UIDX and d >> UIDX[k] & 1):
                return False
        out.append(r)
    return And(*out)


def is_str(x):
    return isinstance(x, (str, SymStr, LazyStr))


_case_tables = {}


def case_table(op):
    """(single: {delta: bits}, multi: {index: expansion}) for str methods lower/upper/casefold/swapcase."""
    t = _case_tables.get(op)
    if t is None:
        single, multi = {}, {}
        for i, c in enumerate(UNIVERSE):
            r = getattr(chr(c), op)()
            if len(r) == 1:
                d = ord(r) - c
                single[d] = single.get(d, 0) | 1 << i
            else:
                multi[c] = [ord(x) for x in r]
        t = _case_tables[op] = (single, multi)
    return t


class StrOps:
    """Methods shared by SymStr and LazyStr (via force)."""
    __slots__ = ()

    def _c(self):
        raise NotImplementedError

    def __len__(self):
        return len(self._c())

    def __bool__(self):
        return len(self._c()) > 0

    def __iter__(self):
        return iter([mkstr([c]) for c in self._c()])

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(x.__index__() if isinstance(x, (SymInt, SymBool)) else x for x in (i.start, i.stop, i.step)))
            return mkstr(self._c()[i])
        return mkstr([self._c()[i]])

    def __eq__(self, o):
        if not is_str(o):
            return False
        if o is self:
            return True
        return seq_eq(self._c(), cps(o))

    def __ne__(self, o):
        return Not(self == o)

    def _order(self, o, strict, lt):
        if not is_str(o):
            return NotImplemented
        a, b = self._c(), cps(o)
        for x, y in zip(a, b):
            if decide_ch_eq(x, y):
                continue
            r = ENG.decide(z3_of(x) < z3_of(y))
            return r if lt else not r
        if len(a) == len(b):
            return not strict
        return (len(a) < len(b)) == lt

    def __lt__(self, o):
        return self._order(o, True, True)

    def __le__(self, o):
        return self._order(o, False, True)

    def __gt__(self, o):
        return self._order(o, True, False)

    def __ge__(self, o):
        return self._order(o, False, False)

    def __add__(self, o):
        if isinstance(o, LazyStr):
            return LazyStr([self, *o.parts])
        if not is_str(o):
            raise TypeError(f'can only concatenate str (not "{type(o).__name__}") to str')
        return mkstr(self._c() + cps(o))

    def __radd__(self, o):
        if not is_str(o):
            raise TypeError(f'can only concatenate str (not "{type(o).__name__}") to str')
        return mkstr(cps(o) + self._c())

    def __mul__(self, n):
        return mkstr(self._c() * n.__index__())
    __rmul__ = __mul__

    def __mod__(self, o):
        return fmt_percent(self, o)

    def __contains__(self, o):
        if not is_str(o):
            raise TypeError("'in <string>' requires string as left operand")
        return self.find(o) >= 0

    # -- searching
    def _match_at(self, a, sub, i):
        for k, y in enumerate(sub):
            if not decide_ch_eq(a[i + k], y):
                return False
        return True

    def find(self, sub, start=0, end=None):
        a, s = self._c(), cps(sub)
        n = len(a)
        start, end, _ = slice(start, end).indices(n)
        if not s and start > n:
            return -1
        for i in range(start, end - len(s) + 1):
            if self._match_at(a, s, i):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        a, s = self._c(), cps(sub)
        start, end, _ = slice(start, end).indices(len(a))
        for i in range(end - len(s), start - 1, -1):
            if self._match_at(a, s, i):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=0, end=None):
        a, s = self._c(), cps(sub)
        start, end, _ = slice(start, end).indices(len(a))
        if not s:
            return end - start + 1
        n, i = 0, start
        while i <= end - len(s):
            if self._match_at(a, s, i):
                n += 1
                i += len(s)
            else:
                i += 1
        return n

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        a = self._c()[slice(start, end)]
        s = cps(p)
        return len(s) <= len(a) and bool(seq_eq(a[:len(s)], s))

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        a = self._c()[slice(start, end)]
        s = cps(p)
        return len(s) <= len(a) and bool(seq_eq(a[len(a) - len(s):], s))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else mkstr(self._c())

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else mkstr(self._c())

    # -- stripping and splitting
    def _strip(self, chars, left, right):
        a = self._c()
        if chars is None:
            bits, pred = B_SPACE, (lambda c: chr(c).isspace())
            test = lambda c: in_set(c, bits, pred)
        else:
            cc = cps(chars)
            if all(isinstance(x, int) for x in cc):
                bits = bits_of_set(cc)
                test = lambda c: in_set(c, bits, lambda x: x in cc)
            else:
                test = lambda c: any(decide_ch_eq(c, x) for x in cc)
        i, j = 0, len(a)
        if left:
            while i < j and test(a[i]):
                i += 1
        if right:
            while j > i and test(a[j - 1]):
                j -= 1
        return mkstr(a[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        a = self._c()
        out = []
        if sep is None:
            sp = lambda c: in_set(c, B_SPACE, lambda x: chr(x).isspace())
            i, n = 0, len(a)
            while i < n and sp(a[i]):
                i += 1
            while i < n:
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and sp(a[j - 1]):
                        j -= 1
                    out.append(mkstr(a[i:j]))
                    return out
                j = i
                while j < n and not sp(a[j]):
                    j += 1
                out.append(mkstr(a[i:j]))
                i = j
                while i < n and sp(a[i]):
                    i += 1
            return out
        s = cps(sep)
        if not s:
            raise ValueError('empty separator')
        i = st = 0
        while i <= len(a) - len(s):
            if (maxsplit < 0 or len(out) < maxsplit) and self._match_at(a, s, i):
                out.append(mkstr(a[st:i]))
                i += len(s)
                st = i
            else:
                i += 1
        out.append(mkstr(a[st:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            rev = mkstr(self._c()[::-1])
            parts = rev.split(None, maxsplit)
            return [mkstr(cps(p)[::-1]) for p in parts[::-1]]
        a, s = self._c(), cps(sep)
        out, end, i = [], len(a), len(a) - len(s)
        while i >= 0 and len(out) < maxsplit:
            if self._match_at(a, s, i):
                out.append(mkstr(a[i + len(s):end]))
                end = i
                i -= len(s)
            else:
                i -= 1
        out.append(mkstr(a[:end]))
        return out[::-1]

    def splitlines(self, keepends=False):
        a = self._c()
        out, st, i = [], 0, 0
        while i < len(a):
            if in_set(a[i], B_LINE, lambda c: len(('a' + chr(c) + 'b').splitlines()) > 1):
                j = i + 1
                if decide_ch_eq(a[i], 13) and j < len(a) and decide_ch_eq(a[j], 10):
                    j += 1
                out.append(mkstr(a[st:j if keepends else i]))
                st = i = j
            else:
                i += 1
        if st < len(a):
            out.append(mkstr(a[st:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        return (self[:], '', '') if i < 0 else (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return ('', '', self[:]) if i < 0 else (self[:i], sep, self[i + len(sep):])

    def replace(self, old, new, count=-1):
        a, s, r = self._c(), cps(old), cps(new)
        out, i, n = [], 0, 0
        if count < 0 and len(s) == len(r) == 1 and type(s[0]) is int and type(r[0]) is int:
            a = [c if (x := sext_map(c, {s[0]: r[0]})) is None else x for c in a]
        if not s:
            for k, c in enumerate(a):
                if count < 0 or n < count:
                    out.extend(r)
                    n += 1
                out.append(c)
            if count < 0 or n < count:
                out.extend(r)
            return mkstr(out)
        while i < len(a):
            if (count < 0 or n < count) and i <= len(a) - len(s) and self._match_at(a, s, i):
                out.extend(r)
                i += len(s)
                n += 1
            else:
                out.append(a[i])
                i += 1
        return mkstr(out)

    def join(self, it):
        parts = list(it)
        if any(isinstance(p, LazyStr) and p.done is None for p in parts) and all(is_str(p) for p in parts):
            out = []
            for p in parts:
                out += [self, p]
            return LazyStr(out[1:])
        sep = self._c()
        out = []
        for n, p in enumerate(parts):
            if not is_str(p):
                raise TypeError(f'sequence item {n}: expected str instance, {getattr(p, "pytype", type(p)).__name__} found')
            if n:
                out.extend(sep)
            out.extend(cps(p))
        return mkstr(out)

    # -- case and classes
    def _case(self, op):
        single, multi = case_table(op)
        out = []
        for c in self._c():
            if isinstance(c, int):
                out.extend(map(ord, getattr(chr(c), op)()))
                continue
            if op in ('lower', 'upper') and ('nib', c.get_id()) in ENG.pathmap:
                out.append(hex_char(ENG.pathmap['nib', c.get_id()][0], op == 'upper'))
                continue
            for m, exp in multi.items():
                if decide_ch_eq(c, m):
                    out.extend(exp)
                    break
            else:
                d = ENG.dom.get(c.get_id())
                e = c
                for delta, bits in sorted(single.items()):
                    if delta == 0:
                        continue
                    if d is not None and d & bits == 0:
                        continue
                    if d is not None and d & bits == d:
                        e = c + delta
                        break
                    e = z3.If(engine.z3_member(c, bits), c + delta, e)
                e = z3.simplify(e) if e is not c else c
                out.append(e.as_long() if z3.is_int_value(e) else e)
        return mkstr(out)

    def lower(self):
        return self._case('lower')

    def upper(self):
        return self._case('upper')

    def casefold(self):
        return self._case('casefold')

    def swapcase(self):
        return self._case('swapcase')

    def capitalize(self):
        a = self._c()
        return mkstr(cps(mkstr(a[:1]).title() if a else '') + cps(mkstr(a[1:]).lower()))

    def _all(self, pred, bits):
        a = self._c()
        return len(a) > 0 and all(in_set(c, bits, lambda x: pred(chr(x))) for c in a)

    def isdigit(self):
        return self._all(str.isdigit, bits_of_c('isdigit'))

    def isdecimal(self):
        return self._all(str.isdecimal, bits_of_c('isdecimal'))

    def isnumeric(self):
        return self._all(str.isnumeric, bits_of_c('isnumeric'))

    def isalpha(self):
        return self._all(str.isalpha, bits_of_c('isalpha'))

    def isalnum(self):
        return self._all(str.isalnum, bits_of_c('isalnum'))

    def isspace(self):
        return self._all(str.isspace, bits_of_c('isspace'))

    def isprintable(self):
        return len(self._c()) == 0 or self._all(str.isprintable, bits_of_c('isprintable'))

    def isascii(self):
        return all(in_set(c, bits_of_c('isascii'), lambda x: x < 128) for c in self._c())

    def isupper(self):
        a = self._c()
        low = bits_of_c('islower')
        up = bits_of_c('isupper')
        if any(in_set(c, low, lambda x: chr(x).islower()) for c in a):
            return False
        return any(in_set(c, up, lambda x: chr(x).isupper()) for c in a)

    def islower(self):
        a = self._c()
        low = bits_of_c('islower')
        up = bits_of_c('isupper')
        if any(in_set(c, up, lambda x: chr(x).isupper()) for c in a):
            return False
        return any(in_set(c, low, lambda x: chr(x).islower()) for c in a)

    # -- padding
    def ljust(self, w, fill=' '):
        return mkstr(self._c() + cps(fill) * max(0, w.__index__() - len(self)))

    def rjust(self, w, fill=' '):
        return mkstr(cps(fill) * max(0, w.__index__() - len(self)) + self._c())

    def center(self, w, fill=' '):
        n = max(0, w.__index__() - len(self))
        left = n // 2 + (n & w.__index__() & 1)
        return mkstr(cps(fill) * left + self._c() + cps(fill) * (n - left))

    def zfill(self, w):
        a = self._c()
        if a and (decide_ch_eq(a[0], 43) or decide_ch_eq(a[0], 45)):
            return mkstr(a[:1] + (48,) * max(0, w - len(a)) + a[1:])
        return self.rjust(w, '0')

    def expandtabs(self, tabsize=8):
        out, col = [], 0
        for c in self._c():
            if decide_ch_eq(c, 9):
                n = tabsize - col % tabsize if tabsize > 0 else 0
                out += [32] * n
                col += n
            else:
                out.append(c)
                col = 0 if decide_ch_eq(c, 10) or decide_ch_eq(c, 13) else col + 1
        return mkstr(out)

    def title(self):
        out, prev = [], False
        cased = bits_of(lambda c: chr(c).isupper() or chr(c).islower() or chr(c).istitle())
        for c in self._c():
            x = mkstr([c])
            if prev:
                out.extend(cps(x.lower()))
            elif isinstance(x, str):
                out.extend(map(ord, x.title()))
            else:
                out.extend(cps(x._case('title')))
            prev = in_set(c, cased, lambda y: chr(y).isupper() or chr(y).islower() or chr(y).istitle())
        return mkstr(out)

    def isidentifier(self):
        a = self._c()
        return len(a) > 0 and in_set(a[0], bits_of_c('isidentifier'), lambda x: chr(x).isidentifier()) and \
            all([in_set(c, bits_of_idcont(), lambda x: ('a' + chr(x)).isidentifier()) for c in a[1:]])

    def format_map(self, m):
        return fmt_brace(self, (), m)

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        out = []
        for c in self._c():
            if isinstance(c, int):
                out.extend(chr(c).encode(encoding, errors))
                continue
            lim = 128 if enc in ('ascii', 'us-ascii', 'utf-8', 'utf8') else 256 if enc in ('latin-1', 'iso-8859-1') else None
            if lim is None:
                ENG.abort(Unsupported('encode ' + encoding))
            if ENG.decide_in(c, bits_of_lt(lim)):
                out.append(c)
            elif enc in ('utf-8', 'utf8'):
                if ENG.decide_in(c, bits_of_lt(0x800)):
                    out.append(z3.simplify(192 + c / 64))
                    out.append(z3.simplify(128 + c % 64))
                else:
                    v = SymInt(c).__index__()
                    out.extend(chr(v).encode(encoding, errors))
            elif errors == 'ignore':
                pass
            elif errors == 'replace':
                out.append(63)
            else:
                raise UnicodeEncodeError(enc, '?', 0, 1, 'ordinal not in range')
        return mkbytes(out)

    def translate(self, table):
        out = []
        single = sext_mapping(table)
        for c in self._c():
            hit = False
            if single is not None and (x := sext_map(c, single)) is not None:
                out.append(x)
                continue
            for k, v in dict(table).items():
                if is_str(k):
                    k = cps(k)[0]
                if decide_ch_eq(c, k):
                    hit = True
                    if v is None:
                        pass
                    elif isinstance(v, int):
                        out.append(v)
                    else:
                        out.extend(cps(v))
                    break
            if not hit:
                out.append(c)
        return mkstr(out)

    def format(self, *args, **kw):
        return fmt_brace(self, args, kw)

    def __format__(self, spec):
        ENG.abort(Unsupported('native format of SymStr'))

    def __str__(self):
        ENG.abort(Unsupported('native str() of SymStr'))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr(str, n):
            ENG.abort(Unsupported(f'str.{n}'))
        raise AttributeError(f"'str' object has no attribute '{n}'")


def sext_mapping(table):
    """{code: code} of a translation table that maps single ASCII characters to single ASCII characters, or None."""
    if not isinstance(table, dict) or len(table) > 64:
        return None
    out = {}
    for k, v in table.items():
        if isinstance(v, str) and len(v) == 1:
            v = ord(v)
        if isinstance(k, str) and len(k) == 1:
            k = ord(k)
        if type(k) is not int or type(v) is not int or not (0 <= k < 128 and 0 <= v < 128):
            return None
        out[k] = v
    return out


def sext_map(c, mapping):
    """A base64 character term with some alphabet characters replaced, or None if c is no such term."""
    if isinstance(c, int):
        return None
    s = ENG.pathmap.get(('sext', c.get_id()))
    if s is None:
        return None
    table = list(range(256))
    for k, v in mapping.items():
        table[k] = v
    if len({table[x] for x in s[1]}) != 64:
        return None
    e = c
    for k, v in mapping.items():
        if k in s[1] and v != k:
            e = z3.If(c == k, z3_of(v), e)
    if e is c:
        return c
    from . import models
    e = z3.simplify(e)
    models.sext_translate(c, e, table)
    return e


_bc = {}


def bits_of_c(meth):
    r = _bc.get(meth)
    if r is None:
        r = _bc[meth] = bits_of(lambda c: getattr(chr(c), meth)())
    return r


def bits_of_idcont():
    r = _bc.get('idcont')
    if r is None:
        r = _bc['idcont'] = bits_of(lambda c: ('a' + chr(c)).isidentifier())
    return r


def bits_of_lt(n):
    r = _bc.get(n)
    if r is None:
        r = _bc[n] = bits_of(lambda c: c < n)
    return r


class SymStr(StrOps, Sym):
    __slots__ = ('cs',)
    pytype = str

    def __init__(self, cs):
        self.cs = cs

    def _c(self):
        return self.cs

    __hash__ = Sym.__hash__

    def __repr__(self):
        return 'SymStr(' + ''.join(chr(c) if isinstance(c, int) else '<' + str(c)[:20] + '>' for c in self.cs) + ')'


class IntFmt:
    """str(n) of a symbolic integer, not yet materialised."""
    __slots__ = ('v', 'done')

    def __init__(self, v):
        self.v = v
        self.done = None

    def text(self):
        if self.done is None:
            self.done = int_to_str(self.v)
        return self.done


class ObjFmt:
    """str()/repr()/format() of an object, built on demand."""
    __slots__ = ('thunk', 'done')

    def __init__(self, thunk):
        self.thunk = thunk
        self.done = None

    def text(self):
        if self.done is None:
            self.done = self.thunk()
        return self.done


B_DIG = bits_of(lambda c: 48 <= c <= 57)
B_DIG19 = bits_of(lambda c: 49 <= c <= 57)


def digit_vars(a, n, first):
    """Fresh characters d1..dn, digits, with a == their decimal value (a definition: 0 <= a < 10**n is already known)."""
    key = ('digits', a.get_id(), n)
    ds = ENG.pathmap.get(key)
    if ds is not None:
        return ds[0]
    nm = ENG.uname('%digits')
    ds = [ENG.new_char(f'{nm}.{n}.{i}', first if i == 0 else B_DIG) for i in range(n)]
    c = a == z3.Sum([(d - 48) * 10 ** (n - 1 - i) for i, d in enumerate(ds)])
    ENG.define(c)
    ENG.pathmap[key] = (ds, a)
    ENG.pathmap[('value',) + tuple(d.get_id() for d in ds)] = (a, ds)
    return ds


def int_to_str(v, maxdigits=25):
    """Decimal text of a SymInt: forks on sign and number of digits, digits stay symbolic."""
    if isinstance(v, int):
        return str(v)
    neg = ENG.decide(v.e < 0)
    a = z3.simplify(-v.e) if neg else v.e
    n = 1
    while not ENG.decide(a < 10 ** n):
        n += 1
        if n > maxdigits:
            ENG.abort(Unsupported('str() of an integer with too many digits'))
    if n == 1:
        d = z3.simplify(48 + a)
        return mkstr([45] * neg + [d.as_long() if z3.is_int_value(d) else d])
    ds = digit_vars(a, n, B_DIG19)
    return mkstr([45] * neg + ds)


class LazyStr(StrOps, Sym):
    """Concatenation of parts (str, SymStr, IntFmt, ObjFmt), materialised when its content matters."""
    __slots__ = ('parts', 'done')
    pytype = str

    def __init__(self, parts):
        ps = []
        for p in parts:
            if isinstance(p, LazyStr):
                ps.extend(p.parts if p.done is None else [p.done])
            else:
                ps.append(p)
        self.parts = [p for p in ps if not (isinstance(p, str) and p == '')]
        self.done = None

    def force(self):
        if self.done is None:
            out = []
            for p in self.parts:
                out.extend(cps(p.text() if isinstance(p, (IntFmt, ObjFmt)) else p))
            self.done = mkstr(out)
        return self.done

    def _c(self):
        return cps(self.force())

    __hash__ = Sym.__hash__

    def __bool__(self):
        for p in self.parts:
            if isinstance(p, IntFmt) or (isinstance(p, (str, SymStr)) and len(p)):
                return True
        return len(self._c()) > 0

    def __getitem__(self, i):
        if self.done is None and self.parts and isinstance(self.parts[0], (str, SymStr)):
            h = self.parts[0]
            if isinstance(i, int) and 0 <= i < len(h):
                return h[i]
            if isinstance(i, slice) and i.step is None and isinstance(i.start, int) and 0 <= i.start <= len(h):
                if i.stop is None:
                    r = LazyStr([h[i.start:], *self.parts[1:]])
                    return r if any(isinstance(p, (IntFmt, ObjFmt)) for p in r.parts) else r.force()
                if isinstance(i.stop, int) and 0 <= i.stop <= len(h):
                    return h[i]
        return StrOps.__getitem__(self, i)

    def __eq__(self, o):
        if isinstance(o, LazyStr) and self.done is None and o.done is None and len(self.parts) == len(o.parts):
            r = []
            for a, b in zip(self.parts, o.parts):
                if a is b:
                    continue
                if isinstance(a, IntFmt) and isinstance(b, IntFmt):
                    r.append(a.v == b.v)
                elif isinstance(a, str) and isinstance(b, str) and a == b:
                    continue
                else:
                    break
            else:
                return And(*r)
        return StrOps.__eq__(self, o)

    def __add__(self, o):
        if not is_str(o):
            raise TypeError('can only concatenate str')
        return LazyStr([self, o])

    def __radd__(self, o):
        if not is_str(o):
            raise TypeError('can only concatenate str')
        return LazyStr([o, self])

    def as_int(self):
        """The SymInt whose decimal text this is, if it is exactly one."""
        if self.done is None and len(self.parts) == 1 and isinstance(self.parts[0], IntFmt):
            return self.parts[0].v
        return None

    def isdigit(self):
        v = self.as_int()
        if v is not None:
            return bool(v >= 0)
        return StrOps.isdigit(self)

    def __repr__(self):
        return f'LazyStr({self.parts})'


def _int_strips(c):
    try:
        return int(chr(c) + '1') == 1
    except ValueError:
        return False


INT_SPACE = ''.join(chr(c) for c in UNIVERSE if chr(c).isspace() and _int_strips(c))


def parse_int(s, base=10):
    """int(text, base) for symbolic text."""
    if isinstance(s, LazyStr) and base == 10:
        v = s.as_int()
        if v is not None:
            return v
    s0 = s.force() if isinstance(s, LazyStr) else s
    if isinstance(s0, str):
        return int(s0, base)
    t = s0.strip(INT_SPACE)
    if isinstance(t, str):
        return int(t, base)
    a = list(t.cs)
    bad = ValueError(f'invalid literal for int() with base {base}')
    neg = False
    if a and decide_ch_eq(a[0], 45):
        neg = True
        a.pop(0)
    elif a and decide_ch_eq(a[0], 43):
        a.pop(0)
    if base == 16 and len(a) >= 2 and decide_ch_eq(a[0], 48) and (decide_ch_eq(a[1], 120) or decide_ch_eq(a[1], 88)):
        a = a[2:]
        if a and decide_ch_eq(a[0], 95):
            a.pop(0)
    if base not in (10, 16):
        ENG.abort(Unsupported(f'int() base {base}'))
    if not a:
        raise bad
    if base == 10 and not isinstance(a[0], int):
        w = ENG.pathmap.get(('value',) + tuple(c if isinstance(c, int) else c.get_id() for c in a))
        if w is not None:
            r = mkint(w[0])
            return -r if neg else r
    digits = []
    prev_us = True
    for i, c in enumerate(a):
        if decide_ch_eq(c, 95):
            if prev_us or i == len(a) - 1:
                raise bad
            prev_us = True
            continue
        prev_us = False
        v = digit_value(c, base)
        if v is None:
            raise bad
        digits.append(v)
    if base == 16:
        r = nibs_int(digits)
    else:
        n = len(digits)
        r = mkint(z3.Sum([z3_of(d) * 10 ** (n - 1 - i) for i, d in enumerate(digits)]))
    return -r if neg else r


B_HEXL = bits_of(lambda c: 97 <= c <= 102)
B_HEXU = bits_of(lambda c: 65 <= c <= 70)
_dec_groups = {}
for _c in UNIVERSE:
    if chr(_c).isdecimal():
        _z = _c - int(chr(_c))
        _dec_groups[_z] = _dec_groups.get(_z, 0) | 1 << UIDX[_c]


def digit_value(c, base):
    if isinstance(c, int):
        try:
            return int(chr(c), base)
        except ValueError:
            return None
    if base == 16 and ('nib', c.get_id()) in ENG.pathmap:
        return ENG.pathmap['nib', c.get_id()][0]
    return digit_value_slow(c, base)



def digit_value_slow(c, base):
    for z, bits in sorted(_dec_groups.items()):
        if ENG.decide_in(c, bits):
            return z3.simplify(c - z)
    if base == 16:
        if ENG.decide_in(c, B_HEXL):
            return z3.simplify(c - 87)
        if ENG.decide_in(c, B_HEXU):
            return z3.simplify(c - 55)
        fw = [x for x in UNIVERSE if x > 0xff and x not in () and _try_hex(x) is not None and not chr(x).isdecimal()]
        for x in fw:
            if decide_ch_eq(c, x):
                return _try_hex(x)
    return None


def _try_hex(x):
    try:
        return int(chr(x), 16)
    except ValueError:
        return None


def hex_char(n, upper=False):
    """Character term of a nibble (int or term)."""
    if isinstance(n, int):
        return ord('%X' % n if upper else '%x' % n)
    c = z3.simplify(z3.If(n < 10, n + 48, n + (55 if upper else 87)))
    ENG.pathmap['nib', c.get_id()] = (n, c)     # the nibble of a hex digit character
    ENG.derived(c, B_DIG | (B_HEXU if upper else B_HEXL))
    return c


# --------------------------------------------------------------------------------------------- bytes
def mkbytes(bs):
    bs = [b.as_long() if not isinstance(b, int) and z3.is_int_value(b) else b for b in bs]
    for b in bs:
        if not isinstance(b, int):
            return SymBytes(tuple(bs))
    return bytes(bs)


def bvals(b):
    if isinstance(b, (bytes, bytearray, memoryview)):
        return tuple(bytes(b))
    if isinstance(b, SymBytes):
        return b.bs
    raise TypeError(f'a bytes-like object is required, not {type(b).__name__}')


def is_bytes(x):
    return isinstance(x, (bytes, bytearray, SymBytes))


class SymBytes(Sym):
    __slots__ = ('bs',)
    pytype = bytes

    def __init__(self, bs):
        self.bs = bs

    def __len__(self):
        return len(self.bs)

    def __bool__(self):
        return len(self.bs) > 0

    def __iter__(self):
        return iter([b if isinstance(b, int) else SymInt(b) for b in self.bs])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkbytes(self.bs[i])
        b = self.bs[i]
        return b if isinstance(b, int) else SymInt(b)

    def __eq__(self, o):
        if not is_bytes(o):
            return False
        return seq_eq(self.bs, bvals(o))

    def __ne__(self, o):
        return Not(self == o)
    __hash__ = Sym.__hash__

    def __add__(self, o):
        return mkbytes(self.bs + bvals(o))

    def __radd__(self, o):
        return mkbytes(bvals(o) + self.bs)

    def __mul__(self, n):
        return mkbytes(self.bs * n)
    __rmul__ = __mul__

    def __contains__(self, o):
        if isinstance(o, (int, SymInt)):
            return any(bool(x == o) for x in self)
        return StrOps.find(_BV(self.bs), _BV(bvals(o))) >= 0

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc in ('latin-1', 'iso-8859-1'):
            return mkstr(self.bs)
        if enc not in ('ascii', 'us-ascii', 'utf-8', 'utf8'):
            ENG.abort(Unsupported('decode ' + encoding))
        for b in self.bs:
            if not in_set(b, bits_of_lt(128)):
                if enc in ('ascii', 'us-ascii'):
                    raise UnicodeDecodeError(enc, b'?', 0, 1, 'ordinal not in range(128)')
                ENG.abort(Unsupported('decode of non-ASCII symbolic bytes'))
        return mkstr(self.bs)

    def hex(self, *a):
        if a:
            return concrete(self).hex(*a)
        out = []
        for b in self.bs:
            hi, lo = nibbles(b)
            out += [hex_char(hi), hex_char(lo)]
        return mkstr(out)

    def upper(self):
        return mkbytes(cps(mkstr(self.bs).upper()) if any(not isinstance(b, int) for b in self.bs) else list(bytes(self.bs).upper()))

    def lower(self):
        return mkbytes(cps(mkstr(self.bs).lower()) if any(not isinstance(b, int) for b in self.bs) else list(bytes(self.bs).lower()))

    def translate(self, table, /, delete=b''):
        out = []
        dele = tuple(bvals(delete))
        dbits = bits_of_set(dele)
        for b in self.bs:
            if dele and in_set(b, dbits):
                continue
            if table is None:
                out.append(b)
            elif isinstance(b, int):
                out.append(bvals(table)[b])
            else:
                t = bvals(table)
                e = b
                for k in range(256):
                    if t[k] != k:
                        e = z3.If(b == k, z3_of(t[k]), e)
                if e is not b:
                    from . import models
                    e = z3.simplify(e)
                    models.sext_translate(b, e, t)
                out.append(e)
        return mkbytes(out)

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        s = bvals(p)
        return len(s) <= len(self.bs) and bool(seq_eq(self.bs[:len(s)], s))

    def endswith(self, p):
        s = bvals(p)
        return len(s) <= len(self.bs) and bool(seq_eq(self.bs[len(self.bs) - len(s):], s))

    def join(self, it):
        out = []
        for n, p in enumerate(it):
            if n:
                out.extend(self.bs)
            out.extend(bvals(p))
        return mkbytes(out)

    def _strip(self, chars, left, right):
        r = StrOps._strip(SymStr(self.bs), None if chars is None else mkstr(bvals(chars)), left, right)
        return mkbytes(list(cps(r)))

    def strip(self, c=None):
        return self._strip(c, True, True)

    def rstrip(self, c=None):
        return self._strip(c, False, True)

    def lstrip(self, c=None):
        return self._strip(c, True, False)

    def split(self, sep=None, maxsplit=-1):
        return [mkbytes(list(cps(x))) for x in SymStr(self.bs).split(None if sep is None else mkstr(bvals(sep)), maxsplit)]

    def replace(self, a, b, n=-1):
        return mkbytes(list(cps(SymStr(self.bs).replace(mkstr(bvals(a)), mkstr(bvals(b)), n))))

    def find(self, sub, *a):
        return SymStr(self.bs).find(mkstr(bvals(sub)), *a)

    def tobytes(self):
        return self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr(bytes, n):
            ENG.abort(Unsupported(f'bytes.{n}'))
        raise AttributeError(f"'bytes' object has no attribute '{n}'")

    def __repr__(self):
        return f'SymBytes({self.bs})'


class _BV:
    def __init__(self, c):
        self.c = c

    def _c(self):
        return self.c
    _match_at = StrOps._match_at


def nibbles(b):
    """(high, low) nibble of a byte value (int or term)."""
    if isinstance(b, int):
        return b >> 4, b & 15
    return z3.simplify(b / z3.IntVal(16)), z3.simplify(b % 16)


def int_from_bytes(b, byteorder='big', *, signed=False):
    if isinstance(b, (list, tuple)):
        b = mkbytes([x if isinstance(x, int) else x.e for x in b])
    bs = bvals(b)
    if byteorder == 'little':
        bs = bs[::-1]
    if all(isinstance(x, int) for x in bs):
        return int.from_bytes(bytes(bs), 'big', signed=signed)
    if signed:
        return int.from_bytes(concrete(b), byteorder, signed=True)
    nib = []
    for x in bs:
        nib.extend(nibbles(x))
    n = len(bs)
    while nib and isinstance(nib[0], int) and nib[0] == 0:
        nib.pop(0)
    return SymInt(z3.simplify(z3.Sum([z3_of(x) * 256 ** (n - 1 - i) for i, x in enumerate(bs)])), nib)


# -------------------------------------------------------------------------------- helpers over containers
def has_sym(x, depth=12):
    """Does the value contain a symbolic component?"""
    if isinstance(x, Sym):
        return True
    t = type(x)
    if t in (int, str, bool, float, bytes, type(None)):
        return False
    if depth <= 0:
        return False
    if t in (list, tuple, set, frozenset):
        return any(has_sym(v, depth - 1) for v in x)
    if isinstance(x, dict):
        return any(has_sym(k, 2) or has_sym(v, depth - 1) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(v, depth - 1) for v in x)
    if isinstance(x, BaseException):
        return any(has_sym(v, depth - 1) for v in x.args)
    if isinstance(x, type) or not hasattr(x, '__dict__'):
        return False
    return any(has_sym(v, depth - 3) for v in vars(x).values())


def as_long(v):
    return v.as_long()


def concrete(x):
    """
    Concretise: fix symbolic parts to model values on this path (adds the equality as an assumption).
    Marks the path as not exhaustively covered.
    """
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, LazyStr):
        return concrete(x.force())
    if isinstance(x, SymInt):
        v = ENG.value(x.e, as_long)
        if not ENG.memo.get(z3.simplify(x.e == v).get_id()):
            ENG.path_concretised += 1
        ENG.assume(x.e == v)
        return v
    if isinstance(x, SymFloat):
        v = ENG.value(x.e, float_of)
        ENG.path_concretised += 1
        ENG.assume(x.e == z3.FPVal(v, z3.Float64()) if v == v else z3.fpIsNaN(x.e))
        return v
    if isinstance(x, SymStr):
        return ''.join(chr(c if isinstance(c, int) else concrete(SymInt(c))) for c in x.cs)
    if isinstance(x, SymBytes):
        return bytes(c if isinstance(c, int) else concrete(SymInt(c)) for c in x.bs)
    t = type(x)
    if t in (int, str, bool, float, bytes, type(None)):
        return x
    if t in (list, tuple, set, frozenset):
        return t(concrete(v) for v in x)
    if t is dict:
        return {concrete(k): concrete(v) for k, v in x.items()}
    if has_sym(x):
        ENG.abort(Unsupported(f'concretise {t.__name__}'))
    return x


def float_of(v):
    s = engine.fp_to_hex(v)
    return float(s) if s in ('nan', 'inf', '-inf') else float.fromhex(s)


# ---------------------------------------------------------------------------------------- formatting
def to_text(v, conv=None):
    """str(v)/repr(v) as a possibly lazy text."""
    if conv == 114:
        return repr_text(v)
    if is_str(v):
        return v
    if isinstance(v, SymInt):
        return LazyStr([IntFmt(v)])
    if isinstance(v, SymBool):
        return str(bool(v))
    if type(type(v).__str__) is types.FunctionType and not isinstance(v, Sym):
        from . import rt
        return rt.call(type(v).__str__, v)
    if has_sym(v):
        if isinstance(v, (list, dict, tuple, SymBytes, set, frozenset)):
            return LazyStr([ObjFmt(lambda: repr_text(v))])
        if isinstance(v, BaseException):
            if len(v.args) == 1:
                return to_text(v.args[0])
        return LazyStr([ObjFmt(lambda: str(concrete(v)))])
    if isinstance(v, (list, dict, tuple, set, frozenset)):
        return repr_text(v)
    return str(v)


def repr_text(v):
    if isinstance(v, SymInt):
        return LazyStr([IntFmt(v)])
    if isinstance(v, (SymStr, LazyStr)):
        s = v.force() if isinstance(v, LazyStr) else v
        if isinstance(s, str):
            return repr(s)
        return LazyStr([ObjFmt(lambda: repr_str(s))])
    if isinstance(v, SymBool):
        return repr(bool(v))
    if isinstance(v, Sym):
        return LazyStr([ObjFmt(lambda: repr(concrete(v)))])
    from . import rt
    if not has_sym(v) and not rt.NONDET['set_order'] and type(v).__module__ in ('builtins', 'collections'):
        return repr(v)
    if isinstance(v, (list, tuple, set, frozenset)) and (v or has_sym(v)):
        parts = []
        for i, x in enumerate(rt.it(v)):
            parts += [', '] * (i > 0) + [repr_text(x)]
        o, c = ('[', ']') if isinstance(v, list) else ('(', ',)' if len(v) == 1 else ')') if isinstance(v, tuple) else ('{', '}')
        if isinstance(v, frozenset):
            o, c = 'frozenset({', '})'
        parts = [o, *parts, c]
        return LazyStr(parts) if any(isinstance(x, Sym) for x in parts) else ''.join(parts)
    if isinstance(v, dict):
        parts = []
        for i, (k, x) in enumerate(v.items()):
            parts += [', '] * (i > 0) + [repr_text(k), ': ', repr_text(x)]
        parts = ['{', *parts, '}']
        return LazyStr(parts) if any(isinstance(x, Sym) for x in parts) else ''.join(parts)
    if isinstance(type(v).__repr__, types.FunctionType) and rt.MARK in type(v).__repr__.__globals__:
        return rt.call(type(v).__repr__, v)
    if not has_sym(v):
        return repr(v)
    return LazyStr([ObjFmt(lambda: repr(concrete(v)))])


def repr_str(s):
    """repr of symbolic text: forks on quotes and on characters that are escaped."""
    a = cps(s)
    sq = any([decide_ch_eq(c, 39) for c in a])
    q = 34 if sq and not any([decide_ch_eq(c, 34) for c in a]) else 39
    plain = bits_of_plain()
    out = [q]
    for c in a:
        if isinstance(c, int):
            r = repr(chr(c))[1:-1]
            out.extend(map(ord, r if c not in (34, 39) else '\\' + chr(c) if c == q else chr(c)))
        elif decide_ch_eq(c, q):
            out += [92, q]
        elif in_set(c, plain):
            out.append(c)
        else:
            for x, y in ((92, 92), (10, 110), (13, 114), (9, 116)):
                if decide_ch_eq(c, x):
                    out += [92, y]
                    break
            else:
                if ENG.decide_in(c, bits_of_lt(256)):
                    out += [92, 120, hex_char(z3.simplify(c / 16)), hex_char(z3.simplify(c % 16))]
                else:
                    out.extend(map(ord, repr(chr(SymInt(c).__index__()))[1:-1]))
    return mkstr(out + [q])


def bits_of_plain():
    r = _bc.get('plain')
    if r is None:
        r = _bc['plain'] = bits_of(lambda c: c in (34, 39) or repr(chr(c))[1:-1] == chr(c))
    return r


def fmt_value(v, conv, spec):
    """Text of one replacement field."""
    if conv in (114, 97):
        v = repr_text(v)
    elif conv == 115:
        v = to_text(v)
    if isinstance(spec, (SymStr, LazyStr)):
        spec = concrete(spec)
    if spec in (None, ''):
        return to_text(v)
    if not isinstance(v, Sym):
        return format(v, spec) if not has_sym(v) else format(concrete(v), spec)
    import re
    m = re.match(r'^(?:(.)?([<>^=]))?([-+ ])?(#)?(0)?(\d+)?(?:\.(\d+))?([a-zA-Z%])?$', spec, re.S)
    if not m:
        return format(concrete(v), spec)
    fill, align, sign, alt, zero, width, prec, typ = m.groups()
    width = int(width) if width else 0
    if is_str(v):
        if typ not in (None, 's') or sign or alt or align == '=':
            raise ValueError('Invalid format specifier for str')
        if zero and not align:
            fill, align = '0', '<'
        if prec is not None:
            v = v[:int(prec)]
        if not width:
            return v
        if align == '^':
            n = max(0, width - len(v))
            return mkstr(cps(fill or ' ') * (n // 2) + cps(v) + cps(fill or ' ') * (n - n // 2))
        f = {None: 'ljust', '<': 'ljust', '>': 'rjust'}[align]
        return getattr(v, f)(width, fill or ' ')
    if isinstance(v, SymInt):
        if sign or alt or prec:
            return format(concrete(v), spec)
        if typ in (None, 'd'):
            if (zero and not align or fill == '0' and align in ('>', '=')) and width:
                return int_fixed(v, width)
            t = int_to_str(v)
        elif typ in ('x', 'X'):
            t = int_to_hex(v, typ == 'X', width if zero or fill == '0' else 0)
        else:
            return format(concrete(v), spec)
        if zero and not align:
            return t.zfill(width)
        if align == '^':
            return fmt_value(t, None, f'{fill or " "}^{width}')
        f = {None: 'rjust', '<': 'ljust', '>': 'rjust'}.get(align)
        if f is None:
            return t.zfill(width)
        return getattr(t, f)(width, fill or ' ')
    return format(concrete(v), spec)


def int_fixed(v, width):
    """Zero-padded decimal text, without forking on leading zeros."""
    if isinstance(v, int):
        return '%0*d' % (width, v)
    if ENG.decide(z3.And(v.e >= 0, v.e < 10 ** width)):
        if width == 1:
            return int_to_str(v)
        return mkstr(digit_vars(v.e, width, B_DIG))
    return int_to_str(v).zfill(width)


def int_to_hex(v, upper=False, width=0):
    """Hex text of a SymInt without prefix, at least width digits."""
    if isinstance(v, int):
        return ('%X' if upper else '%x') % v if not width else ('%0*X' if upper else '%0*x') % (width, v)
    nib = v.nib
    if nib is None:
        if ENG.decide(v.e < 0):
            return format(concrete(v), 'X' if upper else 'x')
        n = max(1, width)
        while not ENG.decide(v.e < 16 ** n):
            n += 1
            if n > 32:
                ENG.abort(Unsupported('hex of a large integer'))
        nib = [z3.simplify((v.e / z3.IntVal(16 ** i)) % 16) for i in range(n - 1, -1, -1)]
        nib = [x.as_long() if z3.is_int_value(x) else x for x in nib]
    nib = list(nib)
    while len(nib) > max(1, width):      # drop leading zero digits
        h = nib[0]
        if (h == 0) if isinstance(h, int) else ENG.decide(h == 0):
            nib.pop(0)
        else:
            break
    nib = [0] * (width - len(nib)) + nib
    return mkstr([hex_char(x, upper) for x in nib])


def fjoin(parts):
    """Result of an f-string: parts are str or (value, conv, spec)."""
    out = []
    sym = False
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if isinstance(v, (int, str, float)) and not isinstance(v, Sym) and not isinstance(spec, Sym):
                if conv == 114:
                    v = repr(v)
                out.append(format(v, spec) if spec else str(v) if not isinstance(v, str) else v)
                continue
            t = fmt_value(v, conv, spec)
            sym = sym or isinstance(t, Sym)
            out.append(t)
        else:
            out.append(p)
    if not sym:
        return ''.join(out)
    lazy = any(isinstance(t, LazyStr) for t in out)
    if lazy:
        return LazyStr(out)
    r = []
    for t in out:
        r.extend(cps(t))
    return mkstr(r)


def fmt_percent(fmt, args):
    import re
    f = concrete(fmt) if isinstance(fmt, Sym) else fmt
    if isinstance(args, dict):
        return f % concrete(args)
    a = list(args) if isinstance(args, tuple) else [args]
    out = []
    pos = 0
    for m in re.finditer(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])', f):
        out.append(f[pos:m.start()])
        pos = m.end()
        flags, width, prec, typ = m.groups()
        if typ == '%':
            out.append('%')
            continue
        if width == '*':
            width = a.pop(0).__index__()
        if not a:
            raise TypeError('not enough arguments for format string')
        v = a.pop(0)
        if typ == 's' and isinstance(v, (set, frozenset, list, tuple, dict)):
            v = to_text(v)
        if not has_sym(v):
            out.append(('%' + flags + (str(width) if width else '') + ('.' + prec if prec else '') + typ) % (v,))
            continue
        if typ in 'di' and isinstance(v, SymInt) and not flags and not width:
            out.append(LazyStr([IntFmt(v)]))
        elif typ in 'di' and isinstance(v, SymInt) and flags == '0' and width:
            out.append(int_fixed(v, int(width)))
        elif typ == 'c' and isinstance(v, (SymStr, LazyStr)) and not flags and not width and len(v) == 1:
            out.append(v)
        elif typ in 'xX' and isinstance(v, SymInt) and flags in ('', '0'):
            w = int(width or 0)
            t = int_to_hex(v, typ == 'X', w if flags == '0' else 0)
            out.append(t.rjust(w) if w and flags == '' else t)
        elif typ == 's' and not flags and not width and not prec:
            out.append(to_text(v))
        elif typ == 'r' and not flags and not width and not prec:
            out.append(repr_text(v))
        else:
            out.append(('%' + flags + (str(width) if width else '') + ('.' + prec if prec else '') + typ) % (concrete(v),))
    out.append(f[pos:])
    if a:
        raise TypeError('not all arguments converted during string formatting')
    return fjoin(out) if not any(isinstance(x, Sym) for x in out) else LazyStr(out)


def fmt_brace(fmt, args, kw):
    import string
    f = concrete(fmt) if isinstance(fmt, Sym) else fmt
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field.isidentifier():
            v = kw[field]
        else:
            return f.format(*concrete(list(args)), **concrete(kw))
        if '{' in spec:
            spec = fmt_brace(spec, args, kw)
        out.append(fmt_value(v, ord(conv) if conv else None, spec))
    return LazyStr(out) if any(isinstance(x, Sym) for x in out) else ''.join(out)
