"""
Model of module re over symbolic text: a backtracking matcher built from re._parser's parse tree.
Character sets are computed with the real re module over the universe, so IGNORECASE, \\w, \\d etc. agree with it.
All-concrete calls go to the real re module.
"""
import re as _re
import re._constants as C
import re._parser as sp

from . import values as V
from .engine import ENG, UNIVERSE, UIDX, Unsupported, bits_of
from .values import SymStr, LazyStr, SymBytes, Sym, mkstr, mkbytes, cps, in_set, decide_ch_eq, is_str

_setcache = {}


class Set:
    __slots__ = ('bits', 'pred')

    def __init__(self, bits, pred):
        self.bits, self.pred = bits, pred

    def has(self, c):
        return in_set(c, self.bits, self.pred)


def mkset(src, flags):
    """Set of characters matched by the one-character regex src."""
    key = (src, flags)
    s = _setcache.get(key)
    if s is None:
        p = _re.compile(src, flags | _re.S if src == '.' and flags & _re.S else flags)
        pred = lambda c: p.fullmatch(chr(c)) is not None
        s = _setcache[key] = Set(bits_of(pred), pred)
    return s


def lit(c):
    return '\\U%08x' % c


CAT = {C.CATEGORY_DIGIT: r'\d', C.CATEGORY_NOT_DIGIT: r'\D', C.CATEGORY_SPACE: r'\s', C.CATEGORY_NOT_SPACE: r'\S',
       C.CATEGORY_WORD: r'\w', C.CATEGORY_NOT_WORD: r'\W'}


def class_src(items):
    out = ['[']
    for op, av in items:
        if op is C.NEGATE:
            out.append('^')
        elif op is C.LITERAL:
            out.append(lit(av))
        elif op is C.RANGE:
            out.append(f'{lit(av[0])}-{lit(av[1])}')
        elif op is C.CATEGORY:
            out.append(CAT[av])
        else:
            ENG.abort(Unsupported(f're class item {op}'))
    return ''.join(out) + ']'


class Compiler:
    """Node compilation: a matcher is m(st, i, g, k) -> result of continuation k(i, g) or None."""

    def __init__(self, flags):
        self.flags = flags

    def one(self, op, av, flags):
        """Set for a single-character node, or None."""
        f = flags & (_re.I | _re.A | _re.U | _re.S)
        if op is C.LITERAL:
            return mkset(lit(av), f)
        if op is C.NOT_LITERAL:
            return mkset(f'[^{lit(av)}]', f)
        if op is C.ANY:
            return mkset('.', f)
        if op is C.IN:
            return mkset(class_src(av), f)
        return None

    def seq(self, items, flags):
        ms = [self.node(op, av, flags) for op, av in items]
        if not ms:
            return lambda st, i, g, k: k(i, g)
        if len(ms) == 1:
            return ms[0]
        m = ms[-1]
        for a in reversed(ms[:-1]):
            m = self.pair(a, m)
        return m

    @staticmethod
    def pair(a, b):
        return lambda st, i, g, k: a(st, i, g, lambda j, h: b(st, j, h, k))

    def node(self, op, av, flags):
        s = self.one(op, av, flags)
        if s is not None:
            def m(st, i, g, k):
                if i < st.end and s.has(st.t[i]):
                    return k(i + 1, g)
            return m
        if op is C.BRANCH:
            alts = [self.seq(x, flags) for x in av[1]]

            def m(st, i, g, k):
                for a in alts:
                    r = a(st, i, g, k)
                    if r is not None:
                        return r
            return m
        if op is C.SUBPATTERN:
            group, add, rem, p = av
            inner = self.seq(p, (flags | add) & ~rem)
            if group is None:
                return inner

            def m(st, i, g, k):
                def done(j, h):
                    h2 = dict(h)
                    h2[group] = (i, j)
                    return k(j, h2)
                return inner(st, i, g, done)
            return m
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            hi = None if hi is C.MAXREPEAT else hi
            single = self.one(p[0][0], p[0][1], flags) if len(p) == 1 else None
            if single is not None:
                return self.rep1(single, lo, hi, op)
            return self.rep(self.seq(p, flags), lo, hi, op)
        if op is C.ATOMIC_GROUP:
            inner = self.seq(av, flags)

            def m(st, i, g, k):
                r = inner(st, i, g, lambda j, h: (j, h))
                return None if r is None else k(*r)
            return m
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            inner = self.seq(p, flags)
            neg = op is C.ASSERT_NOT
            width = p.getwidth()[0] if d < 0 else 0

            def m(st, i, g, k):
                j = i - width
                r = inner(st, j, g, lambda e, h: (e, h) if d > 0 or e == i else None) if j >= 0 else None
                if neg:
                    return k(i, g) if r is None else None
                return k(i, r[1]) if r is not None else None
            return m
        if op is C.AT:
            return self.at(av, flags)
        if op is C.GROUPREF:
            def m(st, i, g, k):
                if av not in g:
                    return None
                a, b = g[av]
                n = b - a
                if i + n > st.end:
                    return None
                for x in range(n):
                    if not decide_ch_eq(st.t[a + x], st.t[i + x]):
                        return None
                return k(i + n, g)
            if flags & _re.I:
                ENG.abort(Unsupported('case-insensitive backreference'))
            return m
        if op is C.GROUPREF_EXISTS:
            grp, yes, no = av
            y = self.seq(yes, flags)
            n = self.seq(no, flags) if no else (lambda st, i, g, k: k(i, g))
            return lambda st, i, g, k: (y if grp in g else n)(st, i, g, k)
        if op is C.FAILURE:
            return lambda st, i, g, k: None
        ENG.abort(Unsupported(f're operator {op}'))

    def at(self, av, flags):
        nl = Set(V.bits_of_set([10]), lambda c: c == 10)
        word = mkset(r'\w', flags & (_re.A | _re.U))

        def cond(st, i):
            if av is C.AT_BEGINNING:
                return i == 0 or (flags & _re.M and nl.has(st.t[i - 1]))
            if av is C.AT_BEGINNING_STRING:
                return i == 0
            if av is C.AT_END:
                if i == st.end:
                    return True
                if flags & _re.M:
                    return nl.has(st.t[i])
                return i == st.end - 1 and nl.has(st.t[i])
            if av is C.AT_END_STRING:
                return i == st.end
            if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = i > 0 and word.has(st.t[i - 1])
                b = i < st.end and word.has(st.t[i])
                return (a != b) == (av is C.AT_BOUNDARY)
            ENG.abort(Unsupported(f're anchor {av}'))
        return lambda st, i, g, k: k(i, g) if cond(st, i) else None

    @staticmethod
    def rep1(s, lo, hi, op):
        if op is C.MIN_REPEAT:
            def m(st, i, g, k):
                j = i
                n = 0
                while True:
                    if n >= lo:
                        r = k(j, g)
                        if r is not None:
                            return r
                    if (hi is not None and n >= hi) or j >= st.end or not s.has(st.t[j]):
                        return None
                    j += 1
                    n += 1
            return m

        def m(st, i, g, k):
            j = i
            lim = st.end if hi is None else min(st.end, i + hi)
            while j < lim and s.has(st.t[j]):
                j += 1
            if op is C.POSSESSIVE_REPEAT:
                return k(j, g) if j - i >= lo else None
            while j - i >= lo:
                r = k(j, g)
                if r is not None:
                    return r
                j -= 1
            return None
        return m

    @staticmethod
    def rep(inner, lo, hi, op):
        if op is C.MIN_REPEAT:
            def m(st, i, g, k):
                def step(j, h, n):
                    if n >= lo:
                        r = k(j, h)
                        if r is not None:
                            return r
                    if hi is not None and n >= hi:
                        return None
                    return inner(st, j, h, lambda e, h2: step(e, h2, n + 1) if e != j or n < lo else None)
                return step(i, g, 0)
            return m

        def m(st, i, g, k):
            def step(j, h, n):
                if hi is None or n < hi:
                    r = inner(st, j, h, lambda e, h2: step(e, h2, n + 1) if e != j or n < lo else None)
                    if r is not None:
                        return r
                return k(j, h) if n >= lo else None
            if op is C.POSSESSIVE_REPEAT:
                k0 = k
                k = lambda j, h: (j, h)
                r = step(i, g, 0)
                return None if r is None else k0(*r)
            return step(i, g, 0)
        return m


class State:
    __slots__ = ('t', 'end')

    def __init__(self, t, end):
        self.t, self.end = t, end


class Match:
    def __init__(self, pat, text, t, g, start, end, pos, endpos):
        self.re, self.string, self._t, self._g = pat, text, t, g
        self._span = (start, end)
        self.pos, self.endpos = pos, endpos

    def _mk(self, a, b):
        return mkbytes(list(self._t[a:b])) if V.is_bytes(self.string) else mkstr(self._t[a:b])

    def _idx(self, n):
        if isinstance(n, str):
            if n not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[n]
        if not 0 <= n <= self.re.groups:
            raise IndexError('no such group')
        return n

    def _one(self, n, default=None):
        n = self._idx(n)
        if n == 0:
            return self._mk(*self._span)
        if n in self._g:
            return self._mk(*self._g[n])
        return default

    def group(self, *ns):
        if not ns:
            return self._one(0)
        if len(ns) == 1:
            return self._one(ns[0])
        return tuple(self._one(n) for n in ns)

    def __getitem__(self, n):
        return self._one(n)

    def groups(self, default=None):
        return tuple(self._one(n, default) for n in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.re.groupindex.items()}

    def span(self, n=0):
        n = self._idx(n)
        return self._span if n == 0 else self._g.get(n, (-1, -1))

    def start(self, n=0):
        return self.span(n)[0]

    def end(self, n=0):
        return self.span(n)[1]

    def expand(self, template):
        return expand(template, self)

    @property
    def lastindex(self):
        return max(self._g, key=lambda n: (self._g[n][1], self._g[n][0], -n)) if self._g else None

    @property
    def lastgroup(self):
        li = self.lastindex
        for k, v in self.re.groupindex.items():
            if v == li:
                return k
        return None

    def __bool__(self):
        return True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def expand(template, m):
    if isinstance(template, Sym):
        template = V.concrete(template)
    if isinstance(template, str) and '\\' not in template:
        return template
    parts = sp.parse_template(template, m.re.native)
    out = []
    for p in parts:
        if isinstance(p, int):
            v = m._one(p)
            if v is not None:
                out.extend(cps(v))
        else:
            out.extend(cps(p))
    return mkstr(out)


class Pattern:
    def __init__(self, native):
        self.native = native
        self.pattern, self.flags, self.groups, self.groupindex = native.pattern, native.flags, native.groups, dict(native.groupindex)
        self._m = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __eq__(self, o):
        return isinstance(o, Pattern) and o.native == self.native

    def __hash__(self):
        return hash(self.native)

    def matcher(self):
        if self._m is None:
            p = self.pattern
            if isinstance(p, bytes):
                tree = sp.parse(p, self.flags)
                fl = self.flags | _re.A
            else:
                tree = sp.parse(p, self.flags & ~_re.DEBUG)
                fl = tree.state.flags | self.flags
            if fl & _re.L:
                ENG.abort(Unsupported('re.LOCALE'))
            self._m = Compiler(fl).seq(tree, fl)
        return self._m

    def _text(self, s):
        if V.is_bytes(s):
            return V.bvals(s)
        if not is_str(s):
            raise TypeError(f"expected string or bytes-like object, got '{s.pytype.__name__ if isinstance(s, Sym) else type(s).__name__}'")
        return cps(s)

    def _at(self, s, t, i, end, full, nonempty=False, pos=0):
        st = State(t, end)

        def fin(j, g):
            if full and j != end:
                return None
            if nonempty and j == i:
                return None
            return (j, g)
        r = self.matcher()(st, i, {}, fin)
        if r is None:
            return None
        return Match(self, s, t, r[1], i, r[0], pos, end)

    def _lim(self, t, pos, endpos):
        n = len(t)
        pos = max(0, min(pos, n))
        end = n if endpos is None else max(0, min(endpos, n))
        return pos, end

    def match(self, string, pos=0, endpos=None):
        if type(string) in (str, bytes):
            return self.native.match(string, pos, *([] if endpos is None else [endpos]))
        t = self._text(string)
        pos, end = self._lim(t, pos, endpos)
        return self._at(string, t, pos, end, False, pos=pos)

    def fullmatch(self, string, pos=0, endpos=None):
        if type(string) in (str, bytes):
            return self.native.fullmatch(string, pos, *([] if endpos is None else [endpos]))
        t = self._text(string)
        pos, end = self._lim(t, pos, endpos)
        return self._at(string, t, pos, end, True, pos=pos)

    def search(self, string, pos=0, endpos=None):
        if type(string) in (str, bytes):
            return self.native.search(string, pos, *([] if endpos is None else [endpos]))
        t = self._text(string)
        pos, end = self._lim(t, pos, endpos)
        for i in range(pos, end + 1):
            m = self._at(string, t, i, end, False, pos=pos)
            if m is not None:
                return m
        return None

    def _iter(self, string, pos=0, endpos=None):
        t = self._text(string)
        pos, end = self._lim(t, pos, endpos)
        i = pos
        nonempty = False
        while i <= end:
            m = None
            j = i
            while j <= end:
                m = self._at(string, t, j, end, False, nonempty and j == i, pos=pos)
                if m is not None:
                    break
                j += 1
            if m is None:
                return
            yield m
            i = m._span[1]
            nonempty = m._span[0] == m._span[1]

    def finditer(self, string, pos=0, endpos=None):
        if type(string) in (str, bytes):
            return self.native.finditer(string, pos, *([] if endpos is None else [endpos]))
        return self._iter(string, pos, endpos)

    def findall(self, string, pos=0, endpos=None):
        if type(string) in (str, bytes):
            return self.native.findall(string, pos, *([] if endpos is None else [endpos]))
        out = []
        for m in self._iter(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m._one(1, ''))
            else:
                out.append(m.groups(''))
        return out

    def subn(self, repl, string, count=0):
        from . import rt
        if type(string) is str and (type(repl) is str):
            return self.native.subn(repl, string, count)
        if type(string) is str:
            it = self.native.finditer(string)
            t = cps(string)
        else:
            it = self._iter(string)
            t = self._text(string)
        out, pos, n = [], 0, 0
        for m in it:
            if count and n >= count:
                break
            a, b = m.span()
            out.extend(t[pos:a])
            r = expand(repl, m) if is_str(repl) and isinstance(m, Match) else m.expand(repl) if isinstance(repl, str) else rt.call(repl, m)
            out.extend(cps(r))
            pos = b
            n += 1
        out.extend(t[pos:])
        return mkstr(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        if type(string) in (str, bytes):
            return self.native.split(string, maxsplit)
        t = self._text(string)
        out, pos, n = [], 0, 0
        for m in self._iter(string):
            if maxsplit and n >= maxsplit:
                break
            a, b = m.span()
            out.append(mkstr(t[pos:a]))
            out.extend(m.groups())
            pos = b
            n += 1
        out.append(mkstr(t[pos:]))
        return out

    def scanner(self, string, pos=0, endpos=None):
        ENG.abort(Unsupported('re scanner'))


_pcache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if isinstance(pattern, _re.Pattern):
        flags, pattern = pattern.flags, pattern.pattern
    if isinstance(pattern, Sym):
        if not (is_str(pattern) or V.is_bytes(pattern)):
            raise TypeError('first argument must be string or compiled pattern')
        p = pattern.force() if isinstance(pattern, LazyStr) else pattern
        if isinstance(p, Sym):
            n = ENG.unsup_msgs
            n['concretised regex pattern'] = n.get('concretised regex pattern', 0) + 1
        pattern = V.concrete(p)
    flags = int(flags)
    key = (pattern, flags, type(pattern))
    r = _pcache.get(key)
    if r is None:
        r = _pcache[key] = Pattern(_re.compile(pattern, flags))
    return r


def match(pattern, string, flags=0):
    return compile(pattern, flags).match(string)


def fullmatch(pattern, string, flags=0):
    return compile(pattern, flags).fullmatch(string)


def search(pattern, string, flags=0):
    return compile(pattern, flags).search(string)


def findall(pattern, string, flags=0):
    return compile(pattern, flags).findall(string)


def finditer(pattern, string, flags=0):
    return compile(pattern, flags).finditer(string)


def sub(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).sub(repl, string, count)


def subn(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).subn(repl, string, count)


def split(pattern, string, maxsplit=0, flags=0):
    return compile(pattern, flags).split(string, maxsplit)


def escape(p):
    if isinstance(p, Sym):
        special = set(map(ord, '()[]{}?*+-|^$\\.&~# \t\n\r\v\f'))
        bits = V.bits_of_set(special)
        out = []
        for c in cps(p):
            if in_set(c, bits, lambda x: x in special):
                out.append(92)
            out.append(c)
        return mkstr(out)
    return _re.escape(p)


def purge():
    pass


for _n in ('A', 'ASCII', 'I', 'IGNORECASE', 'L', 'LOCALE', 'M', 'MULTILINE', 'S', 'DOTALL', 'U', 'UNICODE', 'X', 'VERBOSE',
           'DEBUG', 'NOFLAG', 'RegexFlag', 'error'):
    globals()[_n] = getattr(_re, _n)
PatternError = _re.error
