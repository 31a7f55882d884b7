"""Harness context, symbolic side.  The concrete twin is in replay.py; both offer the same methods."""
import os
import sys
import traceback

import z3

from . import engine, rt
from . import values as V
from .engine import ENG, UNIVERSE, UALL, bits_of_set, PathAbort, Unsupported
from .values import SymInt, SymStr, SymBytes, SymFloat, SymBool, mkstr, mkbytes, mkint, has_sym, is_str

ENG_TB = bool(os.environ.get('SYMX_TB'))     # debugging: print the tracebacks of exceptions of the code under test
ASCII = ''.join(map(chr, range(32, 127)))
ALPHABETS = {}


def alpha_bits(a):
    b = ALPHABETS.get(a)
    if b is None:
        b = ALPHABETS[a] = UALL if a is None else bits_of_set(set(map(ord, a)))
    return b


class Sx:
    symbolic = True

    def __init__(self, params, known):
        self.params = params
        self.known_ids = known
        self.trace = []
        self.label_prefix = ''

    def start(self):
        self.trace = []
        m = sys.modules.get('symx.models')
        if m is not None:
            m.FS.clear()

    def p(self, name, default=None):
        return self.params.get(name, default)

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        n = ENG.uname(name)
        v = ENG.new_int(n, lo, hi)
        ENG.register(n, 'int', v)
        return SymInt(v)

    def bool(self, name):
        return self.pick(name, (False, True))

    def pick(self, name, options):
        n = ENG.uname(name)
        options = list(options)
        i = ENG.choose(len(options))
        ENG.register(n, 'pick', i)
        return options[i]

    def str(self, name, lo, hi=None, alphabet=None, first=None):
        """Text of lo..hi characters; each character any member of the alphabet (None: whole universe)."""
        n = ENG.uname(name)
        hi = lo if hi is None else hi
        k = lo + ENG.choose(hi - lo + 1)
        bits = alpha_bits(alphabet)
        fb = alpha_bits(first) if first is not None else bits
        cs = tuple(ENG.new_char(f'{n}.{i}', fb if i == 0 else bits) for i in range(k))
        ENG.register(n, 'str', cs)
        return mkstr(cs)

    def bytes(self, name, lo, hi=None):
        n = ENG.uname(name)
        hi = lo if hi is None else hi
        k = lo + ENG.choose(hi - lo + 1)
        bits = V.bits_of_lt(256)
        bs = tuple(ENG.new_char(f'{n}.{i}', bits) for i in range(k))
        ENG.register(n, 'bytes', bs)
        return mkbytes(bs)

    def float(self, name, finite=True):
        n = ENG.uname(name)
        e = ENG.var(n, 'fp')
        ENG.register(n, 'float', e)
        ENG.rel.add(e.get_id())
        if finite:
            ENG.add_cons_cached(('fin', e.get_id()), lambda: z3.Not(z3.Or(z3.fpIsNaN(e), z3.fpIsInf(e))))
        return SymFloat(e)

    # ---- logic
    def assume(self, c):
        if isinstance(c, SymBool):
            ENG.assume(c.e)
        elif not c:
            ENG.abort(PathAbort('assume'))

    def check(self, c, label, detail=None):
        if not isinstance(c, (bool, SymBool)):
            c = bool(c)
        ENG.check(c.e if isinstance(c, SymBool) else c, label, detail)

    def reach(self, tag):
        ENG.reached[tag] = ENG.reached.get(tag, 0) + 1

    def discard(self):
        ENG.abort(PathAbort('discard'))

    def same(self, a, b):
        return rt.same(a, b)

    def eq(self, a, b):
        return rt.eq(a, b)

    def And(self, *xs):
        return V.And(*xs)

    def Or(self, *xs):
        return V.Or(*xs)

    def Not(self, x):
        return V.Not(x)

    def isfloat(self, x):
        return rt.pytype_of(x) is float

    def pytype(self, x):
        return rt.pytype_of(x)

    def call(self, f, *a, **kw):
        """('ok', result) or ('err', exception type name, exception)."""
        try:
            r = rt.call(f, *a, **kw)
        except RecursionError as e:
            self.trace.append('RecursionError')
            return ('err', 'RecursionError', e)
        except Exception as e:
            self.trace.append(type(e).__name__)
            if ENG_TB:
                traceback.print_exc()
            return ('err', type(e).__name__, e)
        self.trace.append('ok')
        return ('ok', r, None)

    def note(self, x):
        self.trace.append(str(x))

    def known(self, kid):
        return kid in self.known_ids

    def deepcopy(self, x):
        return rt.deepcopy(x, {})

    def set_order(self, on=True):
        rt.NONDET['set_order'] = on
        rt.NONDET['memo'] = {}

    def order_free(self, label, f):
        """f() gives the same result (or type of exception) whatever the order in which the sets it makes are iterated.
        Returns ('ok', result) or ('err', name)."""
        a = self._try(f)
        self.trace.append(a[0] if a[0] == 'ok' else a[1])
        self.set_order(True)
        b = self._try(f)
        self.set_order(False)
        self.check(a[0] == b[0] and (rt.same(a[1], b[1])), label, (a, b))
        return a

    @staticmethod
    def _try(f):
        try:
            return 'ok', f()
        except RecursionError:
            return 'err', 'RecursionError'
        except Exception as e:
            if ENG_TB:
                traceback.print_exc()
            return 'err', type(e).__name__

    def stub(self, module, name, fn):
        """Replace module.name by fn in the symbolic run only."""
        m = sys.modules.get(module)
        if m is not None and hasattr(m, name):
            self._stubs.append((m, name, getattr(m, name)))
            setattr(m, name, fn)
            return True
        return False
    _stubs = []

    def dir(self, files):
        """Path of a directory that holds exactly these files {name: text}.  The names are on disk, the text is in memory."""
        from . import models
        d = models.symdir()
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))
        for n, text in files.items():
            f = os.path.join(d, n)
            open(f, 'w').close()
            models.FS[f] = text
        return d

    def unstub(self):
        while self._stubs:
            m, n, v = self._stubs.pop()
            setattr(m, n, v)
