"""
Model of datetime: CPython's own pure Python implementation (_pydatetime), instrumented, so that symbolic
integers flow through calendar arithmetic.  time.gmtime gets a model for symbolic seconds.
"""
import operator
import time as _time

from . import rt
from . import instrument as I
from . import values as V
from .engine import ENG, Unsupported
from .values import Sym, SymInt, SymFloat, concrete


@rt.handler(operator.index)
def m_index(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, Sym) and x.pytype is not bool:
        raise TypeError(f"'{x.pytype.__name__}' object cannot be interpreted as an integer")
    return operator.index(x)


@rt.handler(_time.gmtime, _time.localtime)
def m_gmtime(t=None):
    if isinstance(t, SymInt):
        dt = I.load('sym_datetime')
        base = dt.datetime(1970, 1, 1)
        d = base + dt.timedelta(seconds=t)
        return (d.year, d.month, d.day, d.hour, d.minute, d.second, 0, 1, 0)
    return _time.gmtime(concrete(t) if isinstance(t, Sym) else t)


def install():
    I.MODELS['datetime'] = I.load('sym_datetime')
