"""Shared helpers of the harnesses (run symbolically and, on replay, concretely)."""
import jadn
from jadn.codec import Codec
from h_spec import Spec, Reject, Either, AnyValue

MODES = [(True, True), (True, False), (False, True), (False, False)]


def rejects(r):
    """A clean rejection: ValueError or TypeError."""
    return r[0] == 'err' and isinstance(r[2], (ValueError, TypeError))


def schema_of(*types):
    return {'types': [list(t) for t in types]}


def diff(sx, schema, t, x, op, vr=True, vs=True, tag=None):
    """The real codec and the reference semantics agree on op ('encode'/'decode') of x under type t."""
    tag = tag or t
    c = Codec(schema, verbose_rec=vr, verbose_str=vs)
    r = sx.call(c.encode if op == 'encode' else c.decode, t, x)
    sp = Spec(schema, vr, vs)
    want = None
    try:
        want = sp.enc(t, x) if op == 'encode' else sp.dec(t, x)
        st = 'ok'
    except Reject:
        st = 'reject'
    except Either:
        st = 'either'
    if st == 'ok':
        sx.check(r[0] == 'ok', f'{tag} {op}: a valid value is rejected', r[1])
        sx.check(want is AnyValue or sx.same(r[1], want), f'{tag} {op}: wrong result', (r[1], want))
    elif st == 'reject':
        sx.check(r[0] == 'err', f'{tag} {op}: an invalid value is accepted', r[1])
        sx.check(rejects(r), f'{tag} {op}: raises {r[1]}')
    sx.note(st)
    sx.reach(f'{tag}-{op}-{st}')
    return st, r


def anyval(sx, name, depth=0, width=1, kinds=None, slen=1):
    """A JSON-like value of any type (bytes too)."""
    kinds = kinds or ('none', 'bool', 'int', 'float', 'str', 'bytes', 'list', 'dict')
    k = sx.pick(name + '.kind', kinds)
    if k == 'none':
        return None
    if k == 'bool':
        return sx.bool(name + '.b')
    if k == 'int':
        return sx.int(name + '.i', -10 ** 20, 10 ** 20)
    if k == 'float':
        return sx.float(name + '.f')
    if k == 'str':
        return sx.str(name + '.s', 0, slen)
    if k == 'bytes':
        return sx.bytes(name + '.y', 0, slen)
    n = sx.pick(name + '.n', list(range(width + 1))) if depth > 0 else 0
    if k == 'list':
        return [anyval(sx, f'{name}.{i}', depth - 1, width, kinds, slen) for i in range(n)]
    out = {}
    for i in range(n):
        kk = sx.str(f'{name}.k{i}', 1) if sx.bool(f'{name}.kstr{i}') else sx.int(f'{name}.k{i}', 0, 9)
        sx.assume(kk not in out)
        out[kk] = anyval(sx, f'{name}.{i}', depth - 1, width, kinds, slen)
    return out
