"""C06: a value with a semantic format is accepted exactly when it is valid for the format, by encode and by decode."""
from jadn.codec import Codec
from h_util import rejects, schema_of
from h_spec import b64url

BOUNDS = ('i8..i64: every integer; eui, uuid, ipv4-addr, ipv6-addr: every length 0 to 18 with a symbolic byte; ipv4-net, ipv6-net, tag-uuid: symbolic address lengths and prefix length -2..200; '
          'hostname: texts of up to hlen symbolic characters from an alphabet with representatives of every character class, alone or next to fixed labels, labels of 61 to 65 and whole names of 250 to 255 '
          'characters with a symbolic character; email: the same for local part and domain; values of other types.')
ASSUMPTIONS = ['A trailing dot of a hostname is permitted; a 254 character hostname that ends with a dot is left open.',
               'email: upper-case letters, quoted local parts and domain literals are left open (RFC 5322 permits them, the documented expression of the package is narrower).',
               'uuid is the RFC 4122 variant with version 1 to 5.',
               'The String formats checked by the jsonschema package (uri, iri, date, ...) are outside: the code that decides them is that package.']
PARAMS = {'quick': {'hlen': 4, 'elen': 3}, 'thorough': {'hlen': 6, 'elen': 5}}
REACH = ['int-ok', 'int-bad', 'len-ok', 'len-bad', 'net-ok', 'net-bad', 'host-ok', 'host-bad', 'email-ok', 'email-bad', 'type-bad']

LIMIT = {'i8': 2 ** 7, 'i16': 2 ** 15, 'i32': 2 ** 31, 'i64': 2 ** 63}


def codec(base, fmt, *more):
    return Codec(schema_of(['T', base, ['/' + fmt], '', *more], ['R', 'Record', [], '', [[1, 'a', 'T', [], ''], [2, 'b', 'T', ['[0'], '']]]), True, True)


def expect(sx, c, op, v, ok, res, tag):
    """op in encode/decode of v, at top level or in a field."""
    field = sx.bool('field')
    f = c.encode if op == 'e' else c.decode
    r = sx.call(f, 'R', {'a': v}) if field else sx.call(f, 'T', v)
    if ok is None:
        return
    if ok:
        sx.check(r[0] == 'ok', f'a valid {tag} value is rejected', r[1])
        sx.check(sx.same(r[1], {'a': res} if field else res), f'a valid {tag} value is changed', r[1])
    else:
        sx.check(r[0] == 'err', f'an invalid {tag} value is accepted', r[1])
        sx.check(rejects(r), f'{tag}: raises {r[1]}')
    sx.note((tag, ok))


def ints(sx):
    f = sx.pick('fmt', sorted(LIMIT))
    v = sx.int('v')
    n = LIMIT[f]
    ok = bool(sx.And(v >= -n, v < n))
    sx.reach('int-ok' if ok else 'int-bad')
    expect(sx, codec('Integer', f), sx.pick('op', 'ed'), v, ok, v, f)


def others(sx):
    """Values of another type."""
    base, f = sx.pick('fmt', (('Integer', 'i8'), ('Integer', 'i16'), ('Integer', 'i32'), ('Integer', 'i64'), ('String', 'hostname'), ('String', 'email'), ('Binary', 'eui'), ('Binary', 'uuid'),
                              ('Binary', 'ipv4-addr'), ('Binary', 'ipv6-addr')))
    op = sx.pick('op', 'ed')
    v = sx.pick('v', (None, True, False, 1, 1.0, 0.5, 'a', '', b'', b'a', [], ['a'], {}, {'a': 1}))
    t = type(v)
    if base == 'Integer' and t is int or base == 'String' and t is str or base == 'Binary' and t is (bytes if op == 'e' else str):
        sx.discard()
    sx.reach('type-bad')
    expect(sx, codec(base, f), op, v, None if base == 'Integer' and t is float else False, None, f)


HEX = {True: '0123456789ABCDEF', False: '0123456789abcdef'}


def hexs(b, up=False):
    d = HEX[up]
    return ''.join([d[x // 16] + d[x % 16] for x in b])


def lengths(sx):
    f, lens = sx.pick('fmt', (('eui', (6, 8)), ('uuid', (16,)), ('ipv4-addr', (4,)), ('ipv6-addr', (16,))))
    n = sx.pick('n', list(range(19)) + [32])
    base = bytes([0x20, 1, 0xd, 0xb8, 0, 0, 0x40, 0, 0x80] + [0] * 23)[:n]
    v = base
    if n and sx.bool('first'):
        v = sx.bytes('b', 1) + base[1:]
    elif n:
        v = base[:n - 1] + sx.bytes('b', 1)
    ok = n in lens
    if f == 'ipv6-addr' and n == 16:
        v = b'\x20\x01\x0d\xb8' + v[:1] + b'\1' * 11        # text forms are the subject of C05
    sx.reach('len-ok' if ok else 'len-bad')
    c = codec('Binary', f)
    r = sx.call(c.encode, 'T', v)
    sx.check(r[0] == ('ok' if ok else 'err'), f'{f} of {n} bytes: {r[0]}', r[1])
    sx.check(ok or rejects(r), f'{f}: raises {r[1]}')
    if ok:
        d = sx.call(c.decode, 'T', r[1])
        sx.check(d[0] == 'ok' and sx.same(d[1], v), f'{f}: own encoding is not decoded', d[1])
    elif f == 'eui':
        d = sx.call(c.decode, 'T', hexs(v, True))
        sx.check(d[0] == 'err', 'eui of the wrong length is decoded', d[1])
        sx.check(rejects(d), f'{f}: raises {d[1]}')


NET = [[1, 'addr', 'Binary', [], ''], [2, 'prefix', 'Integer', [], '']]


def nets(sx):
    f, n = sx.pick('fmt', (('ipv4-net', 4), ('ipv6-net', 16)))
    k = sx.pick('alen', (n, 0, n - 1, n + 1, 20 - n))
    a = b'\1' * max(k - 1, 0) + (sx.bytes('a', 1) if k else b'')
    p = sx.int('p', -2, 200)
    ok = k == n and bool(sx.And(p >= 0, p <= 8 * n))
    c = codec('Array', f, NET)
    sx.reach('net-ok' if ok else 'net-bad')
    r = sx.call(c.encode, 'T', [a, p])
    sx.check(r[0] == ('ok' if ok else 'err'), f'{f} with address of {k} bytes: {r[0]}', (p, r[1]))
    sx.check(ok or rejects(r), f'{f}: raises {r[1]}')
    t = ('1.1.1.' if n == 4 else '101:101:101:101:101:101:101:1') + (str(a[-1]) if n == 4 else hexs(a[-1:])) if k == n else '1.2.3' if n == 4 else '1::2:'
    d = sx.call(c.decode, 'T', t + '/' + str(p))
    sx.check(d[0] == ('ok' if ok else 'err'), f'{f} text: {d[0]}', (t, p, d[1]))
    sx.check(ok or rejects(d), f'{f}: raises {d[1]}')


def label(s):
    n = len(s)
    if not 1 <= n <= 63:
        return False
    for c in s:
        if not (('a' <= c <= 'z') or ('A' <= c <= 'Z') or ('0' <= c <= '9') or c == '-'):
            return False
    return s[0] != '-' and s[n - 1] != '-'


def valid_host(s):
    n = len(s)
    h = s[:n - 1] if s.endswith('.') else s
    if len(h) > 253:
        return False
    for x in h.split('.'):
        if not label(x):
            return False
    return None if n > 253 else True


HCH = 'aZ09-._ :\n\u0660\u0131\u017f\u212a'     # the last three match ASCII letters or digits in some regular expression modes


def host(sx):
    k = sx.pick('form', ('short', 'before', 'after', 'middle'))
    s = sx.str('s', 0, sx.p('hlen') if k == 'short' else 2, HCH)
    s = {'short': s, 'before': s + 'example.com', 'after': 'example.com' + s, 'middle': 'a.b' + s + 'c.d'}[k]
    ok = valid_host(s)
    sx.reach('host-ok' if ok else 'host-bad')
    expect(sx, codec('String', 'hostname'), sx.pick('op', 'ed'), s, ok, s, 'hostname')


def host_long(sx):
    k = sx.pick('form', ('label', 'name'))
    c = sx.str('c', 1, 1, 'a9-.')
    if k == 'label':
        n = sx.pick('n', (61, 62, 63, 64))
        i = sx.pick('at', (0, 1, n))
        s = 'b' * n
        s = sx.pick('pre', ('', 'x.')) + s[:i] + c + s[i:] + sx.pick('post', ('', '.', '.com'))
    else:
        n = sx.pick('n', (249, 250, 251, 252, 253, 254, 255))
        s = ('b' * 49 + '.') * 5 + 'dddddd'
        s = s[:n] + c + sx.pick('post', ('', '.'))
    ok = valid_host(s)
    expect(sx, codec('String', 'hostname'), sx.pick('op', 'ed'), s, ok, s, 'hostname')


ATOM = "abcdefghijklmnopqrstuvwxyz0123456789!#$%&'*+/=?^_`{|}~-"
LOW = 'abcdefghijklmnopqrstuvwxyz0123456789-'


def chars(s, good, open_):
    """True, False, or None when a character is left open."""
    r = True
    for c in s:
        if c in good:
            continue
        if c not in open_:
            return False
        r = None
    return r


UPPER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def valid_email(s):
    i = s.rfind('@')
    if i < 0:
        return False
    local, dom = s[:i], s[i + 1:]
    r = True
    if local.startswith('"') or dom.startswith('['):
        return None
    for p in local.split('.'):
        a = chars(p, ATOM, UPPER)
        if p == '' or a is False:
            return False
        if a is None:
            r = None
    ls = dom.split('.')
    for p in ls:
        a = chars(p, LOW, UPPER)
        if p == '' or a is False or p[0] == '-' or p[len(p) - 1] == '-':
            return False
        if a is None:
            r = None
    if len(ls) < 2:
        return None if r is True and len(dom) > 0 else False if dom == '' else None
    return r


ECH = "az9.-_@+!~ (),:;<>\\é\n\x7fZ"


def email(sx):
    k = sx.pick('form', ('all', 'local', 'local+', '+local', 'dom', 'dom+', '+dom', 'tld'))
    s = sx.str('s', 0, {'all': sx.p('elen'), 'local': sx.p('elen'), 'dom': sx.p('elen')}.get(k, 2), ECH if k != 'all' else 'a.-@ ')
    t = {'all': s, 'local': s + '@example.com', 'local+': s + 'john.q@a.b', '+local': 'john.q' + s + '@a.b', 'dom': 'john@' + s, 'dom+': 'john@' + s + 'a.bc',
         '+dom': 'a@b.c' + s, 'tld': 'x+y@a.' + s}[k]
    ok = valid_email(t)
    if ok is not None:
        sx.reach('email-ok' if ok else 'email-bad')
    expect(sx, codec('String', 'email'), sx.pick('op', 'ed'), t, ok, t, 'email')


HARNESSES = {'ints': ints, 'others': others, 'lengths': lengths, 'nets': nets, 'host': host, 'host_long': host_long, 'email': email}
