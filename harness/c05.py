"""C05: text formats are exact inverses and ill-formed text is rejected."""
import jadn
from jadn.codec import Codec
from h_util import rejects, schema_of
from h_spec import b64url

BOUNDS = ('Binary: base64url of up to blen symbolic bytes, hex (x, X) of up to 3 (quick) symbolic bytes, eui of 6 or 8 symbolic bytes, uuid of 16 symbolic bytes; '
          'ipv4: 4 symbolic bytes; ipv6: every zero/non-zero pattern of the 8 groups with one symbolic group, every position of "::" in the text, embedded IPv4; '
          'nets: symbolic address byte and symbolic prefix length; tag-uuid: symbolic tag of up to 3 characters; datetime-ms: symbolic milliseconds in three-day windows '
          'around 6 (quick) or 12 (thorough) dates between years 1 and 9999 and outside the range; text: one symbolic part of up to 4 characters in any position of a valid form, or one arbitrary character '
          'at any position; other-typed values.')
ASSUMPTIONS = ['Padded or otherwise non-canonical base64url text may be accepted or rejected.',
               'uuid means the RFC 4122 variant with version 1 to 5; IPv4-mapped IPv6 addresses may be written in either form of RFC 5952.',
               'RFC 3339 leap seconds and fractions finer than milliseconds are left open; times are written with offset +00:00 and no fraction when the milliseconds are zero.',
               'eui is written as upper-case hex without separators, as the tests of the repository require.']
PARAMS = {'quick': {'blen': 4, 'xlen': 2}, 'thorough': {'blen': 7, 'xlen': 4}}
REACH = ['b-inverse', 'x-inverse', 'X-inverse', 'eui-inverse', 'uuid-inverse', 'ipv4-addr-inverse', 'ipv6-addr-inverse', 'ipv4-net-inverse', 'ipv6-net-inverse',
         'tag-uuid-inverse', 'datetime-ms-inverse', 'b-ill', 'x-ill', 'uuid-ill', 'ipv4-addr-ill', 'ipv6-addr-ill', 'ipv4-net-ill', 'ipv6-net-ill', 'datetime-ms-ill']

NET = [[1, 'addr', 'Binary', [], ''], [2, 'prefix', 'Integer', [], '']]
TAG = [[1, 'tag', 'String', [], ''], [2, 'uuid', 'U', [], '']]
U = ['U', 'Binary', ['/uuid'], '']


def codec(sx, fmt):
    base = 'Integer' if fmt == 'datetime-ms' else 'Array' if fmt in ('ipv4-net', 'ipv6-net', 'tag-uuid') else 'Binary'
    if base == 'Array':
        return Codec(schema_of(['T', base, ['/' + fmt], '', TAG if fmt == 'tag-uuid' else NET], U), True, sx.p('vs', True))
    return Codec(schema_of(['T', base, ['/' + fmt] if fmt != 'b' else [], '']), True, True)


def inverse(sx, fmt, v, text):
    """encode(v) is the text, decode(text) is v."""
    c = codec(sx, fmt)
    r = sx.call(c.encode, 'T', v)
    sx.check(r[0] == 'ok', f'{fmt}: a valid value is rejected by encode', r[1])
    ts = text if isinstance(text, tuple) else (text,)
    sx.check(sx.Or(*[sx.same(r[1], t) for t in ts]), f'{fmt}: wrong text form', (r[1], ts))
    for t in ts:
        d = sx.call(c.decode, 'T', t)
        sx.check(d[0] == 'ok', f'{fmt}: the text form is rejected by decode', d[1])
        sx.check(sx.same(d[1], v), f'{fmt}: decode is not the inverse of encode', (d[1], v))
    sx.note('inverse')
    sx.reach(fmt + '-inverse')


def decodes(sx, fmt, text, want):
    """decode(text) is the value (want) or is rejected (want None)."""
    d = sx.call(codec(sx, fmt).decode, 'T', text)
    if want is None:
        sx.check(d[0] == 'err', f'{fmt}: ill-formed text is accepted', d[1])
        sx.check(rejects(d), f'{fmt}: raises {d[1]}')
        sx.reach(fmt + '-ill')
    else:
        sx.check(d[0] == 'ok', f'{fmt}: well-formed text is rejected', d[1])
        sx.check(sx.same(d[1], want), f'{fmt}: decodes to another value', (d[1], want))
    sx.note('ill' if want is None else 'well')


def refused(sx, fmt, v):
    r = sx.call(codec(sx, fmt).encode, 'T', v)
    sx.check(r[0] == 'err', f'{fmt}: an invalid value is encoded', r[1])
    sx.check(rejects(r), f'{fmt}: raises {r[1]}')
    sx.note('refused')


def hexs(b, digits='0123456789abcdef'):
    return ''.join([digits[x // 16] + digits[x % 16] for x in b])


def allin(sx, s, chars):
    for c in s:
        if c not in chars:
            return False
    return True


LOW, UP = '0123456789abcdef', '0123456789ABCDEF'
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


# ---------------------------------------------------------------------------------- base64url, hex, eui
def binary(sx):
    v = sx.bytes('v', 0, sx.p('blen'))
    inverse(sx, 'b', v, b64url(v))


def binary_text(sx):
    s = sx.str('s', 0, sx.p('blen'))
    if not allin(sx, s, B64 + '='):
        decodes(sx, 'b', s, None)
    elif len(s) % 4 == 1 and allin(sx, s, B64):
        decodes(sx, 'b', s, None)


def hexes(sx):
    f = sx.pick('fmt', ('x', 'X', 'eui'))
    v = sx.bytes('v', *((0, sx.p('xlen') + 1) if f != 'eui' else (6, 6)))
    if f == 'eui' and sx.bool('eui64'):
        v = b'\x02\xff' + v
    inverse(sx, f, v, hexs(v, LOW if f == 'x' else UP))


def hexval(c):
    i = LOW.find(c)
    return i if i >= 0 else UP.find(c)


def hex_text(sx):
    f = sx.pick('fmt', ('x', 'X', 'eui'))
    s = sx.str('s', 0, 2 * sx.p('xlen'), '0A1Ff9gG -:é')
    if f == 'eui':
        s = '0242AC1100' + s
    ok = len(s) % 2 == 0 and allin(sx, s, LOW + UP if f == 'x' else UP) and (f != 'eui' or len(s) in (12, 16))
    decodes(sx, f, s, bytes([hexval(s[i]) * 16 + hexval(s[i + 1]) for i in range(0, len(s), 2)]) if ok else None)


# ---------------------------------------------------------------------------------- uuid
def uuid_text(v):
    h = hexs(v)
    return h[:8] + '-' + h[8:12] + '-' + h[12:16] + '-' + h[16:20] + '-' + h[20:]


def uuid(sx):
    v = sx.bytes('v', 16)
    ok = sx.And(v[6] >= 16, v[6] < 96, v[8] >= 128, v[8] < 192)
    if ok:
        inverse(sx, 'uuid', v, uuid_text(v))
    else:
        refused(sx, 'uuid', v)


UT = 'c04d79b2-8d8b-4a76-83ad-fb4f3770cfbc'
UB = bytes.fromhex(UT.replace('-', ''))


def uuid_char(sx):
    """One or two arbitrary characters in a uuid text; characters removed or added."""
    i = sx.pick('pos', list(range(37)))
    s = UT[:i] + sx.str('c', 0, 2) + UT[i + 1:]
    ok = len(s) == 36
    if ok:
        for k in range(36):
            if k in (8, 13, 18, 23):
                ok = ok and s[k] == '-'
            elif k == 14:
                ok = ok and s[k] in '12345'
            elif k == 19:
                ok = ok and s[k] in '89abAB'
            else:
                ok = ok and s[k] in LOW + UP
            if not ok:
                break
    decodes(sx, 'uuid', s, None if not ok else bytes([hexval(s[j]) * 16 + hexval(s[j + 1]) for j in (0, 2, 4, 6, 9, 11, 14, 16, 19, 21, 24, 26, 28, 30, 32, 34)]))


def tag_uuid(sx):
    c = codec(sx, 'tag-uuid')
    tag = sx.str('tag', 0, 3)
    k = sx.pick('how', ('inverse', 'bad'))
    if k == 'inverse':
        v = UB[:15] + sx.bytes('v', 1)
        inverse(sx, 'tag-uuid', [tag, v], tag + '-' + uuid_text(v))
    elif sx.bool('decode'):
        s = sx.pick('s', (UT, tag, tag + '-', tag + '-' + UT[:-1], tag + '-' + UT + '0', '-', tag + UT, tag + '_' + UT))
        n = len(s)
        ok = n >= 37 and s[n - 37] == '-' and sx.same(s[n - 36:], UT)
        decodes(sx, 'tag-uuid', s, [s[:n - 37], UB] if ok else None)
    else:
        refused(sx, 'tag-uuid', sx.pick('v', ([tag], [tag, UB[:15]], [tag, UB + b'1'], [UB, tag], [tag, UT], [UB, UB], [tag, UB, 1], [], {0: tag, 1: UB}, {1: 2, 3: 4}, tag, None, 12)))


# ---------------------------------------------------------------------------------- IPv4
def dec(n):
    return str(n)


def ipv4(sx):
    v = sx.bytes('v', 4)
    inverse(sx, 'ipv4-addr', v, '.'.join([dec(x) for x in v]))


def octet(s):
    """Value of a decimal octet 0..255 without leading zeros, or None."""
    if not 1 <= len(s) <= 3:
        return None
    n = 0
    for c in s:
        i = '0123456789'.find(c)
        if i < 0:
            return None
        n = n * 10 + i
    if len(s) > 1 and s[0] == '0':
        return None
    return n if n <= 255 else None


def quad(s):
    ps = s.split('.')
    if len(ps) != 4:
        return None
    out = []
    for p in ps:
        o = octet(p)
        if o is None:
            return None
        out.append(o)
    return bytes(out)


def ipv4_text(sx):
    i = sx.pick('pos', (0, 1, 2, 3))
    ps = ['10', '0', '255', '7']
    ps[i] = sx.str('s', 0, 4, '0123456789. +-/é')
    s = '.'.join(ps)
    decodes(sx, 'ipv4-addr', s, quad(s))


def plen(s, top):
    """Decimal prefix length, None if ill-formed."""
    o = octet(s)
    return o if o is not None and o <= top else None


def ipv4_net(sx):
    a = bytes([10, 0, 255]) + sx.bytes('a', 1)
    n = sx.int('n', -2, 40)
    if 0 <= n <= 32:
        t = '10.0.255.' + dec(a[3])
        inverse(sx, 'ipv4-net', [a, n], t + '/' + dec(n) if n != 32 else t)
    else:
        refused(sx, 'ipv4-net', [a, n])


def net_text(sx):
    f, a, top, b = sx.pick('fmt', (('ipv4-net', '10.0.255.7', 32, b'\x0a\x00\xff\x07'), ('ipv6-net', '2001:db8::7', 128, b'\x20\x01\x0d\xb8' + b'\0' * 11 + b'\7')))
    if sx.bool('fulllength'):
        return decodes(sx, f, a + '/' + str(top), [b, top])
    if sx.bool('tail'):
        t = sx.str('t', 0, 4, '0123456789/ +_-.\n٣')
        n = plen(t, top)
        decodes(sx, f, a + '/' + t, [b, n] if n is not None else None)
    else:
        i = sx.pick('pos', list(range(len(a) + 1)))
        c = sx.str('c', 1, 1, '%/ g\n')
        decodes(sx, f, a[:i] + c + a[i:] + ('/8' if c == '/' else sx.pick('end', ('', '/8'))), None)


def net_bad(sx):
    """Values of the wrong shape."""
    f = sx.pick('fmt', ('ipv4-net', 'ipv6-net'))
    a = b'\1' * (4 if f == 'ipv4-net' else 16)
    n = sx.int('n', 0, 32)
    refused(sx, f, sx.pick('v', ([a], [a, n, n], [a[1:], n], [a + a, n], [n, a], [a, '8'], ['10.0.0.1', 8], [a, None], [a, True], {0: a, 1: n}, a, None, 5, '10.0.0.0/8', [])))
    w = sx.pick('w', (None, 5, True, [], [a, 3], {}, '', '/', '/8'))
    decodes(sx, f, w, None)


# ---------------------------------------------------------------------------------- IPv6
def hexgroup(n):
    """Lower-case hex without leading zeros."""
    if n < 16:
        return LOW[n]
    if n < 256:
        return LOW[n // 16] + LOW[n % 16]
    if n < 4096:
        return LOW[n // 256] + LOW[n // 16 % 16] + LOW[n % 16]
    return LOW[n // 4096] + LOW[n // 256 % 16] + LOW[n // 16 % 16] + LOW[n % 16]


def rfc5952(gs):
    best, n = 0, 0
    i = 0
    while i < 8:
        if gs[i] == 0:
            j = i
            while j < 8 and gs[j] == 0:
                j += 1
            if j - i > n:
                best, n = i, j - i
            i = j
        else:
            i += 1
    if n < 2:
        return ':'.join([hexgroup(g) for g in gs])
    return ':'.join([hexgroup(g) for g in gs[:best]]) + '::' + ':'.join([hexgroup(g) for g in gs[best + n:]])


def ipv6(sx):
    pat = sx.pick('pattern', list(range(256)))
    k = sx.pick('sym', (0, 3, 7) if sx.p('blen') < 5 else list(range(8)))
    net = sx.bool('net')
    gs = [0 if pat >> i & 1 else (0x2001, 0xdb8, 0xa, 0xff0, 0x1, 0xabcd, 0x10, 0xffff)[i] for i in range(8)]
    if not pat >> k & 1:
        if net:
            sx.discard()
        gs[k] = sx.int('g', 0, 65535)
    v = bytes([x for g in gs for x in (g // 256, g % 256)])
    t = rfc5952(gs)
    if pat & 31 == 31 and gs[5] == 65535:
        t = (t, '::ffff:' + '.'.join([dec(x) for x in v[12:]]))
    if net:
        n = sx.int('n', -1, 129)
        if 0 <= n <= 128:
            inverse(sx, 'ipv6-net', [v, n], t + '/' + dec(n) if n != 128 else t)
        else:
            refused(sx, 'ipv6-net', [v, n])
    else:
        inverse(sx, 'ipv6-addr', v, t)


def group(s):
    if not 1 <= len(s) <= 4:
        return None
    n = 0
    for c in s:
        i = hexval(c)
        if i < 0:
            return None
        n = n * 16 + i
    return n


def groups(s):
    """Groups of one side of '::'; None if ill-formed."""
    if s == '':
        return []
    ps = s.split(':')
    out = []
    for i, p in enumerate(ps):
        if i == len(ps) - 1 and '.' in p:
            q = quad(p)
            if q is None:
                return None
            out += [q[0] * 256 + q[1], q[2] * 256 + q[3]]
        else:
            g = group(p)
            if g is None:
                return None
            out.append(g)
    return out


def rfc4291(s):
    """Value of an IPv6 text, None if ill-formed."""
    sides = s.split('::')
    if len(sides) > 2:
        return None
    if len(sides) == 2 and '.' in sides[0]:
        return None
    gs = [groups(x) for x in sides]
    if None in gs:
        return None
    if len(gs) == 1:
        if len(gs[0]) != 8:
            return None
        all_ = gs[0]
    else:
        n = len(gs[0]) + len(gs[1])
        if n > 7:
            return None
        all_ = gs[0] + [0] * (8 - n) + gs[1]
    return bytes([x for g in all_ for x in (g // 256, g % 256)])


def ipv6_text(sx):
    """n groups, '::' in any place or none, one group replaced by arbitrary text."""
    n = sx.pick('n', (0, 1, 2, 6, 7, 8, 9))
    at = sx.pick('at', [None] + list(range(n + 1)))
    gs = ['1', 'a', 'B', '00c', 'D1', '12', 'ffff', '0', '9'][:n]
    if n and sx.bool('ipv4'):
        gs[-1] = '1.2.3.4'
    if n in (1, 7, 8) and sx.bool('arb'):
        if n > 1 and at not in (None, 0, n):
            sx.discard()
        gs[sx.pick('which', sorted({0, n // 2, n - 1}))] = sx.str('s', 0, sx.p('xlen') - 1 if n > 1 else 5 if at is None or at == 0 else 3, '09aAfg:.% \n' if n == 1 else '0aAg:. %')
    s = ':'.join(gs) if at is None else ':'.join(gs[:at]) + '::' + ':'.join(gs[at:])
    decodes(sx, 'ipv6-addr', s, rfc4291(s))


# ---------------------------------------------------------------------------------- datetime-ms
DAY = 86400000
DATES = {       # number of days since 1970-01-01: the names of that day and the next two
    -719162: ('0001-01-01', '0001-01-02', '0001-01-03'),
    -135141: ('1599-12-31', '1600-01-01', '1600-01-02'),
    -25510: ('1900-02-27', '1900-02-28', '1900-03-01'),
    -1: ('1969-12-31', '1970-01-01', '1970-01-02'),
    789: ('1972-02-29', '1972-03-01', '1972-03-02'),
    11015: ('2000-02-28', '2000-02-29', '2000-03-01'),
    18626: ('2020-12-30', '2020-12-31', '2021-01-01'),
    47540: ('2100-02-28', '2100-03-01', '2100-03-02'),
    99347: ('2242-01-02', '2242-01-03', '2242-01-04'),
    376200: ('3000-01-01', '3000-01-02', '3000-01-03'),
    2000000: ('7445-10-25', '7445-10-26', '7445-10-27'),
    2932894: ('9999-12-29', '9999-12-30', '9999-12-31'),
}


def two(n):
    return '0123456789'[n // 10] + '0123456789'[n % 10]


def dt_text(day, ms):
    s = ms // 1000
    f = ms % 1000
    t = day + 'T' + two(s // 3600) + ':' + two(s // 60 % 60) + ':' + two(s % 60)
    if f != 0:
        t += '.' + '0123456789'[f // 100] + two(f % 100)
    return t + '+00:00'


def datetime_ms(sx):
    d = sx.pick('window', sorted(DATES) if sx.p('blen') > 4 else (-719162, -25510, -1, 11015, 47540, 2932894))
    k = sx.pick('day', (0, 1, 2))
    ms = sx.int('ms', 0, DAY - 1)
    inverse(sx, 'datetime-ms', (d + k) * DAY + ms, dt_text(DATES[d][k], ms))


def datetime_range(sx):
    """Outside the years 1 to 9999; far outside."""
    if sx.bool('high'):
        v = sx.int('v', 2932897 * DAY, None)
    else:
        v = sx.int('v', None, -719162 * DAY - 1)
    refused(sx, 'datetime-ms', v)


def datetime_text(sx):
    """Case of T and Z, fraction digits, offsets."""
    d = sx.pick('window', (-1, 11015, 376200))
    h, m, s = sx.int('h', 0, 23), sx.int('m', 0, 59), sx.int('s', 0, 59)
    t = DATES[d][1] + sx.pick('t', 'Tt ') + two(h) + ':' + two(m) + ':' + two(s)
    ms = 0
    n = sx.pick('frac', (0, 1, 2, 3))
    if n:
        f = sx.int('f', 0, 10 ** n - 1)
        t += '.' + ''.join(['0123456789'[f // 10 ** (n - 1 - i) % 10] for i in range(n)])
        ms = f * 10 ** (3 - n)
    off = 0
    z = sx.pick('z', ('Z', 'z', '+', '-'))
    if z in 'Zz':
        t += z
    else:
        oh, om = sx.int('oh', 0, 23), sx.int('om', 0, 59)
        t += z + two(oh) + ':' + two(om)
        off = (oh * 60 + om) * (60000 if z == '+' else -60000)
    decodes(sx, 'datetime-ms', t, (d + 1) * DAY + h * 3600000 + m * 60000 + s * 1000 + ms - off)


MDAYS = (0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def datetime_bad(sx):
    """Field values out of range; one arbitrary character at any position; characters missing."""
    k = sx.pick('how', ('date', 'time', 'offset', 'char', 'cut', 'other'))
    good = '2021-07-18T18:49:25.394+05:30'
    if k == 'date':
        y = sx.pick('y', (2021, 2000, 1900, 2024))
        mo, d = sx.int('mo', 0, 13), sx.int('d', 0, 32)
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        bad = mo < 1 or mo > 12 or d < 1 or d > 31 or (d == 31 and (mo == 2 or mo == 4 or mo == 6 or mo == 9 or mo == 11)) or (mo == 2 and d > (29 if leap else 28))
        if not bad:
            sx.discard()
        decodes(sx, 'datetime-ms', str(y) + '-' + two(mo) + '-' + two(d) + 'T00:00:00Z', None)
    elif k == 'time':
        h, m, s = sx.int('h', 0, 99), sx.int('m', 0, 99), sx.int('s', 0, 99)
        sx.assume(sx.Or(h > 24, m > 59, s > 60))
        decodes(sx, 'datetime-ms', '2021-07-18T' + two(h) + ':' + two(m) + ':' + two(s) + 'Z', None)
    elif k == 'offset':
        h, m = sx.int('h', 0, 99), sx.int('m', 0, 99)
        sx.assume(sx.Or(h > 23, m > 59))
        decodes(sx, 'datetime-ms', '2021-07-18T10:00:00+' + two(h) + ':' + two(m), None)
    elif k == 'char':
        i = sx.pick('pos', list(range(len(good))))
        c = sx.str('c', 1)
        if good[i] in '0123456789':
            sx.assume(sx.Not(sx.And(c >= '0', c <= '9')))
        elif good[i] == 'T':
            sx.assume(sx.Not(sx.Or(c == 'T', c == 't', c == ' ')))
        elif good[i] == '+':
            sx.assume(sx.Not(sx.Or(c == '+', c == '-')))
            if c >= '0' and c <= '9':
                pass
        else:
            sx.assume(c != good[i])
        decodes(sx, 'datetime-ms', good[:i] + c + good[i + 1:], None)
    elif k == 'cut':
        i = sx.pick('pos', list(range(len(good))))
        j = sx.pick('len', (1, 2, 3, 6))
        s = good[:i] + good[i + j:]
        if i in (20, 21, 22) and i + j <= 23 and not (i == 20 and j == 3):
            sx.discard()        # fewer fraction digits
        if i <= 19 and i + j == 23:
            sx.discard()
        if i == 19 and j >= 4:
            sx.discard()
        decodes(sx, 'datetime-ms', s, None)
    else:
        decodes(sx, 'datetime-ms', sx.pick('v', (0, 1626634165394, 1.5, True, None, [], {}, '', '2021', '20210718T184925Z', '2021-07-18', '2021-07-18T18:49:25', '2021-W28-7T18:49:25Z',
                                                 '2021-07-18T18:49Z', '2021-07-18T18Z', '2021-07-18T18:49:25,5Z', '2021-07-18T18:49:25.Z', ' 2021-07-18T18:49:25Z',
                                                 '2021-07-18T18:49:25Z\n', '2021-07-18T18:49:25+0530', '2021-07-18T18:49:25+05', '2021-07-18T18:49:25+05:30:10', '+2021-07-18T18:49:25Z')), None)


HARNESSES = {'binary': binary, 'binary_text': binary_text, 'hexes': hexes, 'hex_text': hex_text, 'uuid': uuid, 'uuid_char': uuid_char, 'tag_uuid': tag_uuid,
             'ipv4': ipv4, 'ipv4_text': ipv4_text, 'ipv4_net': ipv4_net, 'net_text': net_text, 'net_bad': net_bad, 'ipv6': ipv6, 'ipv6_text': ipv6_text,
             'datetime_ms': datetime_ms, 'datetime_range': datetime_range, 'datetime_text': datetime_text, 'datetime_bad': datetime_bad}
