"""Option lists that the schema checker accepts, with symbolic values."""
from h_spec import options

NUMS = ('2', '2.5', '-1', '0', '-0.0', '.5', '1e5', '1E-7', '1.5e300', '123456789.125')
FORMATS = {'Binary': ('eui', 'x', 'ipv4-addr'), 'Integer': ('i8', 'datetime-ms'), 'Number': ('f16', 'f64'), 'String': ('date-time', 'email', 'relative-json-pointer'), 'Array': ('ipv4-net', 'tag-uuid')}
UPPER = ''.join(chr(c) for c in range(65, 91))
LOWER = UPPER.lower()
DIGIT = '0123456789'
BLANKS = '\t\n\x0b\x0c\r\x1c\x1d\x1e\x1f\x20\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'


def tname(sx, p, builtin=True):
    """A type reference: arbitrary short name, a name with a special meaning elsewhere, an imported or a builtin type."""
    k = sx.pick(p, ('any', 'Key', 'Enum', 'TagId', 'Xoptional', 'ns:Ab', '$A-b$') + (('String', 'Integer') if builtin else ()))
    if k == 'any':
        return sx.str(p + '.h', 1, 1, UPPER + '$') + sx.str(p + '.t', 0, 1, UPPER + LOWER + DIGIT + '-$')
    return k


def line(sx, p, hi, lo=0):
    """Single-line printable text without surrounding blanks."""
    s = sx.str(p, lo, hi)
    return plain(sx, s)


def plain(sx, s):
    for i in range(len(s)):
        o = ord(s[i])
        sx.assume(sx.Not(sx.Or(o < 32, sx.And(o >= 127, o < 160), o == 0x2028, o == 0x2029, sx.And(o >= 0xd800, o < 0xe000))))
        if i == 0 or i == len(s) - 1:
            sx.assume(s[i] not in BLANKS)
    return s


def size(sx, p, opts, integer):
    k = sx.pick(p, ('none', 'min', 'max', 'both'))
    lo, hi = (-99, 120) if integer else (0, 120)
    a = sx.int(p + '.lo', lo, hi) if k in ('min', 'both') else None
    b = sx.int(p + '.hi', lo, hi) if k in ('max', 'both') else None
    if k == 'both':
        sx.assume(a <= b)
    if a is not None:
        opts.append('{' + str(a))
    if b is not None:
        opts.append('}' + str(b))


def kv(sx, p):
    k = sx.pick(p + '.k', ('', '#', '>'))
    return k + tname(sx, p, k == '')


def flags(sx, p, opts, letters):
    for c in letters:
        if sx.bool(f'{p}.{c}'):
            opts.append(c)


def topts(sx, p, b, plen=2, anon=False):
    """Accepted options of base type b."""
    o = []
    if b in ('Integer', 'Binary', 'Array', 'String'):
        if b == 'String' and sx.bool(p + '.pat'):
            o.append('%' + plain_pattern(sx, p + '.pattern', plen))
        else:
            size(sx, p + '.size', o, b == 'Integer')
    if b == 'Number':
        k = sx.pick(p + '.range', ('none', 'min', 'max', 'both'))
        if k in ('min', 'both'):
            o.append('y' + sx.pick(p + '.y', NUMS if k == 'min' else ('-1', '-0.5', '0')))
        if k in ('max', 'both'):
            o.append('z' + sx.pick(p + '.z', NUMS if k == 'max' else ('0', '1e-9', '2.5')))
    if b in FORMATS and sx.bool(p + '.fmt'):
        o.append('/' + sx.pick(p + '.format', FORMATS[b]))
    if b == 'Enumerated':
        k = sx.pick(p + '.enum', ('#', '>') if anon else ('', '#', '>'))
        if k:
            o.append(k + tname(sx, p + '.enumt', False))
        flags(sx, p, o, '=' if k else '=X')
    if b in ('Record', 'Map', 'ArrayOf', 'MapOf'):
        size(sx, p + '.size', o, False)
    if b == 'MapOf':
        o.append('+' + kv(sx, p + '.ktype'))
    if b in ('ArrayOf', 'MapOf'):
        o.append('*' + (kv(sx, p + '.vtype') if b == 'ArrayOf' and not anon else sx.pick(p + '.vt', ('String', 'A', '#A-b', '>ns:A'))))
    if b == 'Choice':
        c = sx.pick(p + '.comb', ('', 'O', 'A', 'X'))
        if c:
            o.append('C' + c)
    flags(sx, p, o, {'Choice': '=X', 'Array': 'X', 'ArrayOf': 'qsb', 'Map': '=Xo', 'MapOf': 'o', 'Record': 'Xo'}.get(b, ''))
    return o


def plain_pattern(sx, p, n):
    """A pattern: single-line printable text (it is not compiled here)."""
    return visible(sx, sx.str(p, 0, n))


def visible(sx, s):
    """No control characters, line separators or surrogates."""
    for i in range(len(s)):
        o = ord(s[i])
        sx.assume(sx.Not(sx.Or(o < 32, sx.And(o >= 127, o < 160), o == 0x2028, o == 0x2029, sx.And(o >= 0xd800, o < 0xe000))))
    return s


def meaning(opts, base):
    """Option name -> value, without options equal to their default."""
    o = options(opts)
    if base != 'Integer' and 'minv' in o and o['minv'] == 0:
        del o['minv']
    for k in ('minc', 'maxc'):
        if k in o and o[k] == 1:
            del o[k]
    return o
