"""C02: scalar values are accepted exactly when they satisfy the declared type (encode and decode)."""
from h_util import diff, anyval, schema_of, MODES

BOUNDS = ('Integers unbounded; bounds of Integer types any integers in +-10^6; floats all finite doubles; strings up to slen '
          'characters, binary up to blen bytes, size bounds 0..12; patterns from the list PATTERNS; Enumerated with up to 2 '
          'items, IDs 0..99, one- or two-letter names; other-typed values: null, bool, int, float, str, bytes, list, dict.')
ASSUMPTIONS = ['NaN and infinities are outside the JSON data model and are not offered.',
               'Decoding a Binary from padded or non-canonical base64url text may succeed or fail.']
PARAMS = {'quick': {'slen': 3, 'plen': 3, 'blen': 3}, 'thorough': {'slen': 5, 'plen': 5, 'blen': 7}}
REACH = ['Integer-encode-ok', 'Integer-encode-reject', 'Integer-decode-ok', 'Integer-decode-reject', 'Number-encode-ok',
         'Number-encode-reject', 'Number-decode-ok', 'Number-decode-reject', 'String-encode-ok', 'String-encode-reject',
         'String-decode-ok', 'String-decode-reject', 'Pattern-encode-ok', 'Pattern-encode-reject', 'Pattern-decode-ok',
         'Pattern-decode-reject', 'Boolean-encode-ok', 'Boolean-encode-reject', 'Enumerated-encode-ok',
         'Enumerated-encode-reject', 'Enumerated-decode-ok', 'Enumerated-decode-reject', 'Binary-encode-ok',
         'Binary-encode-reject', 'Binary-decode-ok', 'Binary-decode-reject']

PATTERNS = ['^[a-c]+$', 'a|b', '^a.c$', '[^x]*', '^\\d{2,3}$', '^(ab|cd)?e', '\\w+-?', '^$', '(?i)^ab']
SMALL = 'abcdex019-AB é\n'


def op(sx):
    return sx.pick('op', ('encode', 'decode'))


def bounds(sx, opts, lo, hi, k0, k1):
    a = b = None
    if sx.bool('has_min'):
        a = sx.int('lo', lo, hi)
        opts.append(k0 + str(a))
    if sx.bool('has_max'):
        b = sx.int('hi', lo, hi)
        opts.append(k1 + str(b))
    if a is not None and b is not None:
        sx.assume(a <= b)
        if sx.bool('swap'):
            opts.reverse()


def integer(sx):
    opts = []
    bounds(sx, opts, -10 ** 6, 10 ** 6, '{', '}')
    diff(sx, schema_of(['T', 'Integer', opts, '']), 'T', sx.int('v'), op(sx), tag='Integer')


NUMS = ['-1e3', '-1.5', '-0.25', '0', '0.1', '1', '2.5', '1e2', '1000000.5']


def number(sx):
    opts = []
    a = b = None
    if sx.bool('has_min'):
        a = sx.pick('lo', NUMS)
        opts.append('y' + a)
    if sx.bool('has_max'):
        b = sx.pick('hi', NUMS)
        opts.append('z' + b)
    if a is not None and b is not None and float(a) > float(b):
        sx.discard()
    v = sx.float('v') if sx.bool('isfloat') else sx.int('v', -2 ** 60, 2 ** 60)
    diff(sx, schema_of(['T', 'Number', opts, '']), 'T', v, op(sx), tag='Number')


def string_size(sx):
    opts = []
    bounds(sx, opts, 0, 12, '{', '}')
    diff(sx, schema_of(['T', 'String', opts, '']), 'T', sx.str('v', 0, sx.p('slen')), op(sx), tag='String')


def string_pattern(sx):
    p = sx.pick('pattern', PATTERNS)
    diff(sx, schema_of(['T', 'String', ['%' + p], '']), 'T', sx.str('v', 0, sx.p('plen'), SMALL), op(sx), tag='Pattern')


def binary(sx):
    opts = []
    bounds(sx, opts, 0, 12, '{', '}')
    if op(sx) == 'encode':
        diff(sx, schema_of(['T', 'Binary', opts, '']), 'T', sx.bytes('v', 0, sx.p('blen')), 'encode', tag='Binary')
    else:
        diff(sx, schema_of(['T', 'Binary', opts, '']), 'T', sx.str('v', 0, sx.p('blen') + 1), 'decode', tag='Binary')


def enumerated(sx):
    n = sx.pick('n', (1, 2))
    items = []
    for i in range(n):
        k = sx.int(f'id{i}', 0, 99)
        nm = sx.str(f'name{i}', 1, 2, 'abcd01')
        for it in items:
            sx.assume(it[0] != k)
            sx.assume(it[1] != nm)
        items.append([k, nm, ''])
    vs = sx.bool('vs')
    opts = ['='] if sx.bool('idopt') else []
    k = sx.pick('vkind', ('int', 'str', 'bool', 'float', 'other'))
    if k == 'int':
        v = sx.int('v')
    elif k == 'str':
        v = sx.str('v', 0, 2, 'abcd01x')
    elif k == 'bool':
        v = sx.bool('v')
    elif k == 'float':
        v = sx.pick('v', (0.0, 1.0, 1.5))
    else:
        v = anyval(sx, 'v', 1, 1, ('none', 'bytes', 'list', 'dict'))
    diff(sx, schema_of(['T', 'Enumerated', opts, '', items]), 'T', v, op(sx), sx.bool('vr'), vs, tag='Enumerated')


def other(sx):
    """Values of every JSON type under every scalar type."""
    base, opts = sx.pick('type', (('Boolean', []), ('Integer', []), ('Integer', ['{0', '}9']), ('Number', []), ('Number', ['y0.5', 'z2.5']),
                                  ('String', []), ('String', ['{1', '}2']), ('String', ['%^a']), ('Binary', []), ('Binary', ['{1', '}2'])))
    named = True if opts else sx.bool('named')
    o = op(sx)
    kinds = ('none', 'bool', 'int', 'float', 'str', 'list', 'dict') + (('bytes',) if o == 'encode' or base == 'Binary' else ())
    v = anyval(sx, 'v', 1, 1, kinds, 2)
    t = 'T' if named else base
    diff(sx, schema_of(['T', base, opts, '']), t, v, o, tag=base)


HARNESSES = {'integer': integer, 'number': number, 'string_size': string_size, 'string_pattern': string_pattern,
             'binary': binary, 'enumerated': enumerated, 'other': other}
