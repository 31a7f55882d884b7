"""
Reference semantics of the codec, written from the JADN documentation and the property statements, independent of
the implementation.  Runs symbolically next to the real code (and concretely on replay).

Spec(schema, vr, vs).enc(type, value) / .dec(type, encoded) return the prescribed result, raise Reject when the value
is not an instance of the type, and raise Either where the documentation leaves the outcome open.
"""
import re

OPT = {'=': 'id', '*': 'vtype', '+': 'ktype', '#': 'enum', '>': 'pointer', '/': 'format', '%': 'pattern', 'y': 'minf',
       'z': 'maxf', '{': 'minv', '}': 'maxv', 'q': 'unique', 's': 'set', 'b': 'unordered', 'o': 'sequence',
       'C': 'combine', 'X': 'extend', '!': 'default', '[': 'minc', ']': 'maxc', '&': 'tagid', '<': 'dir', 'K': 'key',
       'L': 'link'}
INTOPTS = ('minv', 'maxv', 'minc', 'maxc', 'tagid')
PRIMS = ('Binary', 'Boolean', 'Integer', 'Number', 'String')
BUILTIN = PRIMS + ('Enumerated', 'Choice', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record')
LIMITS = {'$MaxBinary': 255, '$MaxString': 255, '$MaxElements': 100}


FIELDOPTS = ('minc', 'maxc', 'tagid', 'dir', 'key', 'link', 'default')


class Reject(Exception):
    pass


class Either(Exception):
    pass


def options(olist):
    out = {}
    for o in olist:
        k = OPT[o[0]]
        v = o[1:]
        if k in INTOPTS:
            v = int(v)
        elif k in ('minf', 'maxf'):
            v = float(v)
        elif k in ('id', 'unique', 'set', 'unordered', 'sequence', 'extend', 'dir', 'key', 'link'):
            v = True
        out[k] = v
    return out


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def b64url(b):
    """RFC 4648 section 5 without padding."""
    out = []
    for i in range(0, len(b), 3):
        g = b[i:i + 3]
        a0 = g[0]
        a1 = g[1] if len(g) > 1 else 0
        a2 = g[2] if len(g) > 2 else 0
        out.append(B64[a0 // 4])
        out.append(B64[a0 % 4 * 16 + a1 // 16])
        if len(g) > 1:
            out.append(B64[a1 % 16 * 4 + a2 // 64])
        if len(g) > 2:
            out.append(B64[a2 % 64])
    return ''.join(out)


def spread(pairs):
    """Distinct keys only: two spellings of one key leave the outcome open."""
    out = {}
    for k, v in pairs:
        if k in out:
            raise Either
        out[k] = v
    return out


class AnyValue:
    """An accepted value whose content the reference does not prescribe."""


class Spec:
    def __init__(self, schema, vr, vs, config=None):
        self.types = {t[0]: t for t in schema['types']}
        self.vr, self.vs = vr, vs
        self.limits = dict(LIMITS)
        self.limits.update((config or schema.get('info') or {}).get('config', {}))

    # ---- type lookup: (base, options, fields); a type is a name or an anonymous (base, options) pair
    def typ(self, t):
        fields = []
        if isinstance(t, tuple):
            base, opts = t
        elif t[0] == '#' or t[0] == '>':
            base, opts = 'Enumerated', {'enum' if t[0] == '#' else 'pointer': t[1:]}
        elif t in self.types:
            d = self.types[t]
            base, opts = d[1], options(d[2])
            fields = d[4] if len(d) > 4 else []
        elif t in PRIMS:
            return t, {}, []
        else:
            raise Reject('undefined type ' + str(t))
        if 'enum' in opts:
            return 'Enumerated', opts, self.items(opts['enum'])
        if 'pointer' in opts:
            return 'Enumerated', opts, [[i + 1, n, ''] for i, n in enumerate(self.paths(opts['pointer'], ''))]
        if base == 'MapOf' and opts['ktype'] not in PRIMS:
            kb, ko, kf = self.typ(opts['ktype'])
            if kb == 'Enumerated':      # same as a Map with one field per item
                return 'Map', {'id': True} if 'id' in ko else {}, [[f[0], f[1], opts['vtype'], [], ''] for f in kf]
        return base, opts, fields

    def items(self, t):
        base, opts, fields = self.typ(t)
        return [[f[0], f[1], ''] for f in fields]

    def paths(self, t, prefix):
        out = []
        if self.types[t][1] not in ('Array', 'Map', 'Record', 'Choice'):
            return out
        for f in self.types[t][4]:
            if 'dir' in options(f[3]) and f[2] in self.types:
                out += self.paths(f[2], prefix + f[1] + '/')
            else:
                out.append(prefix + f[1])
        return out

    def ftype(self, f):
        """Type of the values of a field."""
        fo = options(f[3])
        t = f[2]
        if 'link' in fo:
            d = self.types[t]
            if d[1] == 'MapOf':
                t = options(d[2])['ktype']
            else:
                kf = [x for x in d[4] if 'key' in options(x[3])][0]
                t = self.ftype(kf)
        to = {k: v for k, v in fo.items() if k not in FIELDOPTS}
        minc, maxc = fo.get('minc', 1), fo.get('maxc', 1)
        outer = {}
        if maxc != 1:
            outer = {'minv': max(minc, 1)}
            if maxc > 1:
                outer['maxv'] = maxc
            if 'unique' in to:
                outer['unique'] = True
                del to['unique']
        if to:
            t = (t, to)
        if outer:
            t = ('ArrayOf', dict(outer, vtype=t))
        return t

    def ids(self, base, opts):
        """(index of API key, index of wire key) in a field or item definition."""
        if 'id' in opts:
            return 0, 0
        return 1, (1 if self.vs else 0)

    def size(self, base, opts, n):
        lo, hi = opts.get('minv', 0), opts.get('maxv', 0)
        if hi == 0:
            hi = self.limits['$MaxString' if base == 'String' else '$MaxBinary' if base == 'Binary' else '$MaxElements']
        if n < lo or n > hi:
            raise Reject('size')

    # ---- scalars
    def scalar(self, base, opts, v):
        if base == 'Boolean':
            if not isinstance(v, bool):
                raise Reject('type')
        elif base == 'Integer':
            if not is_int(v):
                raise Reject('type')
            if 'minv' in opts and v < opts['minv'] or 'maxv' in opts and v > opts['maxv']:
                raise Reject('range')
            f = opts.get('format')
            if f in ('i8', 'i16', 'i32', 'i64'):
                n = 2 ** (int(f[1:]) - 1)
                if not -n <= v < n:
                    raise Reject('format')
        elif base == 'Number':
            if not is_num(v):
                raise Reject('type')
            if 'minf' in opts and v < opts['minf'] or 'maxf' in opts and v > opts['maxf']:
                raise Reject('range')
        elif base == 'String':
            if not isinstance(v, str):
                raise Reject('type')
            self.size(base, opts, len(v))
            if 'pattern' in opts and not re.match(opts['pattern'], v):
                raise Reject('pattern')
        elif base == 'Binary':
            if not isinstance(v, bytes):
                raise Reject('type')
            self.size(base, opts, len(v))

    # ---- encode
    def enc(self, t, v):
        base, opts, fields = self.typ(t)
        if base in PRIMS:
            self.scalar(base, opts, v)
            if base == 'Binary':
                return b64url(v)
            return v
        api, wire = self.ids(base, opts)
        if base == 'Enumerated':
            for f in fields:
                if type(v) is type(f[api]) and v == f[api]:
                    return f[wire]
            raise Reject('item')
        if base == 'Choice':
            if 'combine' in opts:
                return self.union(opts['combine'], fields, v, self.enc)
            if not isinstance(v, dict) or len(v) != 1:
                raise Reject('choice')
            k = list(v)[0]
            for f in fields:
                if k == f[api]:
                    return {f[wire]: self.enc(self.ftype(f), v[k])}
            raise Reject('alternative')
        if base in ('Record', 'Map'):
            if not isinstance(v, dict):
                raise Reject('type')
            self.size(base, opts, len(v))
            names = [f[1] for f in fields]
            for k in v:
                if k not in names:
                    raise Reject('undeclared')
            out = []
            for f in fields:
                if f[1] in v:
                    out.append((f[0], f[wire], self.field(f, v[f[1]], fields, lambda i: self.get(v, fields, i, 1), self.enc)))
                elif options(f[3]).get('minc', 1) > 0:
                    raise Reject('missing')
            if base == 'Map' or self.vr:
                return {k: x for _, k, x in out}
            n = max([i for i, _, _ in out]) if out else 0
            r = [None] * n
            for i, _, x in out:
                r[i - 1] = x
            return r
        if base == 'Array':
            return self.array(opts, fields, v, self.enc, api=True)
        if base == 'ArrayOf':
            return self.arrayof(opts, v, self.enc)
        if base == 'MapOf':
            if not isinstance(v, dict):
                raise Reject('type')
            self.size(base, opts, len(v))
            return spread([(self.enc(opts['ktype'], k), self.enc(opts['vtype'], x)) for k, x in v.items()])
        raise AssertionError(base)

    def field(self, f, x, fields, tags, op):
        """A field value; tags gives the value of a field by its ID, None when it is absent."""
        fo = options(f[3])
        if 'tagid' not in fo:
            return op(self.ftype(f), x)
        tag = tags(fo['tagid'])
        if tag is None:
            raise Reject('no tag')
        tf = [g for g in fields if g[0] == fo['tagid']][0]
        if op == self.dec:
            tag = self.dec(self.ftype(tf), tag)
        base, opts, alts = self.typ(f[2])
        api, wire = self.ids(base, opts)
        for a in alts:
            if type(tag) is type(a[api]) and tag == a[api]:
                return op(self.ftype(a), x)
        raise Reject('tag')

    def union(self, how, fields, v, op):
        res = []
        for f in fields:
            try:
                res.append(op(self.ftype(f), v))
            except Reject:
                pass
        n = len(res)
        if how == 'O' and n >= 1 or how == 'X' and n == 1 or how == 'A' and n == len(fields):
            for r in res[1:]:
                if how == 'A' and (type(r) is not type(res[0]) or r != res[0]):
                    raise Either        # no particular result is prescribed
            return res[0]
        raise Reject('union')

    def get(self, d, fields, i, key):
        for f in fields:
            if f[0] == i:
                return d.get(f[key])

    def array(self, opts, fields, v, op, api):
        if not isinstance(v, list):
            raise Reject('type')
        self.size('Array', opts, len([x for x in v if x is not None]))
        if len(v) > len(fields):
            raise Reject('too many')
        out = []
        for i, f in enumerate(fields):
            x = v[i] if i < len(v) else None
            if x is None:
                if options(f[3]).get('minc', 1) > 0:
                    raise Reject('missing')
                out.append(None)
            else:
                out.append(self.field(f, x, fields, lambda n: v[n - 1] if n <= len(v) else None, op))
        while out and out[-1] is None:
            out.pop()
        return out

    def arrayof(self, opts, v, op):
        if not isinstance(v, list):
            raise Reject('type')
        self.size('ArrayOf', opts, len(v))
        if 'unique' in opts or 'set' in opts:
            for i in range(len(v)):
                for j in range(i):
                    if v[i] == v[j]:
                        raise Reject('duplicate')
        return [op(opts['vtype'], x) for x in v]

    # ---- decode
    def wirekey(self, k, ids):
        """JSON object keys are text: an integer ID may arrive as its decimal text."""
        if not ids:
            return k
        if isinstance(k, str):
            try:
                return int(k)
            except ValueError:
                raise Reject('key')
        if is_int(k):
            return k
        raise Reject('key')

    def dec(self, t, s):
        base, opts, fields = self.typ(t)
        if base in PRIMS:
            if base == 'Binary':
                if not isinstance(s, str):
                    raise Reject('type')
                return self.dec_binary(opts, s)
            self.scalar(base, opts, s)
            return s
        api, wire = self.ids(base, opts)
        if base == 'Enumerated':
            for f in fields:
                if type(s) is type(f[wire]) and s == f[wire]:
                    return f[api]
            raise Reject('item')
        if base == 'Choice':
            if 'combine' in opts:
                return self.union(opts['combine'], fields, s, self.dec)
            if not isinstance(s, dict) or len(s) != 1:
                raise Reject('choice')
            k0 = list(s)[0]
            k = self.wirekey(k0, wire == 0)
            for f in fields:
                if k == f[wire]:
                    return {f[api]: self.dec(self.ftype(f), s[k0])}
            raise Reject('alternative')
        if base == 'Map' or base == 'Record' and self.vr:
            if not isinstance(s, dict):
                raise Reject('type')
            self.size(base, opts, len(s))
            d = spread([(self.wirekey(k, wire == 0), x) for k, x in s.items()])
            known = [f[wire] for f in fields]
            for k in d:
                if k not in known:
                    raise Reject('undeclared')
            out = {}
            for f in fields:
                if f[wire] in d:
                    if d[f[wire]] is None:
                        raise Either
                    out[f[1]] = self.field(f, d[f[wire]], fields, lambda i: self.get(d, fields, i, wire), self.dec)
                elif options(f[3]).get('minc', 1) > 0:
                    raise Reject('missing')
            return out
        if base == 'Record':
            r = self.array(opts, fields, s, self.dec, api=False)
            return {f[1]: r[i] for i, f in enumerate(fields) if i < len(r) and r[i] is not None}
        if base == 'Array':
            return self.array(opts, fields, s, self.dec, api=False)
        if base == 'ArrayOf':
            return self.arrayof(opts, s, self.dec)
        if base == 'MapOf':
            if not isinstance(s, dict):
                raise Reject('type')
            self.size(base, opts, len(s))
            out = []
            for k, x in s.items():
                out.append((self.dec_key(opts['ktype'], k), self.dec(opts['vtype'], x)))
            return spread(out)
        raise AssertionError(base)

    def dec_key(self, t, k):
        """Key of a MapOf: like dec, except that numbers may arrive as their text."""
        base, opts, fields = self.typ(t)
        if isinstance(k, str):
            if base == 'Integer' and 'format' not in opts:
                k = self.wirekey(k, True)
            elif base == 'Enumerated' and self.ids(base, opts)[1] == 0:
                k = self.wirekey(k, True)
        return self.dec(t, k)

    def dec_binary(self, opts, s):
        """Unpadded base64url; padding and non-zero spare bits are left open.  The value itself is checked by C05."""
        for c in s:
            if c == '=':
                raise Either
            if c not in B64:
                raise Reject('alphabet')
        if len(s) % 4 == 1:
            raise Reject('length')
        self.size('Binary', opts, len(s) * 3 // 4)
        if len(s) % 4:
            raise Either
        return AnyValue
