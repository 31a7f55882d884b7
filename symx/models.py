"""
Models of libraries the code under test calls: frozendict, binascii, json, datetime helpers, jsonschema, lxml, files.
Each is a stub with the library's documented behaviour; sampled paths are replayed against the real libraries.
"""
import binascii as _binascii
import builtins
import io
import json as _json
import os as _os
import sys
import sysconfig
import types

import z3

from . import values as V
from . import rt
from . import instrument as I
from . import symre
from .engine import ENG, Unsupported, UNIVERSE, UIDX, bits_of, bits_of_set
from .values import Sym, SymInt, SymBool, SymStr, LazyStr, SymBytes, mkstr, mkbytes, cps, in_set, is_str, has_sym, concrete, z3_of

STDLIB = sysconfig.get_paths()['stdlib']


def hexval(c):
    return V.digit_value(c, 16)


def byte_of(h, l):
    if isinstance(h, int) and isinstance(l, int):
        return h * 16 + l
    b = z3.simplify(z3_of(h) * 16 + z3_of(l))
    return b


# -------------------------------------------------------------------------------------------- frozendict
class FrozenDict:
    def __init__(self, *a, **kw):
        self.d = rt.m_dict(*a, **kw)

    def __getitem__(self, k):
        return rt.getitem(self.d, k)

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return rt.contains(self.d, k)

    def keys(self):
        return self.d.keys()

    def values(self):
        return self.d.values()

    def items(self):
        return self.d.items()

    def get(self, k, d=None):
        return rt.dict_get(self.d, k, d)

    def __eq__(self, o):
        return isinstance(o, (dict, FrozenDict)) and rt.eq(self, o)

    def __hash__(self):
        sym = has_sym(self.d)
        if sym and rt.HASH_OK[0]:
            return object.__hash__(self)
        for v in self.d.values():
            rt.need_hashable(v)
            if isinstance(v, FrozenDict):
                hash(v)
        if sym:
            ENG.abort(Unsupported('hash of frozendict'))
        return hash(frozenset(self.d.items()))


# -------------------------------------------------------------------------------------------- binascii
B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
B64_BITS = bits_of_set(B64)
# ENG.pathmap['sext', id of a base64 character term]: (its 6-bit value term, alphabet bytes, char term)


def sext_char(v, alphabet=B64):
    if isinstance(v, int):
        return alphabet[v]
    c = z3.simplify(z3.If(v < 26, v + 65, z3.If(v < 52, v + 71, z3.If(v < 62, v - 4, z3.If(v == 62, z3.IntVal(43), z3.IntVal(47))))))
    if ('sext', c.get_id()) not in ENG.pathmap:
        ENG.pathmap['sext', c.get_id()] = (v, bytes(alphabet), c)
    ENG.derived(c, B64_BITS)
    return c


def sext_translate(old, new, table):
    """A base64 character term went through bytes.translate(table)."""
    s = ENG.pathmap.get(('sext', old.get_id()))
    if s is not None and not isinstance(new, int):
        alpha = bytes(table[x] for x in s[1])
        if len(set(alpha)) == 64:
            ENG.pathmap['sext', new.get_id()] = (s[0], alpha, new)
            ENG.derived(new, bits_of_set(alpha))


def sext_val(c):
    """6-bit value of a base64 character, or None if it is not in the alphabet (forks)."""
    if isinstance(c, int):
        i = B64.find(bytes([c])) if c < 256 else -1
        return i if i >= 0 else None
    s = ENG.pathmap.get(('sext', c.get_id()))
    if s is not None and s[1] == B64:
        return s[0]
    if not in_set(c, B64_BITS):
        return None
    return z3.simplify(z3.If(c >= 97, c - 71, z3.If(c >= 65, c - 65, z3.If(c >= 48, c + 4, z3.If(c == 43, z3.IntVal(62), z3.IntVal(63))))))


def b2a_base64(data, *, newline=True):
    if not has_sym(data):
        return _binascii.b2a_base64(data, newline=newline)
    bs = V.bvals(data)
    out = []
    for i in range(0, len(bs), 3):
        g = [z3_of(b) for b in bs[i:i + 3]]
        n = len(g)
        g += [z3.IntVal(0)] * (3 - n)
        v = [g[0] / 4, (g[0] % 4) * 16 + g[1] / 16, (g[1] % 16) * 4 + g[2] / 64, g[2] % 64]
        v = [z3.simplify(x) for x in v]
        v = [x.as_long() if z3.is_int_value(x) else x for x in v]
        cs = [sext_char(x) for x in v[:n + 1]] + [61] * (3 - n)
        out += cs
    if newline:
        out.append(10)
    return mkbytes(out)


def _asc(s):
    if is_str(s):
        a = cps(s)
        for c in a:
            if not in_set(c, V.bits_of_lt(128)):
                raise ValueError('string argument should contain only ASCII characters')
        return a
    return V.bvals(s)


def a2b_base64(s, /, *, strict_mode=False):
    if not has_sym(s):
        return _binascii.a2b_base64(s, strict_mode=strict_mode)
    if strict_mode:
        ENG.abort(Unsupported('a2b_base64 strict_mode'))
    a = _asc(s)
    out = []
    quad, left, pads = 0, 0, 0
    done = False
    i = 0
    for c in a:
        if isinstance(c, int) and c == 61 or not isinstance(c, int) and V.decide_ch_eq(c, 61):
            pads += 1
            if quad >= 2 and quad + pads >= 4:
                done = True
                break
            continue
        v = sext_val(c)
        if v is None:
            continue
        pads = 0
        v = z3_of(v)
        if quad == 0:
            quad, left = 1, v
        elif quad == 1:
            quad = 2
            out.append(z3.simplify(left * 4 + v / 16))
            left = v % 16
        elif quad == 2:
            quad = 3
            out.append(z3.simplify(left * 16 + v / 4))
            left = v % 4
        else:
            quad = 0
            out.append(z3.simplify(left * 64 + v))
            left = 0
    if quad != 0 and not done:
        if quad == 1:
            raise _binascii.Error(f'Invalid base64-encoded string: number of data characters cannot be 1 more than a multiple of 4')
        raise _binascii.Error('Incorrect padding')
    return mkbytes([recombine(b) for b in out])


def recombine(b):
    return b.as_long() if z3.is_int_value(b) else b


def hexlify(data, *a):
    if has_sym(data) and not a:
        return mkbytes(list(cps(data.hex())))
    return _binascii.hexlify(concrete(data), *a)


def unhexlify(s):
    if not has_sym(s):
        return _binascii.unhexlify(s)
    a = _asc(s)
    if len(a) % 2:
        raise _binascii.Error('Odd-length string')
    out = []
    for i in range(0, len(a), 2):
        h, l = hexval_ascii(a[i]), hexval_ascii(a[i + 1])
        if h is None or l is None:
            raise _binascii.Error('Non-hexadecimal digit found')
        out.append(byte_of(h, l))
    return mkbytes(out)


def hexval_ascii(c):
    if not in_set(c, V.bits_of_lt(128)):
        return None
    return hexval(c)


def mkmod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    I.MODELS[name] = m
    return m


def wrap_module(real, **over):
    """A module object with the real module's attributes, some replaced."""
    m = types.ModuleType(real.__name__)
    m.__dict__.update({k: v for k, v in vars(real).items() if k not in ('__spec__', '__loader__')})
    m.__dict__.update(over)
    I.MODELS[real.__name__] = m
    return m


# -------------------------------------------------------------------------------------------- json
def _sj():
    return I.load('sym_json')


def json_dumps(obj, **kw):
    if not has_sym(obj):
        return _json.dumps(obj, **kw)
    return _sj().dumps(obj, **kw)


def json_loads(s, **kw):
    if not isinstance(s, Sym):
        if not isinstance(s, (str, bytes, bytearray)) and has_sym(s):
            raise TypeError(f'the JSON object must be str, bytes or bytearray, not {type(s).__name__}')
        return _json.loads(s, **kw)
    if isinstance(s, (SymInt, SymBool)):
        raise TypeError(f'the JSON object must be str, bytes or bytearray, not {s.pytype.__name__}')
    return _sj().loads(s, **kw)


def json_load(fp, **kw):
    return json_loads(rt.call(fp.read), **kw)


def json_dump(obj, fp, **kw):
    rt.call(fp.write, json_dumps(obj, **kw))


# -------------------------------------------------------------------------------------------- files
FS = {}
SYMFS = '/symfs/'
SYMDIR = [None, None]       # scratch directory of the run, and of this process


def scratch():
    """Called before worker processes start; removed when this process ends."""
    import atexit
    import shutil
    import tempfile
    d = SYMDIR[0] = tempfile.mkdtemp(prefix='verif_symx_')
    pid = _os.getpid()
    atexit.register(lambda: _os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))


def symdir():
    if SYMDIR[0] is None:
        scratch()
    d = _os.path.join(SYMDIR[0], str(_os.getpid()))
    if SYMDIR[1] != d:
        _os.makedirs(d, exist_ok=True)
        SYMDIR[1] = d
    return d


def in_memory(name):
    return name.startswith(SYMFS) or SYMDIR[1] is not None and name.startswith(SYMDIR[1] + '/')


class MemFile:
    """Text file in memory; newline translation of text mode included."""

    def __init__(self, name, mode):
        self.name, self.mode = name, mode
        self.encoding = 'utf8'
        self.closed = False
        self.buffer = None
        if 'r' in mode:
            if name not in FS:
                raise FileNotFoundError(2, 'No such file or directory', name)
            self.data = FS[name]
            self.pos = 0
        else:
            self.parts = [FS.get(name, '')] if 'a' in mode else []
            FS[name] = ''

    def write(self, s):
        if isinstance(s, HtmlDoc):
            head = concrete(rt.m_join('', self.parts))
            if head and not harmless_header(head):
                ENG.abort(Unsupported('text before an HTML document'))
            self.parts.append(s)
            FS[self.name] = s
            return 0
        if not is_str(s):
            raise TypeError(f'write() argument must be str, not {type(s).__name__}')
        self.parts.append(s)
        if any(isinstance(x, HtmlDoc) for x in self.parts):
            self.parts = [concrete(x) if isinstance(x, HtmlDoc) else x for x in self.parts]
        FS[self.name] = rt.m_join('', self.parts)
        return len(s)

    def read(self, n=-1):
        if isinstance(self.data, HtmlDoc):      # \r is escaped in HTML: no newline translation
            t, self.data = self.data, ''
            return t
        t = self.text()
        t = t[self.pos:]
        self.pos += len(t)
        return t

    def text(self):
        """Universal newlines: \\r\\n and \\r read back as \\n."""
        t = self.data
        cr = bits_of_set([13])
        a = cps(t)
        out, i = [], 0
        while i < len(a):
            if in_set(a[i], cr, lambda x: x == 13):
                out.append(10)
                if i + 1 < len(a) and V.decide_ch_eq(a[i + 1], 10):
                    i += 1
            else:
                out.append(a[i])
            i += 1
        return mkstr(out)

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def m_open(name, mode='r', *a, **kw):
    if isinstance(name, Sym):
        name = concrete(name)
    if isinstance(name, _os.PathLike):
        name = _os.fspath(name)
    if isinstance(name, str) and in_memory(name):
        return MemFile(name, mode)
    if any(c in mode for c in 'wax+'):
        ENG.abort(Unsupported('write to a real file'))
    return builtins.open(name, mode, *a, **kw)


def path_write(p, text, *a, **kw):
    with m_open(p, 'w') as f:
        return f.write(text)


def path_read(p, *a, **kw):
    with m_open(p) as f:
        return f.read()


rt.HANDLERS[open] = m_open
rt.PATH_METHODS.update(open=m_open, write_text=path_write, read_text=path_read)
rt.NATIVE_OK.discard(open)


# -------------------------------------------------------------------------------------------- lxml
XML_BAD = bits_of(lambda c: (c < 32 and c not in (9, 10, 13)))
_lx = {}


def lxml_roundtrip(text):
    from lxml import html
    from lxml.html import builder
    from lxml.etree import tostring
    e = builder.HTML(builder.HEAD(builder.META(charset='UTF-8')), builder.BODY(builder.DIV(builder.DIV(text, **{'class': 'x'}))))
    s = tostring(e, method='html', pretty_print=True, doctype='<!DOCTYPE html>').decode()
    return [x.text for x in html.fromstring(s).iter() if x.get('class', '') == 'x'][0]


def lxml_table():
    """Characters the real lxml serialise+parse round trip keeps (calibrated against it at load time)."""
    if not _lx:
        keep, other = 0, {}
        for i, c in enumerate(UNIVERSE):
            if XML_BAD >> i & 1:
                continue
            for text in ('a' + chr(c) + 'b', chr(c), chr(c) + 'b', 'b' + chr(c)):
                r = lxml_roundtrip(text)
                if r != text:
                    other.setdefault(c, []).append((text, r))
            if c not in other:
                keep |= 1 << i
        _lx['keep'], _lx['other'] = keep, other
    return _lx


class Elem:
    def __init__(self, tag, attrib=None, text=None):
        self.tag, self.attrib, self.text, self.tail, self.kids = tag, dict(attrib or {}), None, None, []
        if text is not None:
            self.text = self.chk(text)

    def __setattr__(self, k, v):
        if k == 'text' and v is not None:
            v = self.chk(v)
        object.__setattr__(self, k, v)

    @staticmethod
    def chk(t):
        if not is_str(t):
            raise TypeError(f'Argument must be bytes or unicode, got {type(t).__name__!r}')
        if isinstance(t, LazyStr) and all(not isinstance(p, (SymStr, V.ObjFmt)) for p in t.parts):
            return t
        for c in cps(t):
            if in_set(c, XML_BAD, lambda x: x < 32 and x not in (9, 10, 13) or 0xd800 <= x < 0xe000 or x in (0xfffe, 0xffff)):
                raise ValueError('All strings must be XML compatible: Unicode or ASCII, no NULL bytes or control characters')
        return t

    def append(self, e):
        if isinstance(e, Elem):
            if any(e is k for k in self.kids):
                self.kids = [k for k in self.kids if k is not e]
            if getattr(e, '_parent', None) is not None and e._parent is not self:
                e._parent.kids = [k for k in e._parent.kids if k is not e]
            object.__setattr__(e, '_parent', self)
            self.kids.append(e)
        else:
            raise TypeError('append() needs an element')

    def get(self, k, d=None):
        return self.attrib.get(k, d)

    def set(self, k, v):
        self.attrib[k] = v

    def iter(self, *tags):
        if not tags or self.tag in tags:
            yield self
        for k in self.kids:
            yield from k.iter(*tags)

    def __iter__(self):
        return iter(self.kids)

    def __len__(self):
        return len(self.kids)

    def __getitem__(self, i):
        return self.kids[i]

    def text_content(self):
        return rt.m_join('', [e.text or '' for e in self.iter()])


def _builder(tag):
    def make(*children, **attrib):
        e = Elem(tag, attrib)
        for c in children:
            if is_str(c):
                e.text = c if e.text is None else e.text + c
            elif isinstance(c, dict):
                e.attrib.update(c)
            else:
                e.append(c)
        return e
    make.__module__ = 'symx.models'
    return make


class Builder(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        from lxml.html import builder
        getattr(builder, n)        # AttributeError for unknown elements as in the real module
        return _builder(n.lower())


class HtmlDoc(V.StrOps, Sym):
    """Serialised document; its text is only built if something looks at it."""
    pytype = str

    def __init__(self, root, doctype):
        self.root, self.doctype, self.done = root, doctype, None

    def _c(self):
        if self.done is None:
            self.done = cps(serialise(self.root, self.doctype))
        return self.done

    def decode(self, *a):
        return self

    __hash__ = Sym.__hash__


def harmless_header(head):
    """The real parser reads the same document with and without the text in front."""
    from lxml import html
    from lxml.etree import tostring
    doc = '<!DOCTYPE html><html lang="en"><head><meta charset="UTF-8"><title>t</title></head><body><h2>S</h2><div class="a">b<div class="c">d</div></div></body></html>'
    return tostring(html.fromstring(head + doc)) == tostring(html.fromstring(doc))


class HtmlBytes(Sym):
    pytype = bytes

    def __init__(self, doc):
        self.doc = doc

    def decode(self, *a):
        return self.doc
    __hash__ = Sym.__hash__


def to_real(e):
    from lxml.etree import Element
    r = Element(e.tag, attrib={k: concrete(v) for k, v in e.attrib.items()})
    if e.text is not None:
        r.text = concrete(e.text)
    for k in e.kids:
        r.append(to_real(k))
    return r


def serialise(root, doctype):
    from lxml.etree import tostring
    for e in root.iter():
        if e.text is not None and has_sym(e.text):
            ENG.unsup_msgs['concretised HTML text'] = ENG.unsup_msgs.get('concretised HTML text', 0) + 1
            break
    return tostring(to_real(root), method='html', pretty_print=True, doctype=doctype).decode()


def lx_tostring(e, **kw):
    if not isinstance(e, Elem):
        raise TypeError(f"Type '{type(e)}' cannot be serialized.")
    return HtmlBytes(HtmlDoc(e, kw.get('doctype', '')))


def reparse_text(t):
    """Text of an element after serialise+parse, per the calibrated table."""
    if t is None or (not isinstance(t, Sym) and t == ''):
        return None
    tab = lxml_table()
    if isinstance(t, LazyStr) and all(isinstance(p, (str, V.IntFmt)) for p in t.parts):
        return t
    a = cps(t)
    if len(a) == 0:
        return None
    for c in a:
        if not in_set(c, tab['keep'], lambda x: True):
            return lxml_roundtrip(concrete(mkstr(a)))
    return t


def reparse(e):
    r = Elem(e.tag, e.attrib)
    object.__setattr__(r, 'text', reparse_text(e.text) if not e.kids else e.text)
    for k in e.kids:
        r.append(reparse(k))
    return r


def lx_fromstring(s, **kw):
    if isinstance(s, HtmlDoc):
        return reparse(s.root)
    from lxml import html
    return html.fromstring(concrete(s) if isinstance(s, Sym) else s)


# -------------------------------------------------------------------------------------------- installation
def install(src_roots):
    """src_roots: {top-level package: directory that contains it} to be instrumented."""
    I.ROOTS.update(src_roots)
    I.ALIAS['sym_json'] = _os.path.join(STDLIB, 'json')
    I.ALIAS['sym_base64'] = _os.path.join(STDLIB, 'base64')
    I.ALIAS['sym_ipaddress'] = _os.path.join(STDLIB, 'ipaddress')
    I.ALIAS['sym_html'] = _os.path.join(STDLIB, 'html')
    I.ALIAS['sym_textwrap'] = _os.path.join(STDLIB, 'textwrap')
    I.ALIAS['sym_datetime'] = _os.path.join(STDLIB, '_pydatetime')
    # adding 0.0 to an integer below 3.1e6 and rounding is the identity
    I.PATCH['sym_datetime'] = [('microseconds = round(microseconds + usdouble)', 'microseconds = round(microseconds + usdouble) if usdouble else microseconds')]
    I.MODELS['re'] = symre
    bm = wrap_module(_binascii, b2a_base64=b2a_base64, a2b_base64=a2b_base64, hexlify=hexlify, unhexlify=unhexlify,
                     b2a_hex=hexlify, a2b_hex=unhexlify)
    for m in ('sym_json', 'sym_json.decoder', 'sym_json.scanner'):
        if hasattr(I.load(m), 'JSONDecodeError'):
            I.load(m).JSONDecodeError = _json.JSONDecodeError
    wrap_module(_json, dumps=json_dumps, loads=json_loads, load=json_load, dump=json_dump)
    for alias, name in (('sym_base64', 'base64'), ('sym_ipaddress', 'ipaddress'), ('sym_html', 'html'), ('sym_textwrap', 'textwrap')):
        I.MODELS[name] = I.load(alias)
    import frozendict
    mkmod('frozendict', frozendict=FrozenDict, deepfreeze=None)
    import lxml, lxml.html, lxml.etree, lxml.html.builder
    b = Builder('lxml.html.builder')
    I.MODELS['lxml.html.builder'] = b
    html = wrap_module(lxml.html, fromstring=lx_fromstring, builder=b)
    et = wrap_module(lxml.etree, Element=Elem, tostring=lx_tostring)
    I.MODELS['lxml'] = types.ModuleType('lxml')
    I.MODELS['lxml'].__dict__.update(html=html, etree=et)
    import bisect, collections, functools, itertools
    I.ALIAS['sym_pylib'] = _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), 'pylib')
    pl = I.load('sym_pylib')
    for lib, names in ((itertools, ('groupby', 'takewhile', 'dropwhile', 'filterfalse', 'starmap', 'compress', 'accumulate', 'pairwise', 'batched')),
                       (functools, ('lru_cache', 'cache', 'cmp_to_key', 'singledispatch')), (collections, ('Counter', 'ChainMap', 'OrderedDict')), (io, ('StringIO',)),
                       (bisect, ('bisect_left', 'bisect_right', 'bisect', 'insort_left', 'insort_right', 'insort'))):
        for n in names:
            if hasattr(lib, n):
                rt.HANDLERS[getattr(lib, n)] = getattr(pl, {'bisect': 'bisect_right', 'insort': 'insort_right'}.get(n, n))
    rt.HANDLERS[itertools.chain.from_iterable] = pl.from_iterable
    from . import symschema, symdate
    symschema.install()
    symdate.install()


for _c in (FrozenDict, MemFile, Elem, HtmlDoc, HtmlBytes, symre.Pattern, symre.Match):
    rt.MODEL_CLASSES.add(_c)
