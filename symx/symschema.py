"""
Model of jsonschema: concrete instances use the real library, symbolic ones a small validator for the keywords
that JADN's schemas use.  Formats of symbolic strings are decided by the real format checker on a concretised value,
except the ones defined here.
"""
import types

import jsonschema as _js

from . import rt, symre
from . import values as V
from . import instrument as I
from .engine import ENG, Unsupported
from .values import has_sym, concrete, is_str, Sym, SymInt

VE = _js.exceptions.ValidationError
KNOWN = {'$schema', '$id', 'id', 'title', 'description', 'definitions', '$defs', '$comment', 'minValue', 'maxValue', 'default', 'examples',
         '$ref', 'type', 'properties', 'required', 'additionalProperties', 'patternProperties', 'propertyNames',
         'items', 'additionalItems', 'minItems', 'maxItems', 'uniqueItems', 'minProperties', 'maxProperties',
         'minLength', 'maxLength', 'pattern', 'minimum', 'maximum', 'exclusiveMinimum', 'exclusiveMaximum', 'multipleOf',
         'enum', 'const', 'anyOf', 'oneOf', 'allOf', 'not', 'format', 'if', 'then', 'else', 'contains', 'contentEncoding',
         'contentMediaType', 'unevaluatedProperties', 'dependencies', 'prefixItems'}


def is_type(x, t):
    p = rt.pytype_of(x)
    if t == 'object':
        return issubclass(p, dict)
    if t == 'array':
        return issubclass(p, list)
    if t == 'string':
        return issubclass(p, str)
    if t == 'boolean':
        return p is bool
    if t == 'null':
        return p is type(None)
    if t == 'integer':
        return issubclass(p, int) and p is not bool or p is float and bool(x.is_integer())
    if t == 'number':
        return issubclass(p, (int, float)) and p is not bool
    raise _js.exceptions.UnknownType(t, x, {})


def jeq(a, b):
    """jsonschema's equality: True is not 1."""
    pa, pb = rt.pytype_of(a), rt.pytype_of(b)
    if issubclass(pa, list) and issubclass(pb, list):
        return len(a) == len(b) and all(jeq(x, y) for x, y in zip(a, b))
    if issubclass(pa, dict) and issubclass(pb, dict):
        return len(a) == len(b) and all(rt.find_key(b, k) is not rt.MISSING and jeq(v, rt.getitem(b, k)) for k, v in a.items())
    if (pa is bool) != (pb is bool):
        return False
    return bool(rt.eq(a, b))


class Mini:
    def __init__(self, schema, fmt):
        self.root, self.fmt = schema, fmt

    def resolve(self, ref):
        if not ref.startswith('#'):
            ENG.abort(Unsupported(f'$ref {ref}'))
        x = self.root
        for p in ref[1:].split('/')[1:]:
            p = p.replace('~1', '/').replace('~0', '~')
            try:
                x = x[int(p)] if isinstance(x, list) else x[p]
            except (KeyError, IndexError):
                from referencing.exceptions import PointerToNowhere
                raise _js.exceptions._WrappedReferencingError(PointerToNowhere(ref=ref, resource=None))
        return x

    def ok(self, s, x):
        try:
            self.val(s, x)
            return True
        except VE:
            return False

    def fail(self, msg):
        raise VE(msg)

    def val(self, s, x):
        if s is True:
            return
        if s is False:
            self.fail('false schema')
        if not has_sym(x) and False:
            return
        if '$ref' in s:
            return self.val(self.resolve(s['$ref']), x)
        for k in s:
            if k not in KNOWN:
                ENG.abort(Unsupported(f'JSON Schema keyword {k}'))
        if 'type' in s:
            ts = s['type'] if isinstance(s['type'], list) else [s['type']]
            if not any(is_type(x, t) for t in ts):
                self.fail(f'not of type {ts}')
        p = rt.pytype_of(x)
        if 'enum' in s and not any(jeq(x, v) for v in s['enum']):
            self.fail('not in enum')
        if 'const' in s and not jeq(x, s['const']):
            self.fail('not const')
        for t in s.get('allOf', ()):
            self.val(t, x)
        if 'anyOf' in s and not any(self.ok(t, x) for t in s['anyOf']):
            self.fail('anyOf')
        if 'oneOf' in s and sum(1 for t in s['oneOf'] if self.ok(t, x)) != 1:
            self.fail('oneOf')
        if 'not' in s and self.ok(s['not'], x):
            self.fail('not')
        if 'if' in s:
            b = 'then' if self.ok(s['if'], x) else 'else'
            if b in s:
                self.val(s[b], x)
        if issubclass(p, str):
            n = len(x)
            if 'minLength' in s and n < s['minLength'] or 'maxLength' in s and n > s['maxLength']:
                self.fail('length')
            if 'pattern' in s and not symre.search(s['pattern'], x):
                self.fail('pattern')
            if 'format' in s and self.fmt is not None:
                self.format(s['format'], x)
        elif issubclass(p, (int, float)) and p is not bool:
            if 'minimum' in s and bool(x < s['minimum']):
                self.fail('minimum')
            if 'maximum' in s and bool(x > s['maximum']):
                self.fail('maximum')
            if 'exclusiveMinimum' in s and bool(x <= s['exclusiveMinimum']):
                self.fail('exclusiveMinimum')
            if 'exclusiveMaximum' in s and bool(x >= s['exclusiveMaximum']):
                self.fail('exclusiveMaximum')
            if 'multipleOf' in s and bool(rt.Not(rt.eq(x % s['multipleOf'], 0))):
                self.fail('multipleOf')
        elif issubclass(p, list):
            n = len(x)
            if 'minItems' in s and n < s['minItems'] or 'maxItems' in s and n > s['maxItems']:
                self.fail('size')
            it = s.get('items')
            if 'prefixItems' in s:
                ENG.abort(Unsupported('prefixItems'))
            if isinstance(it, list):
                for t, v in zip(it, x):
                    self.val(t, v)
                ai = s.get('additionalItems', True)
                for v in x[len(it):]:
                    self.val(ai, v)
            elif it is not None:
                for v in x:
                    self.val(it, v)
            if s.get('uniqueItems'):
                for i in range(n):
                    for j in range(i):
                        if jeq(x[i], x[j]):
                            self.fail('not unique')
            if 'contains' in s and not any(self.ok(s['contains'], v) for v in x):
                self.fail('contains')
        elif issubclass(p, dict):
            n = len(x)
            if 'minProperties' in s and n < s['minProperties'] or 'maxProperties' in s and n > s['maxProperties']:
                self.fail('properties')
            for r in s.get('required', ()):
                if rt.find_key(x, r) is rt.MISSING:
                    self.fail(f'required {r}')
            props, pats = s.get('properties', {}), s.get('patternProperties', {})
            ap = s.get('additionalProperties', True)
            for k, v in list(x.items()):
                known = False
                pk = rt.find_key(props, k)
                if pk is not rt.MISSING:
                    known = True
                    self.val(props[pk], v)
                for pat, t in pats.items():
                    if symre.search(pat, k):
                        known = True
                        self.val(t, v)
                if not known:
                    self.val(ap, v)
                if 'propertyNames' in s:
                    self.val(s['propertyNames'], k)

    def format(self, f, x):
        if not isinstance(x, Sym):
            c = x
        elif f in ('email', 'idn-email'):
            if '@' not in _Wrap(x):
                self.fail('format')
            return
        elif f not in self.fmt.checkers:
            return
        else:
            ENG.unsup_msgs[f'concretised for JSON Schema format {f}'] = ENG.unsup_msgs.get(f'concretised for JSON Schema format {f}', 0) + 1
            c = concrete(x)
        try:
            self.fmt.check(c, f)
        except _js.exceptions.FormatError as e:
            self.fail(e.message)


class _Wrap:
    def __init__(self, s):
        self.s = s

    def __contains__(self, c):
        return rt.contains(self.s, c)


def make_validator(real):
    class Validator:
        def __init__(self, schema, *a, format_checker=None, **kw):
            self.schema, self.fmt = schema, format_checker
            self._a, self._kw = a, kw

        @classmethod
        def check_schema(cls, schema, *a, **kw):
            if has_sym(schema):
                ENG.abort(Unsupported('check_schema of a symbolic schema'))
            return real.check_schema(schema, *a, **kw)

        def real(self):
            return real(self.schema, *self._a, format_checker=self.fmt, **self._kw)

        def validate(self, instance):
            if not has_sym(instance) and not has_sym(self.schema):
                return self.real().validate(instance)
            if has_sym(self.schema):
                ENG.abort(Unsupported('symbolic JSON schema'))
            Mini(self.schema, self.fmt).val(self.schema, instance)

        def is_valid(self, instance):
            try:
                self.validate(instance)
                return True
            except VE:
                return False

        def iter_errors(self, instance):
            if not has_sym(instance):
                yield from self.real().iter_errors(instance)
                return
            try:
                self.validate(instance)
            except VE as e:
                yield e
    Validator.__module__ = 'symx.symschema'
    return Validator


def validate(instance, schema, cls=None, *a, format_checker=None, **kw):
    if not has_sym(instance) and not has_sym(schema):
        return _js.validate(instance, schema, *( [cls] if cls else []), *a, format_checker=format_checker, **kw)
    Mini(schema, format_checker).val(schema, instance)


def install():
    m = I.MODELS['jsonschema'] = types.ModuleType('jsonschema')
    m.__dict__.update({k: getattr(_js, k) for k in ('exceptions', 'ValidationError', 'SchemaError', 'FormatChecker')})
    for k in ('draft7_format_checker', 'draft202012_format_checker'):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m.__dict__[k] = getattr(_js, k)
    for k in ('Draft4Validator', 'Draft6Validator', 'Draft7Validator', 'Draft201909Validator', 'Draft202012Validator'):
        m.__dict__[k] = make_validator(getattr(_js, k))
    m.validate = validate
    v = types.ModuleType('jsonschema.validators')
    v.__dict__.update(m.__dict__)
    v.validator_for = lambda s, default=None: m.Draft7Validator
    m.validators = v
    I.MODELS['jsonschema.exceptions'] = _js.exceptions
    I.MODELS['jsonschema.validators'] = v
