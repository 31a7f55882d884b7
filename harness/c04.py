"""C04: the encoded form is the one the mode prescribes, is pure JSON and survives JSON text."""
import json
from jadn.codec import Codec
from h_spec import Spec, Reject
import h_cases

BOUNDS = h_cases.BOUNDS
ASSUMPTIONS = ['JSON text is written and read by the standard json module (its pure Python source is executed symbolically).',
               'MapOf with non-text keys: JSON turns the keys into text.']
PARAMS = {'quick': {'nf': 3, 'full': True}, 'thorough': {'nf': 3, 'full': True}}
REACH = list(h_cases.CASES)


def textkeys(x):
    """What writing and reading JSON text does to a value: integer keys become text."""
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            out[k if isinstance(k, str) else str(k)] = textkeys(v)
        return out
    if isinstance(x, list):
        return [textkeys(v) for v in x]
    return x


def pure(x):
    if isinstance(x, dict):
        return all([isinstance(k, (str, int)) and not isinstance(k, bool) and pure(v) for k, v in x.items()])
    if isinstance(x, list):
        return all([pure(v) for v in x])
    return x is None or isinstance(x, (bool, int, float, str))


def harness(name, case):
    def h(sx):
        schema, t, v, vr, vs = case(sx)
        c = Codec(schema, verbose_rec=vr, verbose_str=vs)
        e = sx.call(c.encode, t, v)
        try:
            want = Spec(schema, vr, vs).enc(t, v)
        except Reject:
            sx.check(e[0] == 'err', 'an invalid value is encoded', (v, e[1]))
            return
        sx.check(e[0] == 'ok', 'a valid value is not encoded', v)
        sx.reach(name)
        sx.check(pure(e[1]), 'the encoded value is not pure JSON', e[1])
        sx.check(sx.same(e[1], want), 'the encoded form is not the prescribed one', (v, e[1], want))
        d = sx.call(c.decode, t, textkeys(e[1]))
        sx.check(d[0] == 'ok', 'the encoded value does not decode after a trip through JSON text', (v, e[1], d[2]))
        sx.check(sx.same(d[1], v), 'another value is decoded after a trip through JSON text', (v, e[1], d[1]))
    return h


def text(sx):
    """The JSON text itself."""
    vr, vs = sx.bool('vr'), sx.bool('vs')
    t = sx.pick('type', ('E2', 'S2', 'I9', 'R1', 'C1', 'M2', 'Binary', 'Boolean'))
    v = h_cases.val(sx, 'v', t)
    schema = h_cases.schema_of(['T', 'Map', [], '', [[5, 'a', t, [], ''], [9, 'b', 'Integer', ['[0'], '']]], *h_cases.defs(t))
    c = Codec(schema, verbose_rec=vr, verbose_str=vs)
    e = sx.call(c.encode, 'T', {'a': v})
    if e[0] != 'ok':
        return
    sx.reach('text')
    s = sx.call(json.dumps, e[1])
    sx.check(s[0] == 'ok', 'the encoded value cannot be written as JSON', e[1])
    d = sx.call(c.decode, 'T', json.loads(s[1]))
    sx.check(d[0] == 'ok' and sx.same(d[1], {'a': v}), 'another value is decoded from the JSON text', (v, s[1], d[1]))


HARNESSES = {n: harness(n, f) for n, f in h_cases.CASES.items()}
HARNESSES['text'] = text
