"""C01: decoding an encoded value returns the value, in every mode."""
from jadn.codec import Codec
import h_cases

BOUNDS = h_cases.BOUNDS
ASSUMPTIONS = ['Dictionaries are compared without regard to key order; everything else must have the same type and value.']
PARAMS = {'quick': {'nf': 3, 'full': True}, 'thorough': {'nf': 3, 'full': True}}
REACH = list(h_cases.CASES)


def harness(name, case):
    def h(sx):
        schema, t, v, vr, vs = case(sx)
        c = Codec(schema, verbose_rec=vr, verbose_str=vs)
        e = sx.call(c.encode, t, v)
        if e[0] != 'ok':
            return
        sx.reach(name)
        d = sx.call(c.decode, t, e[1])
        sx.check(d[0] == 'ok', 'the encoded value does not decode', (v, e[1], d[2]))
        sx.check(sx.same(d[1], v), 'decode(encode(v)) is not v', (v, e[1], d[1]))
    return h


HARNESSES = {n: harness(n, f) for n, f in h_cases.CASES.items()}
