"""Generators of schemas and values shared by the harnesses."""
from h_util import anyval

# leaf types: name -> definition
LEAF = {
    'Integer': None, 'Boolean': None, 'String': None, 'Binary': None, 'Number': None,
    'I9': ['I9', 'Integer', ['{0', '}9'], ''],
    'S2': ['S2', 'String', ['{1', '}2'], ''],
    'E2': ['E2', 'Enumerated', [], '', [[3, 'x', ''], [7, 'y', '']]],
    'EID': ['EID', 'Enumerated', ['='], '', [[3, 'x', ''], [7, 'y', '']]],
    'L2': ['L2', 'ArrayOf', ['*I9', '}2'], ''],
    'M2': ['M2', 'MapOf', ['+S2', '*I9', '}2'], ''],
    'R1': ['R1', 'Record', [], '', [[1, 'p', 'I9', [], ''], [2, 'q', 'String', ['[0'], '']]],
    'C1': ['C1', 'Choice', [], '', [[4, 'm', 'I9', [], ''], [6, 'n', 'S2', [], '']]],
}
DEPS = {'L2': ['I9'], 'M2': ['S2', 'I9'], 'R1': ['I9'], 'C1': ['I9', 'S2']}


def defs(*names):
    """Definitions of the leaf types and of what they refer to."""
    out = []
    todo = list(names)
    while todo:
        n = todo.pop(0)
        if n in LEAF and LEAF[n] is not None and n not in [d[0] for d in out]:
            out.append([x if not isinstance(x, list) else [list(y) if isinstance(y, list) else y for y in x] for x in LEAF[n]])
        todo += DEPS.get(n, [])
    return out


def size_opts(sx, opts, lo=0, hi=4, p='size'):
    """Optional symbolic minv/maxv."""
    k = sx.pick(p, ('none', 'min', 'max', 'both'))
    if k in ('min', 'both'):
        a = sx.int(p + '.lo', lo, hi)
        opts.append('{' + str(a))
    if k in ('max', 'both'):
        b = sx.int(p + '.hi', lo, hi)
        opts.append('}' + str(b))
        if k == 'both':
            sx.assume(sx.Or(a <= b, b == 0))


def leaf(sx, name, t, wire, vs):
    """A candidate value for a leaf type: valid in kind, contents symbolic."""
    if t in ('Integer', 'I9'):
        return sx.int(name, -3, 20)
    if t == 'Number':
        return sx.float(name)
    if t in ('String', 'S2'):
        return sx.str(name, 0, 3)
    if t == 'Boolean':
        return sx.bool(name)
    if t == 'Binary':
        return sx.str(name, 0, 4) if wire else sx.bytes(name, 0, 2)
    if t == 'EID' or t == 'E2' and wire and not vs:
        return sx.int(name, 0, 9)
    if t == 'E2':
        return sx.str(name, 1, 1, 'xyz')
    if t == 'L2':
        return [sx.int(f'{name}.{i}', -1, 10) for i in range(sx.pick(name + '.n', (0, 1, 2, 3)))]
    if t == 'M2':
        out = {}
        for i in range(sx.pick(name + '.n', (0, 1, 2, 3))):
            k = sx.str(f'{name}.k{i}', 0, 2, 'ab')
            sx.assume(k not in out)
            out[k] = sx.int(f'{name}.{i}', -1, 10)
        return out
    raise AssertionError(t)


def badkind(sx, name):
    return anyval(sx, name, 0, 0, ('none', 'bool', 'int', 'str', 'list', 'dict'))
