"""C03: structured values are accepted exactly when they satisfy the declared type (encode and decode, four modes)."""
from h_util import diff, anyval, schema_of
from h_gen import defs, size_opts, leaf, badkind

BOUNDS = ('Records, maps and arrays of up to nf fields (each required or optional; leaf types Integer, I9 = Integer{0..9}, S2 = String{1..2}, '
          'Boolean, Enumerated), every subset of fields, one undeclared field or extra element, size bounds any integers 0..4; '
          'choices of up to 2 alternatives with symbolic IDs; ArrayOf/MapOf of up to ne elements; leaf contents symbolic '
          '(integers -3..20, strings up to 3 characters); any JSON kind in place of a container, a field or an element; four modes, both directions.')
ASSUMPTIONS = ['A JSON object that spells one integer key twice (1 and "1") and a null for a present map field leave the outcome open.',
               'Absent optional fields of an Array or of a concise Record do not count towards its size.']
PARAMS = {'quick': {'nf': 2, 'ne': 2, 'full': False}, 'thorough': {'nf': 3, 'ne': 3, 'full': True}}
REACH = [f'{b}-{o}-{r}' for b in ('Record', 'Map', 'MapID', 'Array', 'Choice', 'ChoiceID', 'ArrayOf', 'MapOf') for o in ('encode', 'decode')
         for r in ('ok', 'reject')]
NAMES = ['a', 'b', 'c']


def mode(sx):
    return sx.pick('op', ('encode', 'decode')), sx.bool('vr'), sx.bool('vs')


def fields(sx, n, focus, size=False):
    fs = []
    for i in range(n):
        t = sx.pick(f't{i}', ('I9', 'S2')) if i == focus or focus == 'all' else 'I9'
        if size and i == n - 1:
            t = sx.pick(f't{i}', sorted(EMPTY))
        fs.append([i + 1, NAMES[i], t, ['[0'] if sx.bool(f'opt{i}') else [], ''])
    return fs


GOOD = {'I9': 5, 'S2': 'z', 'Integer': 1, 'String': 's'}
EMPTY = {'I9': 0, 'String': '', 'L2': []}       # values that count although they are false


def focused(sx, n, content):
    """The element with symbolic content ('all' in thorough runs, None: all constant), and whether it is of another kind."""
    if not content or not n:
        return None, False
    f = sx.pick('focus', list(range(n)) + (['all'] if sx.p('full') else []))
    return f, f != 'all' and sx.bool('bad')


def entries(sx, fs, wire, vs, focus, bad):
    """(field, value) for the present fields; at most one value is of another kind."""
    out = []
    for i, f in enumerate(fs):
        if i == focus and bad:
            out.append((f, badkind(sx, f'v{i}')))
        elif sx.bool(f'has{i}'):
            out.append((f, leaf(sx, f'v{i}', f[2], wire, vs) if i == focus or focus == 'all' else EMPTY[f[2]] if i == len(fs) - 1 and f[2] in EMPTY else GOOD[f[2]]))
    return out


def maprec(sx):
    op, vr, vs = mode(sx)
    base, idopt = sx.pick('base', (('Record', False), ('Map', False), ('Map', True)))
    if base == 'Record' and not vr and op == 'decode':
        sx.discard()    # harness record_list
    n = sx.pick('n', list(range(sx.p('nf') + 1)))
    scenario = sx.pick('scenario', ('content', 'size', 'extra'))
    focus, bad = focused(sx, n, scenario == 'content')
    fs = fields(sx, n, focus, scenario == 'size')
    if base == 'Map':
        step = sx.int('idstep', 1, 1000)
        for i, f in enumerate(fs):
            f[0] = step * (i + 1)
    opts = ['='] if idopt else []
    if scenario == 'size':
        size_opts(sx, opts)
    wire = op == 'decode'
    ids = wire and (idopt or not vs)
    v = {}
    for f, x in entries(sx, fs, wire, vs, focus, bad):
        k = f[0] if ids else f[1]
        if ids and f[0] == fs[0][0] and sx.bool('textkey'):
            k = str(k)
        v[k] = x
    ex = sx.pick('extra', ('str', 'int')) if scenario == 'extra' else 'no'
    if ex == 'str':
        k = sx.str('xk', 1, 2, 'abd17')
        sx.assume(k not in v)
        v[k] = sx.pick('xv', (1, None))
    elif ex == 'int':
        k = sx.int('xk', 0, 9)
        sx.assume(k not in v)
        v[k] = 1
    diff(sx, schema_of(['T', base, opts, '', fs], *defs('I9', 'S2', 'L2')), 'T', v, op, vr, vs, tag=base + ('ID' if idopt else ''))


def reclist(sx):
    """Concise records and arrays: positional lists."""
    base = sx.pick('base', ('Record', 'Array'))
    op, vr, vs = ('decode', False, sx.bool('vs')) if base == 'Record' else mode(sx)
    n = sx.pick('n', list(range(sx.p('nf') + 1)))
    content = sx.bool('content')
    focus, bad = focused(sx, n, content)
    fs = fields(sx, n, focus, not content)
    opts = []
    if not content:
        size_opts(sx, opts)
    wire = op == 'decode'
    v = []
    for i in range(sx.pick('len', list(range(n + 2)))):
        if i == focus and bad:
            v.append(badkind(sx, f'v{i}'))
        elif i >= n:
            v.append(sx.pick('extra', (None, 1, [1], {'a': 1}) if content else (None, 1)))
        elif sx.bool(f'has{i}'):
            v.append(leaf(sx, f'v{i}', fs[i][2], wire, vs) if i == focus or focus == 'all' else EMPTY[fs[i][2]] if i == n - 1 and not content else GOOD[fs[i][2]])
        else:
            v.append(None)
    diff(sx, schema_of(['T', base, opts, '', fs], *defs('I9', 'S2', 'L2')), 'T', v, op, vr, vs, tag=base)


def choice(sx):
    op, vr, vs = mode(sx)
    idopt = sx.bool('idopt')
    n = sx.pick('n', (1, 2, 0))
    fs = []
    for i in range(n):
        k = sx.int(f'id{i}', 0, 99)
        for f in fs:
            sx.assume(f[0] != k)
        fs.append([k, NAMES[i], sx.pick(f't{i}', ('I9', 'S2') if i == 0 else ('I9',)), [], ''])
    wire = op == 'decode'
    v = {}
    for j in range(sx.pick('len', (0, 1, 2))):
        kk = sx.pick(f'kind{j}', ('name', 'id', 'idtext', 'str', 'int', 'none') if j == 0 else ('name', 'id', 'str'))
        if kk in ('name', 'id', 'idtext') and j >= n:
            sx.discard()
        k = (fs[j][1] if kk == 'name' else fs[j][0] if kk == 'id' else str(fs[j][0]) if kk == 'idtext' else
             sx.str(f'k{j}', 0, 2, 'abd19') if kk == 'str' else sx.int(f'k{j}', 0, 99) if kk == 'int' else None)
        sx.assume(k not in v)
        v[k] = (sx.int(f'v{j}', -3, 20) if sx.bool(f'vint{j}') else sx.str(f'v{j}', 0, 3)) if j == 0 else 1
    diff(sx, schema_of(['T', 'Choice', ['='] if idopt else [], '', fs], *defs('I9', 'S2')), 'T', v, op, vr, vs, tag='ChoiceID' if idopt else 'Choice')


def arrayof(sx):
    op, vr, vs = mode(sx)
    t = sx.pick('vtype', ('I9', 'S2', 'Boolean', 'E2', 'Integer'))
    opts = ['*' + t]
    q = sx.pick('distinct', (None, 'q', 's', 'b', 'size'))
    if q == 'size':
        q = None
        size_opts(sx, opts)
    if q:
        opts.append(q)
    wire = op == 'decode'
    n = sx.pick('len', list(range(sx.p('ne') + 1)))
    bad = sx.pick('bad', [None] + list(range(n))) if len(opts) < 2 or q else None
    v = [badkind(sx, f'v{i}') if i == bad else leaf(sx, f'v{i}', t, wire, vs) for i in range(n)]
    if q == 's' and sx.bool('swap'):
        v.reverse()
    diff(sx, schema_of(['T', 'ArrayOf', opts, ''], *defs(t)), 'T', v, op, vr, vs, tag='ArrayOf')


def unique_nested(sx):
    """Distinctness of structured elements."""
    op = sx.pick('op', ('encode', 'decode'))
    t = sx.pick('vtype', ('L2', 'M2'))
    v = []
    for i in range(2):
        n = sx.pick(f'n{i}', (0, 1, 2))
        if t == 'L2':
            v.append([sx.int(f'v{i}.{j}', 0, 9) for j in range(n)])
        else:
            ks = ['a', 'b'] if sx.bool(f'order{i}') else ['b', 'a']
            v.append({ks[j]: sx.int(f'v{i}.{j}', 0, 9) for j in range(n)})
    diff(sx, schema_of(['T', 'ArrayOf', ['*' + t, sx.pick('q', ('q', 's'))], ''], *defs(t)), 'T', v, op, tag='ArrayOf')


def mapof(sx):
    op, vr, vs = mode(sx)
    kt = sx.pick('ktype', ('S2', 'I9', 'String', 'Integer'))
    vt = sx.pick('vtype', ('I9', 'S2'))
    opts = ['+' + kt, '*' + vt]
    content = sx.bool('content')
    if not content:
        size_opts(sx, opts)
    wire = op == 'decode'
    n = sx.pick('len', list(range(sx.p('ne') + 1)))
    focus, bad = focused(sx, n, content)
    badk = sx.bool('badk') if focus == 0 else False
    v = {}
    for i in range(n):
        if i == 0 and badk:
            k = sx.pick(f'k{i}', ('x9', '', None, True, 1.5, 77))
        else:
            k = leaf(sx, f'k{i}', kt, wire, vs) if i == focus or focus == 'all' else i if 'I' in kt else NAMES[i]
            if wire and kt in ('I9', 'Integer') and sx.bool(f'text{i}'):
                k = str(k)
        sx.assume(k not in v)
        v[k] = badkind(sx, f'v{i}') if i == focus and bad else leaf(sx, f'v{i}', vt, wire, vs) if i == focus or focus == 'all' else GOOD[vt]
    diff(sx, schema_of(['T', 'MapOf', opts, ''], *defs(kt, vt)), 'T', v, op, vr, vs, tag='MapOf')


def other(sx):
    """A value of any JSON kind under every structure type."""
    op, vr, vs = mode(sx)
    base = sx.pick('base', ('Record', 'Map', 'MapID', 'Array', 'Choice', 'ChoiceID', 'ArrayOf', 'MapOf'))
    idopt = base.endswith('ID')
    b = base[:-2] if idopt else base
    opts = ['='] if idopt else []
    fs = [[1, 'a', 'Integer', [] if b == 'Choice' or sx.bool('req') else ['[0'], '']]
    if b == 'ArrayOf':
        opts, fs = ['*Integer'], []
    elif b == 'MapOf':
        opts, fs = ['+String', '*Integer'], []
    v = anyval(sx, 'v', 1, 1)
    diff(sx, schema_of(['T', b, opts, '', fs]), 'T', v, op, vr, vs, tag=base)


def nested(sx):
    """Fields that are themselves structures."""
    op, vr, vs = mode(sx)
    wire = op == 'decode'
    ids = wire and not vs
    k = sx.pick('field', ('R1', 'C1', 'L2', 'M2'))
    if k == 'R1':
        p, q = sx.bool('p'), sx.bool('q')
        if wire and not vr:
            x = [sx.int('pv', -1, 10) if p else None] + ([sx.str('qv', 0, 1)] if q else [])
        else:
            x = {}
            if p:
                x[1 if ids else 'p'] = sx.int('pv', -1, 10)
            if q:
                x[2 if ids else 'q'] = sx.str('qv', 0, 1) if sx.bool('qs') else 5
    elif k == 'C1':
        x = {(sx.int('c', 3, 7) if ids else sx.str('c', 1, 1, 'mno')): sx.int('pv', -1, 10) if sx.bool('i') else sx.str('pv', 1, 1)}
    else:
        x = leaf(sx, 'x', k, wire, vs)
    outer = sx.pick('outer', ('Record', 'Map', 'Array', 'ArrayOf', 'MapOf', 'Choice'))
    opts, fs = [], [[1, 'a', k, [], '']]
    if outer == 'ArrayOf':
        opts, fs, v = ['*' + k], [], [x]
    elif outer == 'MapOf':
        opts, fs, v = ['+S2', '*' + k], [], {'z': x}
    elif outer == 'Array' or outer == 'Record' and wire and not vr:
        v = [x]
    else:
        v = {(1 if ids else 'a'): x}
    diff(sx, schema_of(['T', outer, opts, '', fs], *defs('S2', k)), 'T', v, op, vr, vs, tag=outer)


HARNESSES = {'maprec': maprec, 'reclist': reclist, 'choice': choice, 'arrayof': arrayof, 'unique_nested': unique_nested,
             'mapof': mapof, 'other': other, 'nested': nested}
