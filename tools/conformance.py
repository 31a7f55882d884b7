"""
Compare the symbolic engine with CPython: every function of tools/programs.py runs symbolically on all its paths;
for one model of each path the plain function must give the same outcome.   conformance.py [NAME...]
"""
import inspect, os, sys, threading, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, '/opt/venv/lib/python3.12/site-packages']
sys.setrecursionlimit(9000)


def main():
    from symx import models, rt, ctx, runner
    from symx import instrument as I
    from symx.engine import ENG
    import replay
    import z3
    from symx import values as V
    import importlib.util
    models.install({'jadn': os.environ.get('VERIF_REPO', '/repo') + '/distribution/src'})
    path = HERE + '/tools/programs.py'
    sym = I.instrument_source(open(path).read(), path, 'sym_programs')
    spec = importlib.util.spec_from_file_location('programs', path)
    nat = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(nat)
    names = sys.argv[1:] or [n for n, f in vars(nat).items() if inspect.isfunction(f) and f.__module__ == 'programs' and not n.startswith('_')]
    sx = ctx.Sx({}, set())
    bad = total = uns = 0
    for name in names:
        fn, nf = getattr(sym, name), getattr(nat, name)
        code = nf.__code__
        args = code.co_varnames[:code.co_argcount]
        dflt = dict(zip(args[len(args) - len(nf.__defaults__ or ()):], nf.__defaults__ or ()))
        out = {}

        def make(src, a):
            mk = dict if src is not sx else rt.mkdict
            d = dflt.get(a)
            if a.startswith('i'):
                return src.int(a, -4, 12)
            if a.startswith('b'):
                return src.bool(a)
            if a.startswith('f'):
                return src.float(a)
            if a.startswith('y'):
                return src.bytes(a, 0, 2)
            if a.startswith('p'):
                return src.pick(a, d)
            if a.startswith('v'):           # a value of any type
                k = src.pick(a + '.k', ('int', 'str', 'bool', 'none', 'float', 'list', 'dict'))
                return {'int': lambda: src.int(a, -4, 12), 'str': lambda: src.str(a, 0, 2), 'bool': lambda: src.bool(a), 'none': lambda: None,
                        'float': lambda: src.float(a), 'list': lambda: [src.int(a, 0, 3)], 'dict': lambda: mk([(src.str(a, 1), 1)])}[k]()
            if a.startswith('l'):
                return [src.int(f'{a}{i}', 0, 3) for i in range(src.pick(a + '.n', (0, 1, 2, 3)))]
            if a.startswith('d'):
                return mk([(src.str(f'{a}{i}', 1, 1, 'abAB'), src.int(f'{a}{i}v', 0, 3)) for i in range(src.pick(a + '.n', (0, 1, 2)))])
            if a.startswith('t'):
                return [src.str(f'{a}{i}', 0, 1, 'ab=') for i in range(src.pick(a + '.n', (0, 1, 2, 3)))]
            return src.str(a, 0, 3, d if isinstance(d, str) else 'abA1-= ')
        st = {'n': 0, 'bad': 0, 'other': 0}

        def force(x):
            if isinstance(x, V.LazyStr):
                x.force()
            elif isinstance(x, rt.CharSet):
                return x.mat()
            elif isinstance(x, (list, tuple, set, frozenset)):
                return type(x)(*map(force, x)) if hasattr(x, '_fields') else [force(v) for v in x] if isinstance(x, list) else \
                    tuple(force(v) for v in x) if isinstance(x, tuple) else rt.mkset([force(v) for v in x], type(x))
            elif isinstance(x, dict):
                return rt.mkdict([(force(k), force(v)) for k, v in x.items()])
            return x

        def conc(x, m):
            if isinstance(x, V.SymBool):
                return z3.is_true(m.eval(x.e, model_completion=True))
            if isinstance(x, V.LazyStr):
                return conc(x.force(), m)
            if isinstance(x, V.SymInt):
                return ENG.mval(m, x.e)
            if isinstance(x, V.SymFloat):
                return V.float_of(m.eval(x.e, model_completion=True))
            if isinstance(x, V.SymStr):
                return ''.join(chr(ENG.mval(m, c)) for c in x.cs)
            if isinstance(x, V.SymBytes):
                return bytes(ENG.mval(m, c) for c in x.bs)
            if isinstance(x, (list, tuple, set, frozenset)):
                return ([] if isinstance(x, list) else () if isinstance(x, tuple) else type(x)()).__class__(conc(v, m) for v in x)
            if isinstance(x, dict):
                return {conc(k, m): conc(v, m) for k, v in x.items()}
            return x

        def plain(x):
            if isinstance(x, tuple):
                return tuple(plain(v) for v in x)
            if isinstance(x, list):
                return [plain(v) for v in x]
            if isinstance(x, dict):
                return {plain(k): plain(v) for k, v in x.items()}
            return x

        def body():
            rt.NONDET['set_order'] = False
            sx.start()
            try:
                out['r'] = ('ok', force(rt.call(fn, *[make(sx, a) for a in args])))
            except Exception as e:
                if ENG.aborted_with is not None:
                    raise ENG.aborted_with
                out['r'] = ('err', type(e).__name__)
                out['tb'] = traceback.format_tb(e.__traceback__)[-1][-300:]

        def on_path(status):
            st['n'] += 1
            if status != 'ok':
                st['other'] += 1
                st['why'] = repr(ENG.aborted_with)
                return
            m = ENG.get_model()
            inp = ENG.extract_inputs(m)
            cx = replay.Cx(inp, {}, set())
            cargs = [make(cx, a) for a in args]
            shown = repr(cargs)
            try:
                want = ('ok', nf(*cargs))
            except Exception as e:
                want = ('err', type(e).__name__)
            r = out['r']
            ok = r[0] == want[0]
            if ok:
                ok = replay.same(conc(r[1], m), plain(want[1])) if r[0] == 'ok' else r[1] == want[1]
                r = (r[0], conc(r[1], m))
            if not ok:
                st['bad'] += 1
                if st['bad'] < 4:
                    print(f'{name}{shown}: engine {r!r} CPython {want!r}', out.get('tb', '') if r[0] == 'err' else '')
        t0 = time.time()
        before = dict(ENG.unsup_msgs)
        try:
            ENG.explore(body, [], on_path, None, lambda: st['n'] > 3000 or time.time() - t0 > 30)
        except BaseException as e:
            print(name, 'ENGINE', type(e).__name__, e, traceback.format_exc()[-800:])
            st['bad'] += 1
        new = {k: v for k, v in ENG.unsup_msgs.items() if v != before.get(k)}
        if st['other'] or new:
            print(f'{name}: {st["other"]} of {st["n"]} paths not completed {st.get("why")} {new}')
            uns += 1
        bad += bool(st['bad'])
        total += st['n']
    print(f'{len(names)} programs, {total} paths, {bad} programs differ, {uns} with unsupported paths')
    return bad


threading.stack_size(768 * 1024 * 1024)
RES = []
t = threading.Thread(target=lambda: RES.append(main()))
t.start()
t.join()
sys.exit(1 if not RES or RES[0] else 0)
