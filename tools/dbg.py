"""Debug: run one harness in-process.  dbg.py C02 integer [npaths] [--profile]"""
import os, sys, time, threading, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, '/opt/venv/lib/python3.12/site-packages']
sys.setrecursionlimit(9000)


def main():
    pid, name = sys.argv[1:3]
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 20
    from symx import models, rt, ctx, runner, engine
    from symx import instrument as I
    from symx.engine import ENG
    ENG.trace_unsupported = int(os.environ.get('UNS', 0))
    t = time.time()
    models.install({'jadn': os.environ.get('VERIF_REPO', '/repo') + '/distribution/src'})
    I.load('jadn')
    for m in runner.list_modules():
        try:
            I.load(m)
        except Exception as e:
            print('cannot load', m, e)
    for f in os.listdir(HERE + '/harness'):
        if f.startswith('h_'):
            I.ALIAS[f[:-3]] = HERE + '/harness/' + f[:-3]
    hp = f'{HERE}/harness/{pid.lower()}.py'
    hm = I.instrument_source(open(hp).read(), hp, 'harness_' + pid.lower())
    print('load', time.time() - t)
    known = {k['id'] for k in runner.load_known() if k.get('status') == 'known' and k['property'] == pid}
    sx = ctx.Sx({**hm.PARAMS[os.environ.get('VERIF_TIER', 'quick')], 'tier': 'quick'}, known)
    fn = hm.HARNESSES[name]
    count = [0]
    ENG.violation_cb = lambda l, d, i: print('VIOL', l, d if type(d) is str else '', runner.readable(i))

    def body():
        rt.NONDET['set_order'] = False
        sx.start()
        models.FS.clear()
        try:
            fn(sx)
        except Exception as e:
            if ENG.aborted_with is not None:
                raise ENG.aborted_with
            traceback.print_exc()
            ENG.violation('uncaught:' + type(e).__name__)
        finally:
            sx.unstub()

    t0 = [time.time()]

    def on_path(st):
        count[0] += 1
        if count[0] <= 30 or count[0] % 100 == 0:
            print(count[0], st, f'{time.time() - t0[0]:.3f}s steps={ENG.steps} ev={len(ENG.events)}', sx.trace[:6], end=' ')
            if st == 'ok':
                print(runner.readable(ENG.extract_inputs(ENG.get_model())))
            else:
                print(ENG.aborted_with)
        t0[0] = time.time()
    r = ENG.explore(body, [], on_path, None, lambda: count[0] >= n)
    print('left', None if r is None else len(r), ENG.stats)
    print(ENG.unsup_msgs, ENG.reached)


if '--profile' in sys.argv:
    sys.argv.remove('--profile')
    import cProfile, pstats
    p = cProfile.Profile()
    p.runcall(main)
    pstats.Stats(p).sort_stats(os.environ.get('SORT', 'cumtime')).print_stats(35)
else:
    threading.stack_size(768 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
