"""
Runs the harnesses of one property: symbolic exploration in parallel worker processes, concrete replay of every
counterexample and of sampled paths on the real code, evidence file.
"""
import json
import multiprocessing as mp
import os
import queue
import random
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NWORK = int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                out.append(json.loads(line))
    return out


class Replayer:
    """Batch replay process on the real code."""

    def __init__(self, seed='0'):
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        env['PYTHONHASHSEED'] = str(seed)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['VERIF_REPO'] = REPO
        self.p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(HERE, 'replay.py'), '--batch'], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)

    def run(self, job, timeout=60):
        try:
            self.p.stdin.write(json.dumps(job) + '\n')
            self.p.stdin.flush()
            import select
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.p.kill()
                return {'status': 'timeout', 'trace': []}
            line = self.p.stdout.readline()
            if not line:
                return {'status': 'died', 'trace': []}
            return json.loads(line)
        except (BrokenPipeError, ValueError):
            return {'status': 'died', 'trace': []}

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def worker(wid, tasks, results, pending, idle, stop, deadline, harnesses, params, known, slice_s, nsamples, seed):
    from . import engine, ctx, rt
    from . import instrument as I
    from .engine import ENG
    ENG.deadline = deadline
    sx = ctx.Sx(params, known)
    counts = {}
    rng = random.Random(seed * 1000 + wid)
    samples = {}
    uncaught = {}
    uid = [0]

    def run_task(name, saved):
        fn = harnesses[name]
        st = counts.setdefault(name, dict(paths=0, seen=0, cut=0))
        t_end = time.time() + slice_s

        def vcb(label, detail, inputs):
            results.put(('viol', name, label, detail[:500] if type(detail) is str else '', inputs, list(sx.trace)))
        ENG.violation_cb = vcb

        def body():
            rt.NONDET['set_order'] = False
            sx.start()
            from . import models
            models.FS.clear()
            try:
                fn(sx)
            except RecursionError as e:
                ENG.abort(engine.Unsupported('recursion too deep in the engine: ' + str(e)[:60]))
            except Exception as e:
                if ENG.aborted_with is not None:
                    raise ENG.aborted_with
                key = (name, type(e).__name__)
                if key not in uncaught:
                    uncaught[key] = traceback.format_exc()[-1500:]
                ENG.violation('uncaught:' + type(e).__name__, uncaught[key])
            finally:
                sx.unstub()

        def on_path(status):
            if status == 'ok':
                st['seen'] += 1
                lst = samples.setdefault(name, [])
                k = len(lst)
                j = k if k < nsamples else rng.randrange(st['seen'])
                if j < nsamples and (k < nsamples or rng.random() < 0.2):
                    try:
                        s = (ENG.extract_inputs(ENG.get_model()), list(sx.trace))
                    except engine.Control:
                        return
                    if k < nsamples:
                        lst.append(s)
                    else:
                        lst[j] = s

        def until():
            return stop.is_set() or time.time() > t_end or time.time() > deadline

        def donate(events):
            if idle.value > 0 and tasks.empty():
                for i, ev in enumerate(events):
                    if ev.alts:
                        v = ev.alts.pop(0)
                        with pending.get_lock():
                            pending.value += 1
                        tasks.put((name, [(e.kind, e.val, []) for e in events[:i]] + [(ev.kind, v, [])]))
                        break
        try:
            r = ENG.explore(body, saved, on_path, donate, until)
        except engine.EngineBug as e:
            results.put(('bug', name, f'{e}: {traceback.format_exc()[-1500:]}'))
            st['cut'] += 1
            return
        except z3err() as e:
            results.put(('bug', name, f'{e}: {traceback.format_exc()[-1500:]}'))
            st['cut'] += 1
            return
        if r == 'cut':
            st['cut'] += 1
        elif r is not None:
            if stop.is_set() or time.time() > deadline:
                st['cut'] += 1
            else:
                with pending.get_lock():
                    pending.value += 1
                tasks.put((name, r))

    per = {}
    try:
        while not stop.is_set():
            with idle.get_lock():
                idle.value += 1
            t = None
            try:
                while not stop.is_set():
                    try:
                        t = tasks.get(timeout=0.05)
                        break
                    except queue.Empty:
                        if pending.value <= 0:
                            break
            finally:
                with idle.get_lock():
                    idle.value -= 1
            if t is None:
                break
            name, saved = t
            if time.time() > deadline:
                counts.setdefault(name, dict(paths=0, seen=0, cut=0))['cut'] += 1
            else:
                before = dict(ENG.stats)
                t0 = time.time()
                run_task(name, saved)
                d = per.setdefault(name, {})
                for k, v in ENG.stats.items():
                    d[k] = d.get(k, 0) + v - before[k]
                d['wall'] = d.get('wall', 0) + time.time() - t0
            with pending.get_lock():
                pending.value -= 1
    except BaseException as e:
        results.put(('bug', '?', f'{type(e).__name__} {e}: {traceback.format_exc()[-1500:]}'))
    for n, c in counts.items():
        per.setdefault(n, {})['cut'] = c['cut']
    results.put(('done', wid, per, ENG.reached, ENG.unsup_msgs, I.functions_run(), samples))


def z3err():
    import z3
    return z3.Z3Exception


def worker_main(*a):
    sys.stdout = open(os.devnull, 'w')      # what the code under test prints is not a report
    sys.setrecursionlimit(9000)
    threading.stack_size(768 * 1024 * 1024)
    t = threading.Thread(target=worker, args=a)
    t.start()
    t.join()


def run_property(pid, hfile, tier, seed, budget, evidence_dir=None, only=None, verbose=False):
    t0 = time.time()
    sys.setrecursionlimit(9000)
    sys.path.insert(0, HERE)
    from . import models, rt
    from . import instrument as I
    models.install({'jadn': os.path.join(REPO, 'distribution', 'src')})
    models.scratch()
    I.load('jadn')
    for m in list_modules():
        try:
            I.load(m)
        except Exception as e:
            if verbose:
                print('cannot load', m, e)
    hp = os.path.join(HERE, 'harness', hfile)
    for f in sorted(os.listdir(os.path.join(HERE, 'harness'))):
        if f.endswith('.py'):
            I.ALIAS[f[:-3]] = os.path.join(HERE, 'harness', f[:-3])
    name = 'harness_' + hfile[:-3]
    hm = I.instrument_source(open(hp).read(), hp, name)
    harnesses = dict(hm.HARNESSES)
    if only:
        harnesses = {k: v for k, v in harnesses.items() if any(k.startswith(o) for o in only)}
    params = dict(hm.PARAMS[tier])
    params['tier'] = tier
    known_all = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']
    known = {k['id'] for k in known_all}
    load_s = time.time() - t0

    mpx = mp.get_context('fork')
    tasks, results = mpx.Queue(), mpx.Queue()
    pending, idle, stop = mpx.Value('i', len(harnesses)), mpx.Value('i', 0), mpx.Event()
    for n in harnesses:
        tasks.put((n, []))
    deadline = t0 + budget
    nsamples = 3 if tier == 'quick' else 10
    ws = []
    for w in range(NWORK):
        p = mpx.Process(target=worker_main, args=(w, tasks, results, pending, idle, stop, deadline, harnesses, params,
                                                  known, 2.0, nsamples, seed), daemon=True)
        p.start()
        ws.append(p)
    base_job = {'property': pid, 'harness_file': os.path.join('harness', hfile), 'params': params, 'known': sorted(known)}
    rep = Replayer()
    stats, per, reached, unsup, funcs, samples = {}, {}, {}, {}, set(), {}
    confirmed, unconfirmed, bugs = [], [], []
    tried = {}
    done = 0
    nviol = 0

    def replay(hname, inputs):
        job = {**base_job, 'harness': hname, 'inputs': inputs, 'harness_file': hp}
        nonlocal rep
        if params.get('hashseeds'):
            import replay as rp
            return rp.run_seeds(job, params['hashseeds'], PY)
        r = rep.run(job)
        if r['status'] in ('timeout', 'died'):
            rep.close()
            rep = Replayer()
        return r

    grace = None
    while done < len(ws):
        try:
            m = results.get(timeout=1)
        except queue.Empty:
            if not any(p.is_alive() for p in ws):
                try:
                    m = results.get(timeout=1)
                except queue.Empty:
                    break
            elif time.time() > deadline + 20:
                break
            else:
                continue
        if m[0] == 'viol':
            _, hname, label, detail, inputs, trace = m
            nviol += 1
            key = (hname, label)
            if stop.is_set() or tried.get(key, 0) >= 25 or any(c['label'] == label and c['harness'] == hname for c in confirmed):
                continue
            tried[key] = tried.get(key, 0) + 1
            r = replay(hname, inputs)
            if r['status'] == 'violated':
                confirmed.append({'harness': hname, 'label': r['label'], 'detail': r['detail'], 'inputs': inputs,
                                  'hashseed': r.get('hashseed')})
                if len(confirmed) >= (1 if not verbose else 20):
                    stop.set()
            else:
                unconfirmed.append({'harness': hname, 'label': label, 'detail': detail, 'inputs': inputs, 'replay': r, 'trace': trace})
        elif m[0] == 'bug':
            bugs.append({'harness': m[1], 'what': m[2]})
        elif m[0] == 'done':
            done += 1
            _, wid, pw, rc, um, fr, sm = m
            for n, d in pw.items():
                e = per.setdefault(n, {})
                for k, v in d.items():
                    e[k] = e.get(k, 0) + v
                    if k not in ('wall', 'cut'):
                        stats[k] = stats.get(k, 0) + v
            for k, v in rc.items():
                reached[k] = reached.get(k, 0) + v
            for k, v in um.items():
                unsup[k] = unsup.get(k, 0) + v
            funcs |= set(fr)
            for n, l in sm.items():
                samples.setdefault(n, []).extend(l)
    for p in ws:
        p.join(timeout=0.2)
        if p.is_alive():
            p.kill()
    cut = {n: d.get('cut', 0) for n, d in per.items() if d.get('cut')}
    for n in harnesses:
        if n not in per:
            cut[n] = -1
    explore_s = time.time() - t0

    # ---- sampled paths on the real code
    agree, disagree, shown = 0, [], []
    if not confirmed:
        rng = random.Random(seed)
        jobs = [(n, s) for n, l in sorted(samples.items()) for s in rng.sample(l, min(len(l), max(2, 120 // max(1, len(samples)))))]
        rng.shuffle(jobs)
        t_lim = time.time() + (15 if tier == 'quick' else 60)
        for n, (inputs, trace) in jobs:
            if time.time() > t_lim:
                break
            r = rep.run({**base_job, 'harness': n, 'inputs': inputs, 'harness_file': hp})
            if r['status'] in ('timeout', 'died'):
                rep.close()
                rep = Replayer()
                continue
            if r['status'] == 'violated':
                # the real code violates where the symbolic run saw none: a counterexample all the same
                confirmed.append({'harness': n, 'label': r['label'], 'detail': r['detail'], 'inputs': inputs, 'hashseed': None})
                break
            if r['status'] == 'ok' and r['trace'] == trace:
                agree += 1
                if len(shown) < 8:
                    shown.append({'harness': n, 'inputs': readable(inputs), 'outcomes': trace})
            else:
                disagree.append({'harness': n, 'inputs': inputs, 'symbolic': trace, 'real': r})
    # ---- known findings
    known_lines = []
    for k in known_all:
        if only and k['harness'] not in harnesses:
            continue
        job = {**base_job, 'harness': k['harness'], 'inputs': k['inputs'], 'harness_file': hp, 'known': []}
        r = rep.run(job)
        if r['status'] == 'violated':
            known_lines.append(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
        else:
            known_lines.append(f"note: known finding {k['id']} of {pid} no longer reproduces ({r['status']})")
    rep.close()

    exhaustive = not cut and not stats.get('unsupported') and not stats.get('steplimit') and not stats.get('concretised') and not stats.get('unknown') and not bugs
    need = set(getattr(hm, 'REACH', ()))
    missing = sorted(need - set(reached)) if not only else []
    jf = sorted(f for f in funcs if f.startswith('jadn'))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': int(stats.get('paths', 0)),
            'transitions': int(stats.get('decisions', 0) + stats.get('choices', 0)),
            'traces_validated_against_impl': agree,
            'samples': shown or [{'note': 'no path sampled'}],
            'exhaustive': bool(exhaustive),
            'explanation': 'states = execution paths of the real source explored symbolically to their end, each standing for every '
                           'input that satisfies its path condition; transitions = solver-decided branches plus structural choices; '
                           'traces = sampled paths whose outcome the uninstrumented code reproduced.',
            'functions_encoded': jf,
            'bounds': getattr(hm, 'BOUNDS', ''),
            'params': params,
            'assertions': int(stats.get('checks', 0)),
            'assertions_decided_by_solver': int(stats.get('checks_solver', 0)),
            'solver_queries': int(stats.get('queries', 0)),
            'solver_seconds': round(stats.get('solver_s', 0), 2),
            'solver_unknown': int(stats.get('unknown', 0)),
            'paths_infeasible_or_assumed_away': int(stats.get('aborted', 0)),
            'paths_unsupported': int(stats.get('unsupported', 0)),
            'paths_step_limit': int(stats.get('steplimit', 0)),
            'paths_concretised': int(stats.get('concretised', 0)),
            'harnesses_cut_by_time': cut,
            'per_harness': {n: {k: (round(v, 2) if isinstance(v, float) else v) for k, v in d.items()} for n, d in sorted(per.items())},
            'unsupported_operations': dict(sorted(unsup.items(), key=lambda x: -x[1])[:30]),
            'reachability_witnesses': {k: reached[k] for k in sorted(reached)},
            'unreached_witnesses': missing,
            'model_disagreements': disagree[:10],
            'unconfirmed_counterexamples': [{k: (readable(v) if k == 'inputs' else v) for k, v in u.items()} for u in unconfirmed[:10]],
            'engine_errors': bugs[:10],
        },
        'assumptions': list(getattr(hm, 'ASSUMPTIONS', ())),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(confirmed),
    }
    return ev, confirmed, unconfirmed, known_lines, base_job, dict(load_s=load_s, explore_s=explore_s, cut=cut, bugs=bugs,
                                                                   disagree=disagree, missing=missing, unsup=unsup, per=per)


def readable(inputs):
    return {k: (''.join(map(chr, v)) if t == 'str' else v) for k, (t, v) in inputs.items()}


def list_modules():
    root = os.path.join(REPO, 'distribution', 'src')
    out = []
    for d, ds, fs in os.walk(os.path.join(root, 'jadn')):
        rel = os.path.relpath(d, root).replace(os.sep, '.')
        if '__pycache__' in rel or 'data' in rel.split('.'):
            continue
        for f in sorted(fs):
            if f.endswith('.py'):
                out.append(rel if f == '__init__.py' else f'{rel}.{f[:-3]}')
    return sorted(out)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only', action='append')
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED') or 1)
    hfile = a.pid.lower() + '.py'
    budget = a.budget or (300 if a.tier == 'quick' else 700)
    ev, confirmed, unconfirmed, known_lines, base, info = run_property(a.pid, hfile, a.tier, seed, budget, only=a.only, verbose=a.v)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.only:
        with open(os.path.join(HERE, 'evidence', a.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    c = ev['coverage']
    print(f"{a.pid} {a.tier}: paths={c['states']} branches={c['transitions']} assertions={c['assertions']} "
          f"(solver {c['assertions_decided_by_solver']}) queries={c['solver_queries']} solver_s={c['solver_seconds']} "
          f"validated={c['traces_validated_against_impl']} exhaustive={c['exhaustive']} wall={ev['wall_s']}s")
    if c['harnesses_cut_by_time']:
        print('  cut by time:', c['harnesses_cut_by_time'])
    for k in ('paths_unsupported', 'paths_concretised', 'paths_step_limit', 'solver_unknown'):
        if c[k]:
            print(f'  {k}: {c[k]}')
    if c['unreached_witnesses']:
        print('  unreached witnesses:', c['unreached_witnesses'])
    if info['unsup']:
        print('  limits hit:', dict(sorted(info['unsup'].items(), key=lambda x: -x[1])[:6]))
    for d in info['disagree'][:3]:
        print('  model disagreement:', json.dumps(d)[:1200])
    for b in info['bugs'][:3]:
        print('  engine error:', b['harness'], b['what'][-900:])
    for u in unconfirmed[:5]:
        print('  unconfirmed counterexample:', u['harness'], u['label'], u['detail'][-700:], readable(u['inputs']), u['trace'], u['replay'])
    if a.v:
        for n, d in sorted(info['per'].items()):
            print('   ', n, {k: (round(v, 2) if isinstance(v, float) else v) for k, v in d.items() if v})
        print('  reached:', c['reachability_witnesses'])
    for l in known_lines:
        print(l)
    if confirmed:
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        seen = set()
        for n, v in enumerate(confirmed):
            if (v['harness'], v['label']) in seen:
                continue
            seen.add((v['harness'], v['label']))
            path = os.path.join(d, f'{a.pid}_{n}.json')
            with open(path, 'w') as f:
                json.dump({**base, 'harness': v['harness'], 'inputs': v['inputs'], 'label': v['label'], 'detail': v['detail'],
                           'hashseed': v['hashseed']}, f, indent=1)
            print(f"  {v['harness']}: {v['label']}: {v['detail'][-1500:]}")
            print('  inputs:', readable(v['inputs']))
            print(f'VIOLATION property={a.pid} replay={path}')
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
