#!/opt/venv/bin/python
"""
Concrete twin of the symbolic harness: runs a harness on given inputs against the real, uninstrumented jadn in
/repo.   replay.py FILE.json   -> exit 1 and a report if the recorded violation happens, 0 if it does not.
replay.py --batch              -> reads one JSON job per line on stdin, answers one JSON line each.
"""
import copy
import importlib.util
import json
import os
import subprocess
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'distribution', 'src'))
sys.dont_write_bytecode = True


class Violated(BaseException):
    pass


class Discard(BaseException):
    pass


class Missing(BaseException):
    pass


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        for k, v in a.items():
            for k2, v2 in b.items():
                if type(k) is type(k2) and k == k2:
                    if not same(v, v2):
                        return False
                    break
            else:
                return False
        return True
    if isinstance(a, float):
        return (a == b and str(a) == str(b)) or (a != a and b != b)
    return a == b


def digest(x):
    """Text of a value; the order of dicts and sets does not show in it."""
    if isinstance(x, dict):
        return '{' + ', '.join(sorted(digest(k) + ': ' + digest(v) for k, v in x.items())) + '}'
    if isinstance(x, (set, frozenset)):
        return type(x).__name__ + '{' + ', '.join(sorted(map(digest, x))) + '}'
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + '(' + ', '.join(map(digest, x)) + ')'
    return type(x).__name__ + ' ' + repr(x)


def run_seeds(job, n=32, python=sys.executable):
    """Run the job under n hash seeds; its order_free results must not differ."""
    env = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1'}
    ps = []
    for s in range(n):
        p = subprocess.Popen([python, "-W", "ignore", os.path.abspath(__file__), '--batch'], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env={**env, 'PYTHONHASHSEED': str(s)})
        p.stdin.write(json.dumps(job) + '\n')
        p.stdin.close()
        ps.append(p)
    outs = []
    for p in ps:
        line = p.stdout.readline()
        p.wait()
        if line.strip():
            outs.append(json.loads(line))
    if not outs:
        return {'status': 'died'}
    for s, o in enumerate(outs):
        if o['status'] == 'violated':
            return {**o, 'hashseed': s}
        if o['orders'] != outs[0]['orders'] and o['status'] == outs[0]['status'] == 'ok':
            (l, a), (_, b) = next((x, y) for x, y in zip(outs[0]['orders'], o['orders']) if x != y)
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            i = max(0, i - 60)
            return {**o, 'status': 'violated', 'label': l, 'hashseed': s,
                    'detail': f'PYTHONHASHSEED=0: ...{a[i:i + 300]}  PYTHONHASHSEED={s}: ...{b[i:i + 300]}'}
    return outs[0]


class Cx:
    symbolic = False

    def __init__(self, inputs, params, known, exclude=True):
        self.inputs, self.params, self.known_ids = inputs, params, known
        self.trace, self.names, self.reached, self.orders = [], {}, {}, []
        self.tmp = None

    def p(self, name, default=None):
        return self.params.get(name, default)

    def _get(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        name = name if n == 0 else f'{name}#{n}'
        if name not in self.inputs:
            raise Missing(name)
        return self.inputs[name][1]

    def int(self, name, lo=None, hi=None):
        return int(self._get(name))

    def bool(self, name):
        return self.pick(name, (False, True))

    def pick(self, name, options):
        return list(options)[self._get(name)]

    def str(self, name, lo, hi=None, alphabet=None, first=None):
        return ''.join(map(chr, self._get(name)))

    def bytes(self, name, lo, hi=None):
        return bytes(self._get(name))

    def float(self, name, finite=True):
        v = self._get(name)
        return float(v) if v in ('nan', 'inf', '-inf') else float.fromhex(v)

    def assume(self, c):
        if not c:
            raise Discard()

    def check(self, c, label, detail=None):
        if not c:
            raise Violated(label, detail)

    def reach(self, tag):
        self.reached[tag] = 1

    def discard(self):
        raise Discard()

    def same(self, a, b):
        return same(a, b)

    def eq(self, a, b):
        return a == b

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def isfloat(self, x):
        return isinstance(x, float)

    def pytype(self, x):
        return type(x)

    def call(self, f, *a, **kw):
        try:
            r = f(*a, **kw)
        except Exception as e:
            self.trace.append(type(e).__name__)
            return ('err', type(e).__name__, e)
        self.trace.append('ok')
        return ('ok', r, None)

    def note(self, x):
        self.trace.append(str(x))

    def known(self, kid):
        return kid in self.known_ids

    def deepcopy(self, x):
        return copy.deepcopy(x)

    def set_order(self, on=True):
        pass

    def order_free(self, label, f):
        try:
            a = 'ok', f()
        except Exception as e:
            a = 'err', type(e).__name__
        self.trace.append(a[0] if a[0] == 'ok' else a[1])
        self.orders.append((label, digest(a)))
        return a

    def stub(self, module, name, fn):
        return False

    def dir(self, files):
        self.tmp = tempfile.TemporaryDirectory(prefix='verif_replay_')
        for n, text in files.items():
            with open(os.path.join(self.tmp.name, n), 'w', encoding='utf-8', newline='') as f:
                f.write(text)
        return self.tmp.name


def load_harness(path):
    name = 'harness_' + os.path.splitext(os.path.basename(path))[0]
    if name in sys.modules:
        return sys.modules[name]
    hd = os.path.join(HERE, 'harness')
    if hd not in sys.path:
        sys.path.insert(0, hd)
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


def patch_open():
    """/symfs/ paths of the harnesses live in a scratch directory created for this process."""
    import builtins
    real = builtins.open
    box = {}

    def op(name, *a, **kw):
        if isinstance(name, str) and name.startswith('/symfs/'):
            if 'd' not in box:
                box['d'] = tempfile.TemporaryDirectory(prefix='verif_replay_')
            name = os.path.join(box['d'].name, name[7:].replace('/', '_'))
        return real(name, *a, **kw)
    builtins.open = op


def run(job):
    h = load_harness(job['harness_file'])
    cx = Cx(job['inputs'], job['params'], set(job.get('known', ())))
    out = {'status': 'ok'}
    try:
        h.HARNESSES[job['harness']](cx)
    except Violated as e:
        out = {'status': 'violated', 'label': e.args[0], 'detail': str(e.args[1])[:2000]}
    except Discard:
        out = {'status': 'discard'}
    except Missing as e:
        out = {'status': 'diverged', 'missing': str(e)}
    except Exception as e:
        out = {'status': 'violated', 'label': 'uncaught:' + type(e).__name__, 'detail': traceback.format_exc()[-2000:]}
    out['trace'] = cx.trace
    out['orders'] = cx.orders
    return out


def main():
    patch_open()
    if sys.argv[1] == '--batch':
        answers, sys.stdout = sys.stdout, open(os.devnull, 'w')       # what the code under test prints is not an answer
        for line in sys.stdin:
            job = json.loads(line)
            print(json.dumps(run(job)), file=answers, flush=True)
        return 0
    job = json.load(open(sys.argv[1]))
    if not os.path.isabs(job['harness_file']):
        job['harness_file'] = os.path.join(HERE, job['harness_file'])
    out = run(job)
    if out.get('orders') and out['status'] == 'ok':
        out = run_seeds(job)
    out.pop('orders', None)
    print(json.dumps({'property': job.get('property'), 'harness': job['harness'], **out}, indent=1))
    print('inputs:', {k: (v if t != 'str' else ''.join(map(chr, v))) for k, (t, v) in job['inputs'].items()})
    return 1 if out['status'] == 'violated' else 0


if __name__ == '__main__':
    sys.exit(main())
