"""
Path exploration engine: depth-first re-execution of a harness, z3 decides feasibility and assertions.

One Engine object exists per process (module global ENG).  A path is a list of events; re-running the
harness with a prefix of events reproduces the path deterministically.  Event kinds:
  'd'  boolean decision on a solver term        (value True/False)
  'c'  choice among n alternatives              (value 0..n-1)
  'a'  assumption                               (value True)
  'k'  assertion already discharged             (value True)
"""
import time
import z3

# Universe of code points that a symbolic character may take (a bound of every check, see DESIGN.md)
UNIVERSE = sorted(set(range(0x250)) | {0x3b1, 0x660, 0x661, 0x669, 0x2028, 0x2029, 0x3000, 0xd7ff, 0xff11, 0xfffd, 0x1f600})
UIDX = {c: i for i, c in enumerate(UNIVERSE)}
UALL = (1 << len(UNIVERSE)) - 1


class Control(BaseException):
    """Engine control flow; never caught by code under test (which catches Exception at most)."""


class PathAbort(Control):
    """Path abandoned: assumption infeasible."""


class Unsupported(Control):
    """An operation the engine has no model for; the path is abandoned and counted as not covered."""


class StepLimit(Control):
    pass


class EngineBug(Control):
    pass


class Deadline(Control):
    pass


class Event:
    __slots__ = ('kind', 'val', 'cons', 'alts', 'tag', 'dbg')

    def __init__(self, kind, val, cons, alts, tag=None):
        self.kind, self.val, self.cons, self.alts, self.tag = kind, val, cons, alts, tag


def bits_of(pred):
    b = 0
    for i, c in enumerate(UNIVERSE):
        if pred(c):
            b |= 1 << i
    return b


def bits_of_set(cps):
    b = 0
    for c in cps:
        i = UIDX.get(c)
        if i is not None:
            b |= 1 << i
    return b


_ranges_cache = {}


def bits_ranges(bits):
    """Intervals [lo, hi] of code points covering exactly the universe members in bits."""
    r = _ranges_cache.get(bits)
    if r is None:
        r = []
        start = prev = None
        for i, c in enumerate(UNIVERSE):
            if bits >> i & 1:
                if start is None:
                    start = c
                    prev = c
                elif UNIVERSE[i - 1] == prev:     # adjacent in the universe (gap in code points is harmless)
                    prev = c
                else:
                    r.append((start, prev))
                    start = prev = c
            elif start is not None:
                r.append((start, prev))
                start = None
        if start is not None:
            r.append((start, prev))
        _ranges_cache[bits] = r
    return r


_member_cache = {}


def z3_member(c, bits):
    """z3 term: code point term c lies in the set (c is known to lie in the universe)."""
    key = (c.get_id(), bits)
    r = _member_cache.get(key)
    if r is None:
        nb = bin(bits).count('1')
        neg = nb > len(UNIVERSE) // 2
        terms = []
        for lo, hi in bits_ranges(UALL & ~bits if neg else bits):
            terms.append(c == lo if lo == hi else z3.And(c >= lo, c <= hi))
        t = z3.BoolVal(False) if not terms else terms[0] if len(terms) == 1 else z3.Or(*terms)
        r = (z3.Not(t) if neg else t, c)     # keep c alive so its id stays valid
        if len(_member_cache) > 200000:
            _member_cache.clear()
        _member_cache[key] = r
    return r[0]


def z3_domain(c, bits):
    """Exact membership: used for the domain of a fresh character, which nothing else bounds."""
    cps = [UNIVERSE[i] for i in range(len(UNIVERSE)) if bits >> i & 1]
    runs = []
    for x in cps:
        if runs and runs[-1][1] == x - 1:
            runs[-1][1] = x
        else:
            runs.append([x, x])
    terms = [c == lo if lo == hi else z3.And(c >= lo, c <= hi) for lo, hi in runs]
    return z3.BoolVal(False) if not terms else terms[0] if len(terms) == 1 else z3.Or(*terms)


_vars_cache = {}


def vars_of(e):
    k = e.get_id()
    r = _vars_cache.get(k)
    if r is None:
        out, seen, todo = set(), set(), [e]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(i)
            else:
                todo.extend(x.children())
        r = (out, e)
        if len(_vars_cache) > 200000:
            _vars_cache.clear()
        _vars_cache[k] = r
    return r[0]


class Engine:
    trace_unsupported = 0

    def __init__(self, query_ms=10000):
        self.query_ms = self.cur_ms = query_ms
        self.solver = z3.Solver()
        self.solver.set('timeout', query_ms)
        self.groups = []          # number of constraints after each pushed group
        self.on_solver = []       # constraints currently asserted
        self.vars = {}            # name -> z3 const, kept for the whole process (stable ids)
        self.stats = dict(paths=0, aborted=0, decisions=0, queries=0, solver_s=0.0, unknown=0, checks=0,
                          checks_solver=0, concretised=0, unsupported=0, steplimit=0, exceptions=0, choices=0)
        self.functions = set()
        self.reached = {}
        self.unsup_msgs = {}
        self.samples = []
        self.max_steps = 3_000_000
        self.deadline = None
        self.violation_cb = None
        self.reset([])

    # ---------------------------------------------------------------- path state
    def reset(self, events):
        self.events = events
        self.idx = 0
        self.cons = []            # constraints of this path, in order
        self.memo = {}
        self.dom = {}             # var id -> bitset over UNIVERSE
        self.rel = set()          # var ids that occur in non-unary constraints
        self.model = None         # model of the current constraints, or None
        self.inputs = []          # (name, kind, payload) registered inputs
        self.names = {}
        self.steps = 0
        self.path_concretised = 0
        self.aborted_with = None
        self.keep = []            # keep terms alive while memo refers to their ids
        self.order_nondet = False
        self.pathmap = {}         # per-path memo of the value models

    def abort(self, exc):
        self.aborted_with = exc
        if self.trace_unsupported and isinstance(exc, Unsupported) and str(exc) not in self.unsup_msgs:
            import traceback
            print('UNSUPPORTED', exc)
            traceback.print_stack(limit=self.trace_unsupported)
        raise exc

    # ---------------------------------------------------------------- solver
    def sync(self):
        cons = self.cons
        n = 0
        m = min(len(cons), len(self.on_solver))
        on = self.on_solver
        while n < m and on[n] is cons[n]:
            n += 1
        if n < len(on):
            while self.groups and self.groups[-1] > n:
                self.groups.pop()
                self.solver.pop()
            k = self.groups[-1] if self.groups else 0
            del on[k:]
        if len(on) < len(cons):
            self.solver.push()
            for c in cons[len(on):]:
                self.solver.add(c)
                on.append(c)
            self.groups.append(len(on))

    def query(self, extra=None):
        self.sync()
        t = time.time()
        if self.deadline:
            if t > self.deadline:
                self.abort(Deadline())
            ms = min(self.query_ms, int((self.deadline - t) * 1000) + 500)
            if ms != self.cur_ms and (ms < self.query_ms or self.cur_ms < self.query_ms):
                self.solver.set('timeout', ms)
                self.cur_ms = ms
        r = self.solver.check(*([extra] if extra is not None else []))
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def add_cons(self, c):
        self.cons.append(c)

    def get_model(self):
        if self.model is None:
            r = self.query()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                if not self.stats['unknown']:
                    raise EngineBug('path constraint unsatisfiable')
                self.abort(PathAbort('infeasible after an unknown verdict'))
            else:
                self.abort(Unsupported('solver unknown when a model is needed'))
        return self.model

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            self.abort(StepLimit())
        if self.deadline and not self.steps & 0xfff and time.time() > self.deadline:
            self.abort(Deadline())

    # ---------------------------------------------------------------- decisions
    def next_event(self, kind):
        if self.idx < len(self.events):
            ev = self.events[self.idx]
            if ev.kind != kind:
                raise EngineBug(f'nondeterministic re-execution: expected {ev.kind}, got {kind}')
            self.idx += 1
            return ev
        return None

    def push_event(self, ev):
        self.events.append(ev)
        self.idx += 1

    def mark_rel(self, e):
        self.rel |= vars_of(e)

    def decide(self, e):
        """Truth value of solver term e on this path; forks when both are feasible."""
        if e is True or e is False:
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        if k in self.memo:
            return self.memo[k]
        self.keep.append(e)
        ev = self.next_event('d')
        if ev is not None:
            if ev.cons is None:
                ev.cons = e if ev.val else z3.Not(e)
                self.model = None
            elif ev.cons.get_id() != (e if ev.val else z3.Not(e)).get_id():
                raise EngineBug(f'another decision when the path is executed again: {ev.cons} {e}')
            self.add_cons(ev.cons)
            self.mark_rel(e)
            self.memo[k] = ev.val
            if self.idx == len(self.events):
                self.model = None
            return ev.val
        self.stats['decisions'] += 1
        ne = z3.Not(e)
        first = None
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if z3.is_true(v):
                first = True
            elif z3.is_false(v):
                first = False
        if first is None:
            r = self.query(e)
            if r == z3.sat:
                self.model = self.solver.model()
                first = True
            elif r == z3.unsat:
                first = False       # the path is satisfiable, so the other side is
                self.finish_decide(k, e, ne, False, [])
                return False
            else:
                first = True
                self.model = None
        r = self.query(ne if first else e)
        other = r != z3.unsat
        # explore the True side first for stable order
        if other:
            val, alts = (True, [False])
            if not first:
                self.model = self.solver.model() if r == z3.sat else None
        else:
            val, alts = first, []
        self.finish_decide(k, e, ne, val, alts)
        return val

    def finish_decide(self, k, e, ne, val, alts):
        c = e if val else ne
        self.add_cons(c)
        self.mark_rel(e)
        self.memo[k] = val
        self.push_event(Event('d', val, c, alts))

    def decide_in(self, c, bits):
        """Is code point c (int or z3 term) in the set?  Fast path for plain variables."""
        if isinstance(c, int):
            i = UIDX.get(c)
            if i is None:
                raise EngineBug('decide_in on a concrete code point outside the universe')
            return bool(bits >> i & 1)
        vid = c.get_id()
        d = self.dom.get(vid)
        if d is None:
            return self.decide(z3_member(c, bits))
        inter = d & bits
        if inter == 0:
            return False
        if inter == d:
            return True
        ev = self.next_event('d')
        if ev is not None:
            val = ev.val
            if self.idx == len(self.events):
                self.model = None
        else:
            alts = []
            val = True
            if vid in self.rel:
                e = z3_member(c, inter)
                r1 = self.query(e)
                m1 = self.solver.model() if r1 == z3.sat else None
                r0 = self.query(z3.Not(e))
                if r1 == z3.unsat:
                    val = False
                    m1 = self.solver.model() if r0 == z3.sat else None
                elif r0 != z3.unsat:
                    alts = [False]
                self.model = m1
            else:
                alts = [False]
                if self.model is not None:
                    mv = self.model.eval(c, model_completion=True)
                    if not (z3.is_int_value(mv) and inter >> UIDX.get(mv.as_long(), 0) & 1 and mv.as_long() in UIDX):
                        self.model = None
            self.stats['decisions'] += 1
            ev = Event('d', val, None, alts)
            self.push_event(ev)
        nd = inter if val else d & ~bits
        self.dom[vid] = nd
        if ev.cons is None:
            ev.cons = z3_member(c, nd)
        self.add_cons(ev.cons)
        return val

    def derived(self, c, bits):
        """A character term computed from other variables: a superset of its possible values is known."""
        i = c.get_id()
        if i not in self.dom and not z3.is_int_value(c):
            self.dom[i] = bits
            self.rel.add(i)

    def choose(self, n):
        if n <= 0:
            self.abort(PathAbort('empty choice'))
        if n == 1:
            return 0
        ev = self.next_event('c')
        if ev is None:
            self.stats['choices'] += 1
            ev = Event('c', 0, None, list(range(n - 1, 0, -1)))
            self.push_event(ev)
        return ev.val

    def value(self, e, conv):
        """A feasible value of e on this path; the same one when the path is executed again."""
        ev = self.next_event('v')
        if ev is None:
            ev = Event('v', conv(self.get_model().eval(e, model_completion=True)), None, [])
            self.push_event(ev)
        return ev.val

    def assume(self, e):
        if e is True:
            return
        if e is False:
            self.abort(PathAbort('assume'))
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            self.abort(PathAbort('assume'))
        self.keep.append(e)
        ev = self.next_event('a')
        if ev is None:
            if self.model is not None and z3.is_true(self.model.eval(e, model_completion=True)):
                pass
            else:
                r = self.query(e)
                if r == z3.unsat:
                    self.abort(PathAbort('assume'))
                self.model = self.solver.model() if r == z3.sat else None
            ev = Event('a', True, e, [])
            self.push_event(ev)
        elif ev.cons is None:
            ev.cons = e
            self.model = None
        if self.idx == len(self.events):
            pass
        self.add_cons(ev.cons)
        self.mark_rel(e)
        self.memo[e.get_id()] = True

    def check(self, e, label, detail=None):
        """Assertion: e must hold for every value on this path."""
        self.stats['checks'] += 1
        if e is True:
            return
        if e is False:
            self.violation(label, detail)
            self.abort(PathAbort('after violation'))
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        ev = self.next_event('k')
        if ev is not None:
            if ev.val is False:      # violated for some values: continue with the others
                if ev.cons is None:
                    ev.cons = e
                self.add_cons(ev.cons)
                self.mark_rel(e)
            return
        self.stats['checks_solver'] += 1
        r = self.query(z3.Not(e))
        if r == z3.unsat:
            self.push_event(Event('k', True, None, []))
            return
        if r == z3.unknown:
            self.stats['concretised'] += 1
            self.unsup_msgs['solver unknown on assertion ' + label] = self.unsup_msgs.get('solver unknown on assertion ' + label, 0) + 1
            self.push_event(Event('k', True, None, []))
            return
        m = self.solver.model()
        self.violation(label, detail, m)
        if self.query(e) == z3.unsat:
            self.abort(PathAbort('after violation'))
        self.model = None
        self.add_cons(e)
        self.mark_rel(e)
        self.push_event(Event('k', False, e, []))

    def violation(self, label, detail=None, model=None):
        m = model if model is not None else self.get_model()
        inp = self.extract_inputs(m)
        if self.violation_cb:
            self.violation_cb(label, detail, inp)

    # ---------------------------------------------------------------- inputs
    def uname(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f'{name}#{n}'

    def var(self, name, sort='int'):
        v = self.vars.get((name, sort))
        if v is None:
            v = z3.Int(name) if sort == 'int' else z3.FP(name, z3.Float64()) if sort == 'fp' else z3.Bool(name)
            self.vars[(name, sort)] = v
        return v

    def new_char(self, name, bits=UALL):
        c = self.var(name)
        vid = c.get_id()
        if vid in self.dom:
            raise EngineBug('duplicate char variable ' + name)
        self.dom[vid] = bits
        self.add_cons_cached(('dom', vid, bits), lambda: z3_domain(c, bits))
        return c

    def new_int(self, name, lo=None, hi=None):
        v = self.var(name)
        self.rel.add(v.get_id())
        if lo is not None:
            self.add_cons_cached(('lo', v.get_id(), lo), lambda: v >= lo)
        if hi is not None:
            self.add_cons_cached(('hi', v.get_id(), hi), lambda: v <= hi)
        return v

    def define(self, c):
        """Add a definitional constraint over fresh variables (always satisfiable)."""
        self.add_cons(c)
        self.mark_rel(c)
        self.model = None

    _cc = {}

    def add_cons_cached(self, key, mk):
        c = self._cc.get(key)
        if c is None:
            c = self._cc[key] = mk()
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None
        self.add_cons(c)

    def register(self, name, kind, payload):
        self.inputs.append((name, kind, payload))

    def mval(self, m, t):
        if isinstance(t, int):
            return t
        v = m.eval(t, model_completion=True)
        return v.as_long()

    def extract_inputs(self, m):
        out = {}
        for name, kind, p in self.inputs:
            if kind == 'int':
                out[name] = ['int', str(self.mval(m, p))]
            elif kind == 'str':
                out[name] = ['str', [self.mval(m, c) for c in p]]
            elif kind == 'bytes':
                out[name] = ['bytes', [self.mval(m, c) for c in p]]
            elif kind == 'float':
                out[name] = ['float', fp_to_hex(m.eval(p, model_completion=True))]
            elif kind == 'pick':
                out[name] = ['pick', p]
        return out

    # ---------------------------------------------------------------- exploration
    def explore(self, fn, saved, on_path=None, donate=None, until=None):
        """
        Run all paths of the frontier saved = [(kind, value, alternatives)].  Returns None when it is exhausted,
        otherwise the remaining frontier (time slice over or stop requested) or 'cut' when a path was cut by the deadline.
        """
        events = [Event(k, v, None, list(a)) for k, v, a in saved]
        while True:
            self.reset(events)
            status = 'ok'
            exc = None
            try:
                fn()
            except PathAbort:
                status = 'aborted'
            except Unsupported as e:
                status = 'unsupported'
                self.unsup_msgs[str(e)] = self.unsup_msgs.get(str(e), 0) + 1
            except StepLimit:
                status = 'steplimit'
            except Deadline:
                return 'cut'
            if self.aborted_with is not None and status == 'ok':
                w = self.aborted_with
                if isinstance(w, Deadline):
                    return 'cut'
                status = 'unsupported' if isinstance(w, (Unsupported, EngineBug)) else 'aborted'
            if self.idx < len(self.events) and status not in ('unsupported', 'steplimit'):
                raise EngineBug('path ended before its recorded prefix')
            if status == 'ok':
                self.stats['paths'] += 1
                if self.path_concretised:
                    self.stats['concretised'] += 1
            else:
                self.stats[status] += 1
            if on_path:
                on_path(status)
            events = self.events
            del events[self.idx:]
            while events and not events[-1].alts:
                events.pop()
            if not events:
                return None
            ev = events[-1]
            ev.val = ev.alts.pop()
            ev.cons = None
            if until is not None and until():
                return [(e.kind, e.val, e.alts) for e in events]
            if donate is not None:
                donate(events)


def fp_to_hex(v):
    import struct
    if z3.is_fp_value(v):
        if v.isNaN():
            return 'nan'
        if v.isInf():
            return '-inf' if v.isNegative() else 'inf'
        bv = z3.simplify(z3.fpToIEEEBV(v))
        return struct.unpack('>d', bv.as_long().to_bytes(8, 'big'))[0].hex()
    return (0.0).hex()


ENG = Engine()
