"""
Loads Python modules from source with every call, comparison, subscript, f-string, set/dict display and set
iteration routed through symx.rt, so that the code runs on symbolic values.  The source is read from the
working tree on every run; nothing of the code under test is stored here.
"""
import ast
import builtins
import os
import sys
import types
import warnings

from . import rt
from .engine import ENG

P = '_sx_'
NO_CALL = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__'}
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}
BIN = {ast.Sub: '-', ast.BitOr: '|', ast.BitAnd: '&', ast.Mod: '%', ast.BitXor: '^'}
AUG = {ast.Add: '+', ast.Sub: '-', ast.BitOr: '|', ast.BitAnd: '&', ast.Mult: '*', ast.FloorDiv: '//', ast.Mod: '%',
       ast.Div: '/', ast.LShift: '<<', ast.RShift: '>>', ast.BitXor: '^', ast.Pow: '**'}


def _call(name, *args, at):
    n = ast.Call(func=ast.Name(id=P + name + '__', ctx=ast.Load()), args=list(args), keywords=[])
    return ast.copy_location(n, at)


class Tr(ast.NodeTransformer):
    def __init__(self, modname, funcs):
        self.modname = modname
        self.funcs = funcs          # list of qualified names
        self.qual = []
        self.ntmp = 0

    # ------------------------------------------------------------------ definitions
    def _func(self, node):
        node.decorator_list = [_call('deco', self.visit(d), at=d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [None if d is None else self.visit(d) for d in a.kw_defaults]
        self.qual.append(node.name)
        if node.name == '__bool__':     # Python requires a real bool from it
            for n in ast.walk(node):
                if isinstance(n, ast.Return) and n.value is not None:
                    n.value = ast.copy_location(ast.Call(ast.copy_location(ast.Name('bool', ast.Load()), n.value), [n.value], []), n.value)
        idx = len(self.funcs)
        self.funcs.append(f'{self.modname}:{".".join(self.qual)}')
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        rec = ast.parse(f'{P}cov__[{idx}] = 1').body[0]
        ast.copy_location(rec, node.body[0])
        for n in ast.walk(rec):
            ast.copy_location(n, node.body[0])
        pos = 1 if ast.get_docstring(node, clean=False) is not None else 0
        body.insert(pos, rec)
        node.body = body
        self.qual.pop()
        return node
    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        node.decorator_list = [_call('deco', self.visit(d), at=d) for d in node.decorator_list]
        self.qual.append(node.name)
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.qual.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        if isinstance(node.target, ast.Subscript):
            return self.visit_Assign(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))
        node.value = self.visit(node.value)
        return node

    # ------------------------------------------------------------------ expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and (node.func.id in NO_CALL or node.func.id.startswith(P)):
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            return node
        node = self.generic_visit(node)
        for k in node.keywords:
            if k.arg is None:
                k.value = _call('kw', k.value, at=node)
        return ast.copy_location(ast.Call(func=ast.Name(id=P + 'call__', ctx=ast.Load()), args=[node.func, *node.args],
                                          keywords=node.keywords), node)

    def visit_Attribute(self, node):
        node = self.generic_visit(node)
        if node.attr == '__class__' and isinstance(node.ctx, ast.Load):
            return _call('clsof', node.value, at=node)
        return node

    def visit_Starred(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            node.value = _call('it', node.value, at=node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(None if v.conversion == -1 else v.conversion),
                                             spec], ctx=ast.Load()))
        return _call('fjoin', ast.List(elts=parts, ctx=ast.Load()), at=node)

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) != 1:
            if all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Is, ast.IsNot)) for o in node.ops):
                return node
            # a == b == c: fold with and, using temporaries for the middle operands
            vals, terms, left = [], [], node.left
            for op, right in zip(node.ops, node.comparators):
                if right is not node.comparators[-1]:
                    self.ntmp += 1
                    nm = f'{P}t{self.ntmp}__'
                    r2 = ast.copy_location(ast.NamedExpr(target=ast.Name(id=nm, ctx=ast.Store()), value=right), node)
                    nxt = ast.copy_location(ast.Name(id=nm, ctx=ast.Load()), node)
                else:
                    r2 = nxt = right
                terms.append(self.cmp1(left, op, r2, node))
                left = nxt
            return ast.copy_location(ast.BoolOp(op=ast.And(), values=terms), node)
        return self.cmp1(node.left, node.ops[0], node.comparators[0], node)

    def cmp1(self, a, op, b, node):
        if isinstance(op, ast.Eq):
            return _call('eq', a, b, at=node)
        if isinstance(op, ast.NotEq):
            return _call('ne', a, b, at=node)
        if isinstance(op, ast.In):
            return _call('in', b_first(a, b, node)[0], b_first(a, b, node)[1], at=node)
        if isinstance(op, ast.NotIn):
            return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=_call('in', a, b, at=node)), node)
        if type(op) in CMP:
            return _call('cmp', ast.Constant(CMP[type(op)]), a, b, at=node)
        if not any(isinstance(x, ast.Constant) and not isinstance(x.value, bool) for x in (a, b)):
            return _call('is' if isinstance(op, ast.Is) else 'isnot', a, b, at=node)
        return ast.copy_location(ast.Compare(left=a, ops=[op], comparators=[b]), node)

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return _call('getitem', node.value, node.slice, at=node)
        return node

    def visit_Slice(self, node):
        node = self.generic_visit(node)
        none = ast.Constant(None)
        return ast.copy_location(ast.Call(func=ast.Name(id=P + 'slice__', ctx=ast.Load()),
                                          args=[node.lower or none, node.upper or none, node.step or none], keywords=[]), node)

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if type(node.op) in BIN:
            return _call('binop', ast.Constant(BIN[type(node.op)]), node.left, node.right, at=node)
        return node

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return _call('mkset', ast.List(elts=node.elts, ctx=ast.Load()), at=node)

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        for g in node.generators:
            g.iter.func.id = P + 'it0__'
        return _call('mkset', ast.copy_location(ast.ListComp(elt=node.elt, generators=node.generators), node), at=node)

    def visit_YieldFrom(self, node):
        node = self.generic_visit(node)
        node.value = _call('it', node.value, at=node.value)
        return node

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(_call('DS', v, at=node))
            else:
                items.append(ast.copy_location(ast.Tuple(elts=[k, v], ctx=ast.Load()), node))
        return _call('dictdisplay', ast.List(elts=items, ctx=ast.Load()), at=node)

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        elt = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        return _call('mkdict', ast.copy_location(ast.ListComp(elt=elt, generators=node.generators), node), at=node)

    def visit_comprehension(self, node):
        node = self.generic_visit(node)
        node.iter = _call('it', node.iter, at=node.iter)
        return node

    # ------------------------------------------------------------------ statements
    def visit_For(self, node):
        node = self.generic_visit(node)
        node.iter = _call('it', node.iter, at=node.iter)
        return node

    def _store(self, target, after):
        """Replace subscript stores inside an (already visited) target; append the setitem statements to after."""
        if isinstance(target, ast.Subscript):
            self.ntmp += 1
            nm = f'{P}t{self.ntmp}__'
            after.append(ast.copy_location(ast.Expr(_call('setitem', target.value, target.slice,
                                                          ast.Name(id=nm, ctx=ast.Load()), at=target)), target))
            return ast.copy_location(ast.Name(id=nm, ctx=ast.Store()), target)
        if isinstance(target, (ast.Tuple, ast.List)):
            target.elts = [self._store(t, after) for t in target.elts]
        elif isinstance(target, ast.Starred):
            target.value = self._store(target.value, after)
        return target

    def visit_Assign(self, node):
        node = self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(_call('setitem', t.value, t.slice, node.value, at=node)), node)
        after = []
        node.targets = [self._store(t, after) for t in node.targets]
        if any(isinstance(t, (ast.Tuple, ast.List)) for t in node.targets):
            node.value = _call('it', node.value, at=node)
        return [node, *after] if after else node

    def visit_AugAssign(self, node):
        node = self.generic_visit(node)
        op = AUG.get(type(node.op))
        if op is None:
            return node
        if op == '+':
            node.value = _call('it', node.value, at=node)
        if isinstance(node.target, ast.Subscript):
            t = node.target
            return ast.copy_location(ast.Expr(_call('augsub', t.value, t.slice, ast.Constant(op), node.value, at=node)), node)
        if op in '-|&%^' and isinstance(node.target, ast.Name):
            ld = ast.copy_location(ast.Name(id=node.target.id, ctx=ast.Load()), node)
            return ast.copy_location(ast.Assign(targets=[node.target],
                                                value=_call('binop_i', ast.Constant(op), ld, node.value, at=node)), node)
        return node

    def visit_Delete(self, node):
        node = self.generic_visit(node)
        out, plain = [], []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(_call('delitem', t.value, t.slice, at=node)), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[t]), node))
        return out

    # match statements: class patterns on builtin types are turned into guards on a subject copy
    def visit_Match(self, node):
        self.ntmp += 1
        nm = f'{P}t{self.ntmp}__'
        subj = ast.copy_location(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=self.visit(node.subject)), node)
        out = None
        chain = None
        for c in node.cases:
            cond = self.pattern(c.pattern, ast.Name(id=nm, ctx=ast.Load()), c.pattern)
            if cond is None:                       # unsupported pattern: keep the native statement
                node.subject = ast.copy_location(ast.Name(id=nm, ctx=ast.Load()), node)
                for cc in node.cases:
                    cc.guard = self.visit(cc.guard) if cc.guard else None
                    cc.body = self.block(cc.body)
                return [subj, node]
        for c in reversed(node.cases):
            cond = self.pattern(c.pattern, ast.Name(id=nm, ctx=ast.Load()), c.pattern)
            if c.guard:
                cond = ast.copy_location(ast.BoolOp(op=ast.And(), values=[cond, self.visit(c.guard)]), c.pattern)
            chain = [ast.copy_location(ast.If(test=cond, body=self.block(c.body), orelse=chain or []), c.pattern)]
        return [subj, *chain]

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def pattern(self, p, subj, at):
        cp = lambda n: ast.copy_location(n, at)
        if isinstance(p, ast.MatchValue):
            return _call('eq', subj, p.value, at=at)
        if isinstance(p, ast.MatchSingleton):
            return cp(ast.Compare(left=subj, ops=[ast.Is()], comparators=[ast.Constant(p.value)]))
        if isinstance(p, ast.MatchOr):
            ts = [self.pattern(q, subj, at) for q in p.patterns]
            return None if None in ts else cp(ast.BoolOp(op=ast.Or(), values=ts))
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name is None:
                    return cp(ast.Constant(True))
                return cp(ast.BoolOp(op=ast.Or(), values=[cp(ast.Tuple(elts=[cp(ast.NamedExpr(
                    target=ast.Name(id=p.name, ctx=ast.Store()), value=subj))], ctx=ast.Load())), cp(ast.Constant(True))]))
            a = self.pattern(p.pattern, subj, at)
            if a is None:
                return None
            b = self.pattern(ast.MatchAs(name=p.name), subj, at)
            return cp(ast.BoolOp(op=ast.And(), values=[a, b]))
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return cp(ast.Call(func=ast.Name(id=P + 'call__', ctx=ast.Load()),
                               args=[ast.Name(id=P + 'isinstance__', ctx=ast.Load()), subj, p.cls], keywords=[]))
        # the other patterns: a helper returns the parts of the subject as a list, or None if its kind does not fit
        self.ntmp += 1
        nm = f'{P}t{self.ntmp}__'
        const = lambda v: cp(ast.Constant(v))
        if isinstance(p, ast.MatchSequence):
            star = next((i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)), None)
            parts = [q for q in p.patterns if not (isinstance(q, ast.MatchStar) and q.name is None)]
            parts = [ast.MatchAs(name=q.name) if isinstance(q, ast.MatchStar) else q for q in parts]
            get = _call('mseq', subj, const(len(p.patterns)), const(star), const(star is not None and p.patterns[star].name is not None), at=at)
        elif isinstance(p, ast.MatchMapping):
            parts = list(p.patterns) + ([ast.MatchAs(name=p.rest)] if p.rest else [])
            get = _call('mmap', subj, cp(ast.List(elts=list(p.keys), ctx=ast.Load())), const(bool(p.rest)), at=at)
        elif isinstance(p, ast.MatchClass):
            parts = list(p.patterns) + list(p.kwd_patterns)
            get = _call('mcls', subj, p.cls, const(len(p.patterns)), cp(ast.List(elts=[const(a) for a in p.kwd_attrs], ctx=ast.Load())), at=at)
        else:
            return None
        conds = [cp(ast.Compare(left=cp(ast.NamedExpr(target=cp(ast.Name(id=nm, ctx=ast.Store())), value=get)), ops=[ast.IsNot()], comparators=[const(None)]))]
        for i, q in enumerate(parts):
            c = self.pattern(q, cp(ast.Subscript(value=cp(ast.Name(id=nm, ctx=ast.Load())), slice=const(i), ctx=ast.Load())), at)
            if c is None:
                return None
            conds.append(c)
        return conds[0] if len(conds) == 1 else cp(ast.BoolOp(op=ast.And(), values=conds))

    # keep annotations, type parameters and f-string internals native
    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [None if d is None else self.visit(d) for d in node.kw_defaults]
        return node


def b_first(a, b, node):
    return a, b


def sx_in(x, c):
    return rt.contains(c, x)


def sx_ne(a, b):
    return rt.Not(rt.eq(a, b))


def sx_slice(a, b, c):
    return slice(a, b, c)


HELPERS = {
    'call': rt.call, 'it': rt.it, 'it0': rt.it0, 'fjoin': rt.fjoin, 'eq': rt.eq, 'ne': sx_ne, 'in': sx_in, 'cmp': rt.cmpop,
    'getitem': rt.getitem, 'setitem': rt.setitem, 'delitem': rt.delitem, 'augsub': rt.augsub, 'binop': rt.binop,
    'binop_i': rt.binop_i, 'mkset': rt.mkset, 'mkdict': rt.mkdict, 'dictdisplay': rt.dictdisplay, 'DS': rt.DS,
    'slice': sx_slice, 'isinstance': isinstance, 'is': rt.is_, 'isnot': rt.isnot, 'clsof': rt.clsof, 'kw': rt.kwargs, 'deco': rt.deco,
    'mseq': rt.mseq, 'mmap': rt.mmap, 'mcls': rt.mcls,
}

ALIAS = {}            # instrumented copy of a standard library module: alias -> path without extension
ROOTS = {}            # package/module prefix -> source directory that contains it
MODELS = {}           # module name -> model module object seen by instrumented code
LOADED = {}           # module name -> instrumented module
COV = {}              # module name -> (bytearray, function names)
PATCH = {}            # standard library module -> equivalent replacements that avoid int + 0.0
CLEAN_CACHE = {}


def find_source(name):
    top = name.split('.')[0]
    if top in ALIAS:
        path = os.path.join(ALIAS[top], *name.split('.')[1:])
    else:
        base = ROOTS.get(name) or ROOTS.get(top)
        if base is None:
            return None, False
        path = os.path.join(base, *name.split('.'))
    if os.path.isfile(os.path.join(path, '__init__.py')):
        return os.path.join(path, '__init__.py'), True
    if os.path.isfile(path + '.py'):
        return path + '.py', False
    return None, False


def is_instr(name):
    return name in ROOTS or name.split('.')[0] in ROOTS or name.split('.')[0] in ALIAS


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = globals.get('__package__') or ''
        parts = pkg.split('.')
        if level > 1:
            parts = parts[:-(level - 1)]
        name = '.'.join(parts + ([name] if name else []))
    if globals is not None and name == 'json' and str(globals.get('__name__', '')).startswith('sym_json'):
        name = 'sym_json'
    if name in ('_json', '_datetime') and globals is not None and str(globals.get('__name__', '')).startswith('sym_'):
        raise ImportError(name)
    if name in MODELS:
        if fromlist or '.' not in name:
            m = MODELS[name]
            return m
        top = name.split('.')[0]
        return MODELS.get(top) or builtins.__import__(top)
    if is_instr(name):
        m = load(name)
        if fromlist:
            for f in fromlist:
                if f == '*':
                    continue
                if not hasattr(m, f) and find_source(f'{name}.{f}')[0]:
                    load(f'{name}.{f}')
            return m
        return load(name.split('.')[0])
    return builtins.__import__(name, globals, locals, fromlist, 0)


BUILTINS = dict(vars(builtins))
BUILTINS['__import__'] = sx_import


def load(name):
    m = LOADED.get(name)
    if m is not None:
        return m
    if '.' in name:
        load(name.rsplit('.', 1)[0])
        if name in LOADED:
            return LOADED[name]
    path, is_pkg = find_source(name)
    if path is None:
        raise ModuleNotFoundError(f"No module named '{name}'", name=name)
    with open(path, encoding='utf8') as f:
        src = f.read()
    for a, b in PATCH.get(name, ()):
        assert a in src, (name, a)
        src = src.replace(a, b)
    m = instrument_source(src, path, name, is_pkg)
    return m


def instrument_source(src, path, name, is_pkg=False, extra=None):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(src, path)
        funcs = []
        tree = Tr(name, funcs).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec')
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = name if is_pkg else name.rpartition('.')[0]
    if is_pkg:
        m.__path__ = [os.path.dirname(path)]
    d = m.__dict__
    d['__builtins__'] = BUILTINS
    d[rt.MARK] = True
    cov = bytearray(len(funcs))
    d[P + 'cov__'] = cov
    COV[name] = (cov, funcs)
    for k, v in HELPERS.items():
        d[P + k + '__'] = v
    if extra:
        d.update(extra)
    LOADED[name] = m
    sys.modules[name] = m
    if '.' in name:
        par, _, leaf = name.rpartition('.')
        if par in LOADED:
            setattr(LOADED[par], leaf, m)
    exec(code, d)
    return m


def functions_run():
    out = []
    for name, (cov, funcs) in COV.items():
        out += [f for c, f in zip(cov, funcs) if c]
    return sorted(out)
