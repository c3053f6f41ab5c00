"""A small path explorer for the Python part of the package: enumerates the paths of a function, with calls of methods of
the same class and functions of the same module inlined, and branch conditions valued by atoms."""
import ast, os
from .frontend import AnalysisError, REPO

PKG = os.path.join(REPO, 'dbzero', 'dbzero')
_mods = {}


def module(name):
    if name not in _mods:
        p = os.path.join(PKG, name + '.py')
        try:
            _mods[name] = ast.parse(open(p).read(), p)
        except (OSError, SyntaxError) as e:
            raise AnalysisError('python module %s: %s' % (name, e))
    return _mods[name]


def find(mod, path):
    n = module(mod)
    for part in path.split('.'):
        nx = None
        for x in ast.walk(n) if isinstance(n, ast.Module) else n.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and x.name == part:
                nx = x; break
        if nx is None:
            raise AnalysisError('python anchor %s.%s not found' % (mod, path))
        n = nx
    return n


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return dotted(e.value) + '.' + e.attr
    if isinstance(e, ast.Call):
        return dotted(e.func) + '()'
    if isinstance(e, ast.Constant):
        return repr(e.value)
    return type(e).__name__


class Path:
    __slots__ = ('ev', 'kind', 'facts', 'ret')

    def __init__(self, ev=(), kind='next', facts=None, ret=None):
        self.ev = ev; self.kind = kind; self.facts = facts or {}; self.ret = ret

    def add(self, e):
        return Path(self.ev + (e,), self.kind, self.facts, self.ret)


class PyExplorer:
    """events: (kind, name, line): call / set / raise / await / return; atoms(expr_text) -> True/False/None; throws(name) -> may raise"""
    def __init__(self, mod, cls=None, atoms=None, throws=None, depth=3, inline=True):
        self.mod = mod; self.cls = cls; self.atoms = atoms or {}; self.throws = throws or (lambda n: False); self.depth = depth
        self.inline = inline
        self.n = 0

    def run(self, fn):
        ps = self.block(fn.body, [Path()], 0)
        for p in ps:
            if p.kind == 'next':
                p.kind = 'ret'
        self.n += len(ps)
        return ps

    # ---- expressions: returns list of (path) after evaluating, with possible raises
    def expr(self, e, paths, d):
        if e is None:
            return paths
        if isinstance(e, ast.BoolOp) or isinstance(e, ast.IfExp):
            out = []
            if isinstance(e, ast.IfExp):
                for want in (True, False):
                    ps = [p for p in self.cond(e.test, paths, d, want)]
                    out += self.expr(e.body if want else e.orelse, ps, d)
                return out
            for v in e.values:
                paths = self.expr(v, paths, d)
            return paths
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return paths
        if isinstance(e, ast.Await):
            paths = self.expr(e.value, paths, d)
            return [p.add(('await', dotted(e.value), e.lineno)) if p.kind == 'next' else p for p in paths]
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                paths = self.expr(ch, paths, d)
            elif isinstance(ch, ast.keyword):
                paths = self.expr(ch.value, paths, d)
        if isinstance(e, ast.Call):
            n = dotted(e.func)
            out = []
            for p in paths:
                if p.kind != 'next':
                    out.append(p); continue
                p = p.add(('call', n, e.lineno))
                if self.throws(n):
                    out.append(Path(p.ev + (('raised', n, e.lineno),), 'exc', p.facts))
                tgt = self.target(n) if self.inline and d < self.depth else None
                if tgt is not None:
                    for q in self.block(tgt.body, [Path(p.ev, 'next', p.facts)], d + 1):
                        out.append(Path(q.ev, 'next' if q.kind in ('ret', 'next') else q.kind, q.facts))
                else:
                    out.append(p)
            return out
        return paths

    def target(self, n):
        if n.startswith('self.') and self.cls is not None and n.count('.') == 1:
            for x in self.cls.body:
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == n[5:]:
                    return x
        if '.' not in n:
            for x in module(self.mod).body:
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == n:
                    return x
        return None

    def truth(self, e, p):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.truth(e.operand, p)
            return None if v is None else not v
        if isinstance(e, ast.BoolOp):
            vs = [self.truth(v, p) for v in e.values]
            if isinstance(e.op, ast.And):
                return False if False in vs else (True if all(v is True for v in vs) else None)
            return True if True in vs else (False if all(v is False for v in vs) else None)
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            k = dotted(e.left)
            v = p.facts.get(k, self.atoms.get(k))          # True: not None
            if v is not None:
                return v if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)) else not v
        k = ast.unparse(e)
        v = self.atoms.get(k)
        if v is None:
            v = p.facts.get(dotted(e), self.atoms.get(dotted(e)))
        return v

    def cond(self, e, paths, d, want):
        out = []
        for p in paths:
            if p.kind != 'next':
                if want:
                    out.append(p)
                continue
            v = self.truth(e, p)
            if v is None or v is want:
                out += self.expr(e, [p], d)
        return out

    def block(self, body, paths, d):
        for s in body:
            live = [p for p in paths if p.kind == 'next']
            done = [p for p in paths if p.kind != 'next']
            if not live:
                return done
            paths = done + self.stmt(s, live, d)
            if len(paths) > 5000:
                raise AnalysisError('too many paths in python function')
        return paths

    def stmt(self, s, paths, d):
        if isinstance(s, (ast.Expr,)):
            return self.expr(s.value, paths, d)
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            paths = self.expr(s.value, paths, d)
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            out = []
            for p in paths:
                if p.kind == 'next':
                    f = dict(p.facts)
                    for t in tg:
                        n = dotted(t)
                        p = p.add(('set', n, s.lineno))
                        if isinstance(s.value, ast.Constant):
                            f[n] = s.value.value is not None
                        else:
                            f.pop(n, None)
                            if isinstance(s.value, ast.Call):
                                f[n] = True
                    p = Path(p.ev, p.kind, f)
                out.append(p)
            return out
        if isinstance(s, ast.Return):
            paths = self.expr(s.value, paths, d)
            return [Path(p.ev, 'ret', p.facts, s.value) if p.kind == 'next' else p for p in paths]
        if isinstance(s, ast.Raise):
            paths = self.expr(s.exc, paths, d)
            return [Path(p.ev + (('raise', dotted(s.exc) if s.exc else '', s.lineno),), 'exc', p.facts) if p.kind == 'next' else p for p in paths]
        if isinstance(s, ast.If):
            out = []
            for want in (True, False):
                ps = self.cond(s.test, paths, d, want)
                out += self.block(s.body if want else s.orelse, ps, d)
            return out
        if isinstance(s, (ast.For, ast.AsyncFor)):
            paths = self.expr(s.iter, paths, d)
            once = self.block(s.body, paths, d)
            out = [Path(p.ev, 'next', p.facts) if p.kind in ('next', 'brk', 'cont') else p for p in once]
            return self.block(s.orelse, out, d) + []
        if isinstance(s, ast.While):
            ps = self.cond(s.test, paths, d, True)
            once = self.block(s.body, ps, d)
            out = [Path(p.ev, 'next', p.facts) if p.kind in ('next', 'brk', 'cont') else p for p in once]
            return out + self.cond(s.test, [p for p in paths], d, False)
        if isinstance(s, ast.Break):
            return [Path(p.ev, 'brk', p.facts) for p in paths]
        if isinstance(s, ast.Continue):
            return [Path(p.ev, 'cont', p.facts) for p in paths]
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            ps = self.block(s.body, paths, d)
            ok = [p for p in ps if p.kind != 'exc']
            ex = [p for p in ps if p.kind == 'exc']
            out = self.block(s.orelse, [p for p in ok if p.kind == 'next'], d) + [p for p in ok if p.kind != 'next']
            rest = []
            if s.handlers:
                for p in ex:
                    wide = False
                    for h in s.handlers:
                        t = dotted(h.type) if h.type is not None else ''
                        out += self.block(h.body, [Path(p.ev + (('catch', t, h.lineno),), 'next', p.facts)], d)
                        if t in ('', 'Exception', 'BaseException'):
                            wide = True; break
                    if not wide:
                        rest.append(p)
            else:
                rest = ex
            out += rest
            if s.finalbody:
                fin = []
                for p in out:
                    for q in self.block(s.finalbody, [Path(p.ev, 'next', p.facts)], d):
                        fin.append(Path(q.ev, p.kind if q.kind == 'next' else q.kind, q.facts, p.ret if q.kind == 'next' else q.ret))
                out = fin
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                paths = self.expr(it.context_expr, paths, d)
                paths = [p.add(('enter', dotted(it.context_expr), s.lineno)) if p.kind == 'next' else p for p in paths]
            out = self.block(s.body, paths, d)
            return [p.add(('leave', dotted(s.items[0].context_expr), s.lineno)) for p in out]
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return paths
        if isinstance(s, (ast.Delete,)):
            return [p.add(('del', dotted(s.targets[0]), s.lineno)) for p in paths]
        if isinstance(s, ast.Assert):
            return self.expr(s.test, paths, d)
        return paths


def names(p, kind='call'):
    return [e[1] for e in p.ev if e[0] == kind]
