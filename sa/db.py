"""The resolved program: symbols, function bodies (decoded lazily), records, enums, globals and the call graph."""
import json, os, pickle, sys, re, functools
from . import frontend
from .frontend import AnalysisError, REPO

sys.setrecursionlimit(20000)


class Missing:
    """a vanished anchor: any use of it is an analysis error"""
    def __init__(self, why):
        self.__dict__['why'] = why

    def __getattr__(self, a):
        raise AnalysisError(self.why)


class Sym:
    __slots__ = ('usr', 'q', 'cls', 'virt', 'static', 'const', 'ctor', 'cpmv', 'dtor', 'lam', 'noret', 'repo', 'ret',
                 'nothrow', 'pt', 'ta', 'conv', 'name', 'clsq')

    def __init__(self, d):
        self.usr = d['u']; self.q = d['q']; self.cls = d.get('cls')
        self.virt = bool(d.get('virt')); self.static = bool(d.get('static')); self.const = bool(d.get('const'))
        self.ctor = bool(d.get('ctor')); self.cpmv = bool(d.get('cpmv')); self.dtor = bool(d.get('dtor'))
        self.lam = bool(d.get('lam')); self.noret = bool(d.get('noret')); self.repo = bool(d.get('repo'))
        self.nothrow = bool(d.get('nothrow')); self.ret = d.get('ret', ''); self.pt = d.get('pt', [])
        self.ta = d.get('ta', ''); self.conv = bool(d.get('conv'))
        self.clsq, _, self.name = self.q.rpartition('::')

    def __repr__(self):
        return '<%s>' % self.q


class Block:
    __slots__ = ('id', 'ev', 'succ', 'cond', 't', 'top', 'case', 'default', 'catch', 'nr', 'tl')

    def __init__(self, d, conv):
        self.id = d['b']
        self.ev = [conv(e) for e in d['ev']]
        self.cond = conv(d['cond']) if 'cond' in d else None
        self.t = d.get('t'); self.top = d.get('top'); self.tl = d.get('tl', 0)
        self.case = conv(d['case']) if 'case' in d else None
        self.default = 'default' in d
        self.catch = d.get('catch')
        self.nr = 'nr' in d
        # successors; statically unreachable ones (wrapped in a list by the front end) are dropped
        self.succ = [x if not isinstance(x, list) else None for x in d['s']]


class Fn:
    def __init__(self, prog, sym, d, conv):
        self.prog = prog; self.sym = sym; self.q = sym.q; self.usr = sym.usr
        self.file = d['file']; self.line = d['line']; self.end = d.get('end', d['line'])
        self.params = d['params']; self.inst = d.get('inst', 0)
        self.parent = d.get('parent')
        self.nocfg = 'nocfg' in d
        self.entry = d.get('entry'); self.exit = d.get('exit')
        self.blocks = {}
        for b in d.get('blocks', ()):
            bl = Block(b, conv); self.blocks[bl.id] = bl
        self.locals = d.get('locals', [])
        self._ana = None

    def __repr__(self):
        return '<Fn %s>' % self.q

    @property
    def where(self):
        return '%s:%d' % (rel(self.file), self.line)

    def events(self):
        for b in self.blocks.values():
            for e in b.ev:
                yield e

    def local_info(self):
        """local index -> (init tree or None, number of writes other than its declaration, address taken)"""
        if self._ana is None:
            init, writes, decls = {}, {}, {}
            for b in self.blocks.values():
                for e in b.ev:
                    if e[0] == 'decl':
                        init[e[2]] = e[4]; decls[e[2]] = decls.get(e[2], 0) + 1
                    elif e[0] == 'asg':
                        t = e[2]
                        if t and t[0] == 'l':
                            writes[t[1]] = writes.get(t[1], 0) + 1
                        elif t and t[0] == 'bind' and t[3] is not None:
                            writes[t[3]] = writes.get(t[3], 0) + 1
                    elif e[0] == 'call':
                        # overloaded assignment operators on a local and by-reference argument passing
                        c = e[2]
                        if c and c[0] == 'c' and c[1].name.startswith('operator') and c[1].name not in (
                                'operator*', 'operator->', 'operator bool', 'operator()', 'operator[]', 'operator==',
                                'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=', 'operator!'):
                            if c[2] and c[2][0] == 'l':
                                writes[c[2][1]] = writes.get(c[2][1], 0) + 1
                        if c and c[0] in ('c', 'n') and c[1].name != 'operator<<':
                            args = c[3]
                            for a, pt in zip(args, c[1].pt):
                                a0 = a
                                if a0 and a0[0] == 'u' and a0[1] == '&':
                                    a0 = a0[2]
                                    if a0 and a0[0] == 'l' and not pt.startswith('const '):
                                        writes[a0[1]] = writes.get(a0[1], 0) + 1
                                elif a0 and a0[0] == 'l' and pt.endswith('&') and not pt.endswith('&&') \
                                        and not pt.startswith('const ') and ' const ' not in pt:
                                    writes[a0[1]] = writes.get(a0[1], 0) + 1
            self._ana = {i: (t, writes.get(i, 0), decls[i]) for i, t in init.items()}
        return self._ana


def rel(p):
    return p[len(REPO) + 1:] if p.startswith(REPO + '/') else p


class Program:
    def __init__(self, d=None):
        self.dir = d or frontend.ensure()
        info = json.load(open(os.path.join(self.dir, 'UNITS')))
        self.units = info['units']; self.reparsed = info['reparsed']
        self.syms = {}          # usr -> Sym
        self.fnloc = {}         # usr -> (output file, offset, length, group symbol map)
        self.meta = {}          # usr -> (callee usrs, field names, lambda usrs, file, line, end, parent usr, inst, nblocks)
        self.by_q = {}          # qualified name -> [usr] having a body
        self.recs = {}          # record type -> record
        self.recs_q = {}
        self.enums = {}
        self.gvars = {}
        self.deps = set()
        self._fns = {}
        self._files = {}
        for o in info['outputs']:
            p = os.path.join(self.dir, o)
            with open(p + '.idx', 'rb') as f:
                syms, recs, enums, gv, fns, deps = pickle.load(f)
            m = {}
            for i, sd in syms.items():
                s = self.syms.get(sd['u'])
                if s is None:
                    s = self.syms[sd['u']] = Sym(sd)
                else:
                    if sd.get('nothrow'): s.nothrow = True
                m[i] = s
            for r in recs:
                if r['t'] not in self.recs:
                    r['methods'] = [(m[x[0]], x[1], x[2], x[3], [m[y] for y in x[4]]) for x in r['methods']]
                    self.recs[r['t']] = r
                    self.recs_q.setdefault(r['q'], []).append(r)
            for e in enums:
                self.enums.setdefault(e['q'], e)
            for g in gv:
                if g['q'] not in self.gvars or (self.gvars[g['q']][0].get('init') is None and g.get('init') is not None):
                    self.gvars[g['q']] = (g, m)
            for (i, off, n, cal, flds, lams, file, line, end, par, inst, nb) in fns:
                s = m[i]
                if s.usr in self.fnloc:
                    continue
                self.fnloc[s.usr] = (p, off, n, m)
                self.meta[s.usr] = ([m[c].usr for c in cal], flds, [m[c].usr for c in lams], file, line, end,
                                    m[par].usr if par is not None else None, inst, nb)
                self.by_q.setdefault(s.q, []).append(s.usr)
            self.deps.update(deps)
        self._over = None
        self._callers = None

    # ---- functions
    def fn(self, usr):
        f = self._fns.get(usr)
        if f is None:
            loc = self.fnloc.get(usr)
            if loc is None:
                return None
            fh = self._files.get(loc[0])
            if fh is None:
                fh = self._files[loc[0]] = open(loc[0], 'rb')
            fh.seek(loc[1])
            d = json.loads(fh.read(loc[2]))
            m = loc[3]
            if d.get('parent') is not None:
                d['parent'] = m[d['parent']].usr
            f = self._fns[usr] = Fn(self, self.syms[usr], d, lambda t: self._conv(t, m))
        return f

    def raw(self, usr):
        """the extracted record of one function, unparsed"""
        loc = self.fnloc[usr]
        fh = self._files.get(loc[0])
        if fh is None:
            fh = self._files[loc[0]] = open(loc[0], 'rb')
        fh.seek(loc[1])
        return fh.read(loc[2])

    def has_catch(self, usr):
        return b'"catch":' in self.raw(usr)

    def _conv(self, t, m):
        if isinstance(t, list):
            if t:
                h = t[0]
                if h in ('c', 'n', 'f', 'bm', 'lam') and len(t) > 1 and isinstance(t[1], int):
                    return (h, m[t[1]]) + tuple(self._conv(x, m) for x in t[2:])
                if h == 'dtor':
                    return (h, t[1], t[2], t[3], m[t[4]] if t[4] is not None else None)
            return tuple(self._conv(x, m) for x in t)
        return t

    def gvar_init(self, q):
        g = self.gvars.get(q)
        if g is None:
            return None
        return self._conv(g[0].get('init'), g[1])

    def fns_q(self, q):
        """all bodies whose qualified name (without template arguments) is q"""
        return [self.fn(u) for u in self.by_q.get(q, ())]

    def need(self, q, nparams=None, pt=None, cls=None, first=True):
        """the function the rule is anchored on; its absence is an analysis error, never a verdict"""
        c = self.fns_q(q)
        if nparams is not None:
            c = [f for f in c if len(f.sym.pt) == nparams]
        if pt is not None:
            c = [f for f in c if all(re.search(x, y) for x, y in zip(pt, f.sym.pt)) and len(f.sym.pt) >= len(pt)]
        if cls is not None:
            c = [f for f in c if f.sym.cls and re.search(cls, f.sym.cls)]
        if not c:
            if not first:
                raise AnalysisError('anchor function %s not found in the current tree' % q)
            return Missing('anchor function %s not found in the current tree' % q)
        return c[0] if first else c

    # ---- class hierarchy
    def overriders(self, sym):
        """all methods that (transitively) override sym, plus itself"""
        if self._over is None:
            o = {}
            for r in self.recs.values():
                for (s, v, acc, dele, ov) in r['methods']:
                    for b in ov:
                        o.setdefault(b.usr, []).append(s)
            self._over = o
        out, todo, seen = [], [sym], set()
        while todo:
            s = todo.pop()
            if s.usr in seen:
                continue
            seen.add(s.usr); out.append(s)
            todo.extend(self._over.get(s.usr, ()))
        return out

    def derived(self, q):
        """records (by qualified name) transitively derived from q, including q"""
        if not hasattr(self, '_der'):
            d = {}
            for r in self.recs.values():
                for b in r['bases']:
                    br = self.recs.get(b)
                    bq = br['q'] if br else re.sub(r'<.*', '', b)
                    d.setdefault(bq, set()).add(r['q'])
            self._der = d
        out, todo = set(), [q]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x); todo.extend(self._der.get(x, ()))
        return out

    def sym_q(self, q):
        """symbols by qualified name"""
        if not hasattr(self, '_symq'):
            self._symq = {}
            for s in self.syms.values():
                self._symq.setdefault(s.q, []).append(s)
        return self._symq.get(q, ())

    def inverted(self):
        """callee usr -> functions that call it; field -> functions that mention it"""
        if not hasattr(self, '_inv'):
            c, f = {}, {}
            for u, mt in self.meta.items():
                for x in mt[0]:
                    c.setdefault(x, []).append(u)
                for x in mt[1]:
                    f.setdefault(x, []).append(u)
            self._inv = (c, f)
        return self._inv

    # ---- call graph
    def callees(self, usr):
        return self.meta[usr][0] if usr in self.meta else ()

    def callers(self):
        """callee usr -> set of caller usrs (virtual calls attributed to every overrider)"""
        if self._callers is None:
            c = {}
            for u, mt in self.meta.items():
                for x in mt[0]:
                    s = self.syms[x]
                    if s.virt:
                        for o in self.overriders(s):
                            c.setdefault(o.usr, set()).add(u)
                    else:
                        c.setdefault(x, set()).add(u)
                for x in mt[2]:
                    c.setdefault(x, set()).add(u)
            self._callers = c
        return self._callers


_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program()
    return _prog
