"""The language interface: every function the interpreter can call, found from the slot and method tables."""
from .q import *

TABLES = ('PyMethodDef', 'PyTypeObject', '_typeobject', 'PyGetSetDef', 'PySequenceMethods', 'PyMappingMethods', 'PyNumberMethods',
          'PyAsyncMethods', 'PyType_Slot', 'PyModuleDef')


class Tables:
    def __init__(self, p):
        self.p = p
        self.ents = {}              # usr -> (sym, [(variable, type, path of slot names)])
        for q, (g, m) in p.gvars.items():
            T = g['t']
            if any(x in T for x in TABLES):
                o = []
                self._fs(p.gvar_init(q), [], o)
                for path, s in o:
                    self.ents.setdefault(s.usr, (s, []))[1].append((q, T, path))

    def _fs(self, t, path, out):
        if isinstance(t, tuple) and t:
            if t[0] == 'f':
                out.append((path, t[1])); return
            if t[0] == 'init':
                names = t[3] if len(t) > 3 else None
                for i, x in enumerate(t[1]):
                    self._fs(x, path + [names[i] if names and i < len(names) else i], out)
                return
            for x in t:
                if isinstance(x, tuple):
                    self._fs(x, path, out)

    def entries(self):
        """(sym, slot names) of every entry defined in the repository"""
        for u, (s, uses) in sorted(self.ents.items(), key=lambda x: (x[1][0].q, x[0])):
            if s.repo and u in self.p.fnloc:
                yield s, sorted({str(pp[-1]) for _, _, pp in uses if pp})

    def methods(self):
        """(variable, method name, sym, flags) of every PyMethodDef element"""
        for q, (g, m) in sorted(self.p.gvars.items()):
            if 'PyMethodDef' not in g['t']:
                continue
            for el in self._defs(self.p.gvar_init(q)):
                d = dict(zip(el[3], el[1]))
                o = []
                self._fs(d.get('ml_meth'), [], o)
                if o:
                    yield q, d.get('ml_name'), o[0][1], d.get('ml_flags')

    def _defs(self, t):
        if isinstance(t, tuple) and t:
            if t[0] == 'init' and len(t) > 3 and t[3] and 'ml_meth' in t[3]:
                yield t; return
            for x in (t[1] if t[0] == 'init' else t):
                if isinstance(x, tuple):
                    yield from self._defs(x)


def tables(p):
    if not hasattr(p, '_pytables'):
        p._pytables = Tables(p)
    return p._pytables


class Num:
    """a numeric parameter has the given value"""
    def __init__(self, name, m):
        self.name = name; self.m = m

    def num(self, t, v):
        if self.m(t):
            return v
        if t and t[0] == 'i':
            return int(t[1] or 0)
        if t and t[0] == 'un' and t[1] == '-' and len(t) == 3:
            a = self.num(t[2], v)
            return None if a is None else -a
        if t and t[0] == 'op' and t[1] in '+-' and len(t) == 4:
            a, b = self.num(t[2], v), self.num(t[3], v)
            if a is None or b is None:
                return None
            return a + b if t[1] == '+' else a - b
        return None

    def eval(self, t, v):
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in ('==', '!=', '<', '>', '<=', '>='):
            a, b = self.num(t[2], v), self.num(t[3], v)
            if a is None or b is None:
                return None
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[t[1]]
        if self.m(t):
            return v != 0
        if isinstance(t, tuple) and t and t[0] == 'un' and t[1] == '!' and self.m(t[2]):
            return v == 0
        return None

    def switch(self, t, v):
        n = self.num(t, v)
        return n


def run_safe_targets(f):
    """line -> (target symbol, argument terms) of the runSafe calls of a function (raw events)"""
    out = []
    for b in f.blocks.values():
        for e in b.ev:
            if e[0] == 'call' and e[2][0] == 'c' and e[2][1].name == 'runSafe' and e[2][3]:
                t = e[2][3][0]
                while t and t[0] == 'u':
                    t = t[2]
                out.append((e[1], t[1] if t and t[0] == 'f' else None, e[2][1]))
    return out
