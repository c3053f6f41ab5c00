"""Ownership of Python references: a path-sensitive count of the references a function owns, per value.

The state maps a value (an expression tree without casts: a local, a parameter, a call) to the number of references the function
owns through it. Calls that return a new reference set it to one; releasing, returning, stealing and handing over to an owning
shared_py_object consume one. Nothing else does, so a value still owned at the exit was leaked, and consuming a value that is not
owned releases somebody else's reference."""
import re

NEW = re.compile(r'^(Py(Object_(Call\w*|GetAttr\w*|GenericGetAttr|GetItem|Str|Repr|ASCII|Bytes|GetIter|Dir|Type|RichCompare|Init\w*|Vectorcall\w*)|Iter_Next|'
                 r'Dict_(New|Copy|Items|Keys|Values)|List_(New|GetSlice|AsTuple)|Tuple_(New|Pack|GetSlice)|Set_New|FrozenSet_New|'
                 r'(Long|Float|Bool|Bytes|Unicode|ByteArray)_From\w+|Unicode_(Decode\w*|As\w*String|Concat|Join|Format|Substring)|Sequence_(GetItem|List|Tuple|Fast|GetSlice|Concat)|'
                 r'Mapping_(Keys|Values|Items|GetItemString)|Number_\w+|Import_Import\w*|Err_NewException\w*|Module_Create2|Type_FromSpec\w*|Type_GenericAlloc|Type_GenericNew|Slice_New|'
                 r'Weakref_New\w+|Capsule_New|Complex_From\w+|CFunction_New\w*|Method_New|StaticMethod_New)'
                 r'|Py_(BuildValue|NewRef|XNewRef)|_PyObject_(New|NewVar|GenericGetAttrWithDict|CallNoArgs|FastCall\w*)|PyObject_(New|NewVar)|_PyObject_GC_New)$')
NOT_NEW = {'PyNumber_AsSsize_t', 'PyNumber_Check', 'PyObject_CallFinalizer', 'PyObject_GetBuffer', 'PyObject_GetItemData', 'PyUnicode_FromObjectBorrowed'}
BORROWED = re.compile(r'^(Py(Tuple_Get_?ITEM|Tuple_GetItem|Tuple_GET_ITEM|List_GetItem|List_GET_ITEM|Dict_GetItem\w*|Dict_SetDefault|Sys_GetObject|Import_AddModule|Module_GetDict|Eval_Get\w+|'
                      r'Weakref_GetObject|Err_Occurred|Type_GetDict)|Py_TYPE)$')
STEAL = {'PyTuple_SetItem': (2,), 'PyList_SetItem': (2,), 'PyTuple_SET_ITEM': (2,), 'PyList_SET_ITEM': (2,), 'PyModule_AddObject': (2,), 'PyErr_Restore': (0, 1, 2)}
DEC = ('Py_DECREF', 'Py_XDECREF', 'Py_DecRef', 'Py_CLEAR', '_Py_DECREF', '_Py_XDECREF')
INC = ('Py_INCREF', 'Py_XINCREF', 'Py_IncRef', '_Py_INCREF', '_Py_XINCREF')
RAW = re.compile(r'^(_object|_typeobject|db0::python::Py\w+(<.*>)?) \*$|^db0::python::\w*Object\w*(<.*>)? \*$')
IMMORTAL = re.compile(r'^_Py_(None|True|False|NotImplemented|Ellipsis)\w*Struct$|^PyExc_')


def core(t):
    """the value behind casts, references to it and comma expressions"""
    while isinstance(t, tuple) and t:
        if t[0] in ('x', 'cast') and isinstance(t[-1], tuple):
            t = t[-1]
        elif t[0] == 'b' and t[1] == ',':
            t = t[3]
        else:
            break
    return t


def null(t):
    return t == ('i', None) or t == ('i', 0)


class Refs:
    def __init__(self, prog, entries):
        self.p = prog; self.entries = entries
        self.sum = {}                 # usr -> 'new' | 'borrowed' of repository functions returning raw pointers
        self.consumes = {}            # usr -> indexes of parameters whose reference the function takes over
        self.findings = {}

    # -------------------------------------------------------------- classification of values
    def callret(self, s):
        """'new', 'borrowed' or None (not a reference)"""
        if s.repo:
            if s.name == 'steal' and 'shared_py_object' in s.q:
                return 'new'
            if s.name in ('get', 'operator*', 'operator->') and 'shared_py_object' in s.q:
                return 'borrowed'
            return self.sum.get(s.usr)
        if s.name in NOT_NEW:
            return None
        if NEW.match(s.name):
            return 'new'
        if BORROWED.match(s.name):
            return 'borrowed'
        return None

    def fresh(self, t):
        """is the expression a call that returns a new reference"""
        t = core(t)
        if isinstance(t, tuple) and t and t[0] == 'c':
            return self.callret(t[1]) == 'new'
        if isinstance(t, tuple) and t and t[0] == 'ci':
            return ciret(t)
        return False

    # -------------------------------------------------------------- exploration of one function
    def run(self, f, cap=4000):
        """(set of counts returned values have, findings)"""
        self.f = f; self.exits = []
        rets = set(); find = {}
        init = frozenset()
        work = [(f.entry, init)]; seen = set()
        while work:
            bid, st = work.pop()
            if bid is None or (bid, st) in seen:
                continue
            seen.add((bid, st))
            if len(seen) > cap:
                return None, None
            b = f.blocks[bid]
            d = dict(st)
            if bid == f.exit:
                self.exits.append(d)
                for k, n in d.items():
                    if n > 0 and k[0] not in ('used',):
                        find.setdefault(('leak', self.name(k)), 'a reference owned through %s is never released' % self.name(k))
                continue
            thrown = False
            for e in b.ev:
                if e[0] == 'throw':
                    thrown = True
                    break
                self.event(f, e, d, rets, find)
            if thrown or b.nr:
                continue
            if any(e[0] == 'call' and e[2][0] == 'c' and e[2][1].name in ('__assert_fail', 'abort') for e in b.ev):
                continue
            succ = b.succ
            if b.t is None and len(succ) >= 2:        # exceptional edge
                succ = succ[:1]
            if b.cond is not None and len(succ) == 2 and b.t not in ('SwitchStmt', 'CXXTryStmt'):
                for i, to in enumerate(succ):
                    d2 = dict(d)
                    if self.refine(b.cond, i == 0, d2):
                        work.append((to, fz(d2)))
            elif b.t == 'CXXTryStmt':
                continue
            else:
                for to in succ:
                    work.append((to, fz(d)))
        return rets, find

    def name(self, k):
        if k[0] == 'l':
            return k[2]
        if k[0] == 'p':
            return k[2]
        if k[0] == 'c':
            return k[1].name + '()'
        return str(k[0])

    def refine(self, c, truth, d):
        """the branch condition holds or not; False if the branch cannot be taken"""
        c = core(c)
        if c and c[0] == 'u' and c[1] == '!':
            return self.refine(c[2], not truth, d)
        if c and c[0] == 'b' and c[1] in ('==', '!='):
            a, z = core(c[2]), core(c[3])
            if null(a):
                a, z = z, a
            if null(z):
                return self.refine(a, truth == (c[1] == '!='), d)
            return True
        if c and c[0] == 'c' and (c[1].name == 'Py_IsInitialized' or c[1].name == 'isValid' and c[1].repo and 'Toolkit' in c[1].q) and not truth:
            return False                 # the interpreter is gone: references are dropped deliberately
        if c and c[0] == 'asg':
            c = core(c[1])
        if c and c[0] == 'l' or c and c[0] == 'c' and self.fresh(c) or c and c[0] == 'p':
            if not truth:
                d.pop(c, None); d[('nul', c)] = 0
            else:
                if ('nul', c) in d:
                    return False
        if c and c[0] == 'c' and c[1].name == 'PyErr_Occurred' and truth:
            # an error is pending: the value just computed is null
            for k in [k for k in d if k[0] in ('l', 'c')]:
                d[k] = min(d[k], 0) if ('maybe', k) in d else d[k]
        return True

    def take(self, t, d, find, what):
        """one reference of the value is consumed"""
        t = core(t)
        if null(t) or t[0] == 'g' and IMMORTAL.match(t[1]) or t[0] == 'u' and t[1] == '&':
            return None
        if t[0] == '?':
            own = [x for x in t[2:4] if d.get(core(x), 0) > 0]      # the alternative this path evaluated
            r = {self.take(x, d, find, what) for x in own or t[2:4]}
            return r.pop() if len(r) == 1 else None
        n = d.get(t, 0)
        if n > 0:
            d[t] = n - 1
            if not d[t]:
                d.pop(t)
            return 1
        if ('nul', t) in d:
            return None
        if t[0] == 'p' and what != 'ret' and self.f.sym.usr not in self.entries:
            d[('used', t)] = d.get(('used', t), 0) + 1
            return None
        return 0

    def consumed(self):
        """parameters whose reference the function takes over on every path (index), and those it takes over on some paths only"""
        ps = {k[1] for d in self.exits for k in d if k[0] == 'used'}
        every, some = set(), set()
        for t in ps:
            ns = {d.get(('used', t), 0) for d in self.exits if ('nul', t) not in d}
            (every if ns == {1} else some).add(t)
        return every, some

    def known_borrowed(self, t):
        t = core(t)
        if t[0] == 'c':
            return self.callret(t[1]) == 'borrowed' or not t[1].repo and t[1].name == 'operator[]'
        return t[0] in ('p', 'sub')

    def event(self, f, e, d, rets, find):
        k = e[0]
        if k == 'call':
            c = e[2]
            if c[0] == 'n' and 'shared_py_object' in c[1].q and c[3]:
                a = core(c[3][0])
                if len(c[3]) >= 2 and c[3][1] == ('i', False):
                    if self.take(a, d, find, 'own') == 0 and self.borrowed(a, d):
                        find.setdefault(('over', self.name(a)), 'Py_OWN takes over %s, a borrowed reference (line %s)' % (self.name(a), e[1]))
                return
            if c[0] == 'c':
                s = c[1]
                args = c[3] or ()
                if not s.repo and s.name in INC and args:
                    a = core(args[0]); d[a] = d.get(a, 0) + 1
                    return
                if not s.repo and s.name in DEC and args:
                    a = core(args[0])
                    if self.take(a, d, find, 'dec') == 0 and self.borrowed(a, d):
                        find.setdefault(('over', self.name(a)), 'Py_DECREF of %s, a borrowed reference (line %s)' % (self.name(a), e[1]))
                    return
                if not s.repo and s.name in STEAL:
                    for i in STEAL[s.name]:
                        if i < len(args) and self.take(args[i], d, find, 'steal') == 0 and self.borrowed(args[i], d):
                            find.setdefault(('over', self.name(core(args[i]))), '%s steals %s, a borrowed reference (line %s)' % (s.name, self.name(core(args[i])), e[1]))
                    return
                for i in self.consumes.get(s.usr, ()):
                    if i < len(args) and self.take(args[i], d, find, 'give') == 0 and self.borrowed(args[i], d):
                        find.setdefault(('over', self.name(core(args[i]))), '%s takes over %s, a borrowed reference (line %s)' % (s.name, self.name(core(args[i])), e[1]))
                if self.callret(s) == 'new':
                    if d.get(c, 0) > 0:
                        find.setdefault(('leak', self.name(c)), 'the result of %s is not released (line %s)' % (self.name(c), e[1]))
                    d[c] = 1; d.pop(('nul', c), None)
            return
        if k == 'decl':
            key = ('l', e[2], f.locals[e[2]][0])
            self.assign(key, e[4], d, find, e[1], f.locals[e[2]][1] if len(f.locals[e[2]]) > 1 else '')
            return
        if k == 'asg':
            l = core(e[2])
            if e[3] != '=':
                return
            if l and l[0] == 'l':
                self.assign(l, e[4], d, find, e[1], '')
            else:
                # stored in a field, a global or an out parameter
                self.take(e[4], d, find, 'store') if isinstance(e[4], tuple) else None
            return
        if k == 'ret':
            t = e[2]
            if t is None or not RAW.match(f.sym.ret):
                return
            for x in alts(t):
                x = core(x)
                if null(x) or x[0] == 'g':
                    continue
                if ('nul', x) in d:
                    continue
                n = self.take(x, d, find, 'ret')
                if n is not None:
                    rets.add((n, self.name(x), e[1], self.sure(x, n) or self.borrowed(x, d)))
            return

    def sure(self, t, n):
        """is it certain that the value is not owned"""
        t = core(t)
        return n > 0 or t[0] == 'p' or t[0] == 'c' and self.callret(t[1]) == 'borrowed' or t[0] == 'm' or t == ('this',)

    def borrowed(self, t, d):
        t = core(t)
        return self.known_borrowed(t) or t[0] == 'l' and ('bor', t) in d

    def assign(self, key, rhs, d, find, line, ty):
        if d.get(key, 0) > 0:
            find.setdefault(('leak', self.name(key)), '%s is overwritten while it owns a reference (line %s)' % (self.name(key), line))
        d.pop(key, None); d.pop(('nul', key), None); d.pop(('bor', key), None)
        if not isinstance(rhs, tuple):
            return
        r = core(rhs)
        if r[0] == '?':
            n = sum(self.take(x, d, find, 'move') or 0 for x in r[2:4])
            if n:
                d[key] = 1
            return
        if null(r):
            d[('nul', key)] = 0
            return
        if r[0] == 'asg':
            r = core(r[1])
        if d.get(r, 0) > 0:
            d[key] = 1
            self.take(r, d, find, 'move')
        elif self.known_borrowed(r):
            d[('bor', key)] = 0


def alts(t):
    t = core(t)
    if isinstance(t, tuple) and t and t[0] == '?':
        return alts(t[2]) + alts(t[3])
    return [t]


def ciret(t):
    return False


def fz(d):
    return frozenset(d.items())
