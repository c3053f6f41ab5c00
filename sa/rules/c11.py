"""C11 every call from Python succeeds or raises: no abort, no lost error, no foreign operand or missing argument is touched"""
import re
from ..q import *
from ..db import AnalysisError
from ..report import Rules
from ..pyapi import tables, Num, run_safe_targets
from ..engine import UNK

R = Rules()
check = R.check
ERRS = ('PyErr_SetString', 'PyErr_Format', 'PyErr_NoMemory', 'PyErr_SetObject', 'PyErr_SetNone', 'PyErr_BadArgument', 'PyErr_SetFromErrno')
INT = ('int', 'long', 'Py_ssize_t', 'Py_hash_t')


def short(s):
    return re.sub(r'^db0::(python::)?', '', s.q)


class Occurred:
    name = 'occurred'

    def eval(self, t, v):
        if isinstance(t, tuple) and t:
            if t[0] == 'call' and t[1] == 'PyErr_Occurred':
                return v
            if t[0] == 'un' and t[1] == '!' and isinstance(t[2], tuple) and t[2][:2] == ('call', 'PyErr_Occurred'):
                return not v
            if t[0] == 'op' and t[1] in ('==', '!=') and ('i', None) in t[2:4] and any(isinstance(x, tuple) and x[:2] == ('call', 'PyErr_Occurred') for x in t[2:4]):
                return v == (t[1] == '!=')
        return None

    def switch(self, t, v):
        return None


# ------------------------------------------------------------------------------------------------ runSafe
@R('boundary', 'runSafe, the exception boundary of the language interface, turns every exception into a Python error and an error value, and lets none through', 4)
def _(ctx, p, c):
    seen = set()
    for s in sorted(p.sym_q('db0::python::runSafe'), key=lambda s: s.usr):
        k = 'int' if s.ret in INT else 'ptr' if s.ret.endswith('*') else s.ret
        if k in seen or p.fn(s.usr) is None:
            continue
        seen.add(k)
        f = p.fn(s.usr)
        ctx.check(p.has_catch(s.usr), c, 'runSafe<%s> has handlers' % k, 'no exception handler', f.where)
        for occ in (True, False):
            q = Seq({'caught': Custom(lambda ev: ev.kind == 'catch'), 'set': Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ERRS, call=lambda s: s.name in ERRS),
                     'value': Custom(lambda ev: ev.kind == 'ret' and ev.fn.usr == s.usr and ev.term is not None and contains(lambda x: isinstance(x, tuple) and x and x[0] == 'ci')(ev.term))},
                    atoms=[Occurred()], val={'occurred': occ}, icall_throws=True)
            outs, viol = run_seq(ctx, f, q)
            if occ and not any('caught' in o.state[0] for o in outs):
                raise AnalysisError('no exceptional path of runSafe was explored')
            ctx.check(not [o for o in outs if o.kind == 'exc'], c, 'runSafe<%s> lets no exception through%s' % (k, ' (error pending)' if occ else ''),
                      'an exception can leave runSafe', f.where)
            w = set()
            for o in outs:
                if o.kind != 'ret':
                    continue
                lab = o.state[0]
                if 'caught' in lab and not occ and 'set' not in lab:
                    w.add('a handler returns without setting a Python error')
                if ('caught' in lab or occ) and 'value' in lab:
                    w.add('the result of the function is returned although an error is set')
                if not occ and 'caught' not in lab and 'value' not in lab:
                    w.add('the result of the function is not returned')
            ctx.check(not w, c, 'runSafe<%s> %s' % (k, 'returns the error value while an error is pending' if occ else 'reports every caught exception'), '; '.join(sorted(w)), f.where)


@R('error-value', 'every runSafe instantiation with an integral result passes -1 as the value that tells the interpreter an error is set', 20)
def _(ctx, p, c):
    for s in sorted(p.sym_q('db0::python::runSafe'), key=lambda s: s.usr):
        if s.ret not in INT:
            continue
        who = sorted(short(p.syms[u]) for u in p.callers().get(s.usr, ()))
        for w in who or ['(unused)']:
            ctx.check(str(s.ta).startswith('-1,') or str(s.ta) == '-1', c, '%s -> runSafe' % w, 'the error value of runSafe<%s> is not -1: the interpreter takes 0 as success while an error is set' % s.ta.split(',')[0])


# ------------------------------------------------------------------------------------------------ exceptions
# calls that cannot throw in the situation they are made in
CANNOT = {
    'MemoObject_init': ('isExistingSingleton', 'getClassPtr', 'unloadSingleton', 'destroy'),   # the class was resolved by MemoObject_new before
    'MemoObject_new': ('get',),                                                    # decoration of a registered memo type
    'EnumValue_hash': ('extractEnumValue',),                                       # self is an enum value
    'setPrefix': ('PyMemoType_IsSingleton',),
}
DEBUG_ONLY = ('freeBytes', 'readBytes', 'writeBytes')


class Escape:
    def __init__(self, p):
        self.p = p; self.entries = tables(p).ents
        self.direct = set(); self.boundary = set()
        for u in p.meta:
            r = p.raw(u)
            if r is None:
                continue
            if p.has_catch(u):
                self.boundary.add(u)
            b = r if isinstance(r, (bytes, str)) else str(r)
            if ('"throw"' if isinstance(b, str) else b'"throw"') in b:
                self.direct.add(u)
        self.memo = {}

    def stop(self, o):
        return o.name == 'runSafe' or o.nothrow or o.usr in self.boundary or not o.repo or o.usr in self.entries

    def targets(self, s):
        return self.p.overriders(s) if s.virt else [s]

    def find(self, u, exempt=()):
        """path from u to a function that throws, or None"""
        seen = {u: None}; todo = [u]
        while todo:
            x = todo.pop()
            if x in self.direct:
                path = []
                while x:
                    path.append(short(self.p.syms[x])); x = seen[x]
                return path[::-1]
            for c in self.p.meta[x][0]:
                for o in self.targets(self.p.syms[c]):
                    v = o.usr
                    if v in seen or v not in self.p.meta or self.stop(o) or o.name in exempt:
                        continue
                    seen[v] = x; todo.append(v)
        return None


def escape(p):
    if not hasattr(p, '_escape'):
        p._escape = Escape(p)
    return p._escape


@R('no-escape', 'outside runSafe no entry of a slot or method table calls anything that can throw a C++ exception (it would terminate the interpreter)', 250)
def _(ctx, p, c):
    E = escape(p)
    fired = 0
    for s, slots in tables(p).entries():
        f = p.fn(s.usr)
        if f is None or f.nocfg:
            raise AnalysisError('no body for %s' % s.q)
        exempt = ()
        for k, v in CANNOT.items():
            if s.name.endswith(k):
                exempt = v
        if s.name in DEBUG_ONLY:
            continue
        inst = '%s (%s)' % (short(s), ', '.join(slots[:2]))
        if s.usr in E.boundary:
            ctx.ok(c, inst, f.where); continue
        called = set()
        for e in f.events():
            if e[0] == 'call' and e[2][0] in ('c', 'n'):
                called.add(e[2][1])
            if e[0] == 'dtor' and e[4] is not None:
                called.add(e[4])
        bad = []
        if any(e[0] == 'throw' for e in f.events()):
            bad.append('throws itself')
        for cs in called:
            for o in E.targets(cs):
                if o.usr in p.meta and not E.stop(o) and o.name not in exempt:
                    h = E.find(o.usr, exempt)
                    if h:
                        bad.append(' -> '.join(h[:6]))
        fired += bool(E.direct)
        ctx.check(not bad, c, inst, 'an exception can leave the entry: ' + '; '.join(sorted(bad)[:3]), f.where)
    ctx.control('functions that throw are recognised', fired and len(E.direct) > 100)


# ------------------------------------------------------------------------------------------------ operands and arguments
class FalseChecks:
    """every type check of parameter 0 fails (the operand is a foreign object)"""
    name = 'foreign'

    def __init__(self, p):
        self.p = p

    def hit(self, t):
        return isinstance(t, tuple) and t and t[0] == 'call' and (re.search(r'_Check(Exact)?$', t[1]) or t[1].endswith('::PyObject_TypeCheck') or t[1] in ('PyObject_TypeCheck', 'PyObject_IsInstance')) \
            and t[3] and param(0)(t[3][0])

    def eval(self, t, v):
        if self.hit(t):
            return False
        if isinstance(t, tuple) and t and t[0] == 'un' and t[1] == '!' and self.hit(t[2]):
            return True
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in ('==', '!=', '>') and self.hit(t[2]) and t[3] and t[3][0] == 'i':
            z = not t[3][1]
            return {'==': z, '!=': not z, '>': False}[t[1]]
        return None

    def switch(self, t, v):
        return None


def checkname(s):
    return re.search(r'_Check(Exact)?$', s.name) or s.name in ('PyObject_TypeCheck', 'PyObject_IsInstance', 'Py_TYPE')


@R('left-operand', 'a binary operator reads its left operand only after checking its type: the interpreter also calls it with a foreign left operand', 5)
def _(ctx, p, c):
    done = set()
    for u, (s, uses) in sorted(tables(p).ents.items()):
        slots = {str(x) for _, T, pp in uses for x in pp if str(x).startswith('nb_')}
        slots = {x for x in slots if not x.startswith('nb_inplace') and x not in ('nb_bool', 'nb_negative', 'nb_positive', 'nb_absolute', 'nb_invert', 'nb_int', 'nb_float', 'nb_index')}
        if not slots or not s.repo or u not in p.fnloc or u in done:
            continue
        done.add(u)
        f = p.fn(u)
        used = []

        def m(ev):
            if ev.kind != 'call' or ev.fn.usr != u or checkname(ev.sym):
                return False
            if any(param(0)(a) or contains(param(0))(a) for a in ev.args or () if a is not None) or ev.recv is not None and contains(param(0))(ev.recv):
                used.append('%s (line %s)' % (ev.sym.q, ev.line))
            return False
        A = FalseChecks(p)
        q = Seq({'x': Custom(m, call=lambda s: True)}, atoms=[A], val={'foreign': True}, no_follow=lambda s: True)
        run_seq(ctx, f, q)
        ctx.check(not used, c, '%s (%s)' % (short(s), ', '.join(sorted(slots))), 'with a left operand of another type it is passed on to ' + ', '.join(sorted(set(used))[:3]), f.where)


def deref(t, am):
    out = []
    for x in subterms(t):
        if isinstance(x, tuple) and x and x[0] == 'sub' and len(x) == 3 and am(x[1]) and x[2] and x[2][0] == 'i':
            out.append(int(x[2][1] or 0))
        if isinstance(x, tuple) and x and x[0] == 'un' and x[1] == '*' and am(x[2]):
            out.append(0)
    return out


def probe(ctx, f, ai, ni, k, depth=0):
    am = param(idx=ai); bad = {}; nxt = []

    def m(ev):
        for t in list(ev.args or ()) + [ev.recv, ev.rhs if ev.kind in ('decl', 'asg') else None, ev.term if ev.kind == 'ret' else None]:
            if t is None:
                continue
            for i in deref(t, am):
                if i >= k:
                    bad[i] = (short(ev.fn.sym), ev.line)
        if ev.kind == 'call' and ev.sym.name == 'runSafe' and depth == 0:
            nxt.append(ev)
        return False
    q = Seq({'x': Custom(m, call=lambda s: True)}, atoms=[Num('n', param(idx=ni))] if ni is not None else [], val={'n': k} if ni is not None else {},
            no_follow=lambda s: s.name in ('runSafe', 'lockPyApi') or not s.q.startswith('db0::python::'), follow_labelled=True)
    run_seq(ctx, f, q)
    return bad, nxt


@R('arity', 'a method of the vectorcall convention never reads an argument the caller did not pass', 60)
def _(ctx, p, c):
    done = set()
    for var, name, s, flags in tables(p).methods():
        if len(s.pt) != 3 or s.pt[1] != '_object *const *' or s.usr not in p.fnloc or s.usr in done:
            continue
        done.add(s.usr)
        f = p.fn(s.usr)
        T = {line: tg for line, tg, _ in run_safe_targets(f)}
        for k in range(0, 4):
            bad, nxt = probe(ctx, f, 1, 2, k)
            for ev in nxt:
                for x in ev.args[1:]:
                    for i in deref(x, param(idx=1)):
                        if i >= k:
                            bad[i] = (short(s), ev.line)
                tg = T.get(ev.line)
                g = p.fn(tg.usr) if tg is not None and ev.fn.usr == s.usr else None
                ai = [i for i, x in enumerate(ev.args[1:]) if param(idx=1)(x)]
                ni = [i for i, x in enumerate(ev.args[1:]) if param(idx=2)(x)]
                if g is not None and ai:
                    bad.update(probe(ctx, g, ai[0], ni[0] if ni else None, k, 1)[0])
            ctx.check(not bad, c, '%s with %d arguments' % (short(s), k), 'reads argument %s (0-based) at %s' % (', '.join(map(str, sorted(bad))), ', '.join('%s:%s' % v for v in bad.values())), f.where)


def fold(t):
    if t and t[0] == 'i':
        return int(t[1] or 0)
    if t and t[0] in ('b', 'op') and t[1] in ('|', '+'):
        a, b = fold(t[2]), fold(t[3])
        return None if a is None or b is None else a | b
    if t and t[0] in ('u', 'cast', 'x') and isinstance(t[-1], tuple):
        return fold(t[-1])
    return None


@R('convention', 'the calling convention declared for a method in its table is the one the function implements', 100)
def _(ctx, p, c):
    for var, name, s, fl in tables(p).methods():
        n = fold(fl)
        if n is None:
            raise AnalysisError('flags of %s are not a constant' % s.q)
        n = n & ~(0x10 | 0x20 | 0x40)          # CLASS, STATIC, COEXIST
        vec = len(s.pt) >= 2 and s.pt[1] == '_object *const *'
        # a function with fewer parameters than it is passed ignores the others
        k = len(s.pt)
        vec = vec or k < 2
        ok = {128: vec and k <= 3, 4: k <= 2, 1: k <= 2, 3: k <= 3 and (k < 2 or not vec), 8: k <= 2, 130: vec and k <= 4}.get(n)
        nm = name[1] if isinstance(name, tuple) and len(name) > 1 else name
        ctx.check(bool(ok), c, '%s.%s (%s)' % (var.split('::')[-1], nm, short(s)), 'flags %s do not match the %d-parameter signature %s' % (n, len(s.pt), ', '.join(s.pt)))


# ------------------------------------------------------------------------------------------------ error protocol
def success(ret):
    def m(t):
        if not isinstance(t, tuple) or t == ('i', None):
            return False
        if t[0] == 'g' and t[1].startswith('_Py_') and t[1].endswith('Struct'):
            return True
        return ret in INT and t == ('i', 0) or t == ('i', 1)
    return m


@R('error-then-success', 'a function that has set a Python error never goes on to return None, True, False, NotImplemented or a success code', 100)
def _(ctx, p, c):
    us = set()
    for n in ERRS:
        for s in p.sym_q(n):
            us |= p.callers().get(s.usr, set())
    for u in sorted(us):
        s = p.syms[u]; f = p.fn(u)
        if f is None or f.nocfg or s.name == 'runSafe' or not s.repo:
            continue
        q = Seq({'err': Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ERRS and ev.fn.usr == u, call=lambda s: s.name in ERRS),
                 'ok': Ret(success(s.ret)),
                 'clear': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'PyErr_Clear', call=lambda s: s.name == 'PyErr_Clear')},
                never=[('err', 'ok', 'returns a success value with an error set')], reset=[('clear', 'err')], atoms=[], val={}, no_follow=lambda s: True)
        outs, v = run_seq(ctx, f, q)
        ctx.check(not v, c, short(s) + '/%d' % len(s.pt), '; '.join('%s at %s' % (k[0], w) for k, w in sorted(v.items())), f.where)


NOERR = re.compile(r'^(Py_(INCREF|DECREF|XINCREF|XDECREF|TYPE|NewRef|XNewRef|REFCNT|SIZE|IS_TYPE|RETURN.*|NewReference)|Py.*_Check(Exact)?|PyObject_TypeCheck|'
                   r'PyType_(HasFeature|FastSubclass|IsSubtype|GetFlags)|PyErr_(Occurred|Clear|Fetch|Restore)|_Py.*|PyTuple_(GET_ITEM|GET_SIZE|Size|GetItem)|PyList_GET_.*|'
                   r'PyGILState.*|PyEval_.*|PyDict_GetItem(String)?|PyObject_(New|Malloc|Init|InitVar|TypeCheck).*)$')
# null is one of the regular results of these helpers, not an error
NULL_IS_A_VALUE = ('negTags', 'steal', 'getValue', 'findType')


class MaySet:
    def __init__(self, p):
        self.p = p; self.memo = {}

    def __call__(self, u):
        if u in self.memo:
            return self.memo[u]
        stack = [u]; seen = {u}; r = False
        while stack:
            x = stack.pop()
            s = self.p.syms[x]
            if self.memo.get(x) or not s.repo and s.name.startswith('Py') and not NOERR.match(s.name):
                r = True; break
            if x in self.p.meta:
                for cc in self.p.meta[x][0]:
                    if cc not in seen:
                        seen.add(cc); stack.append(cc)
        self.memo[u] = r
        return r


@R('null-with-error', 'a function of the language interface that returns its error value literally has called something before that can set a Python error', 100)
def _(ctx, p, c):
    may = MaySet(p)
    T = tables(p).ents
    todo = set()
    for u in p.meta:
        s = p.syms[u]
        if not s.q.startswith('db0::python') and u not in T or '/python/' not in p.meta[u][3] or s.lam or s.name in NULL_IS_A_VALUE:
            continue
        if not (s.ret in ('_object *', '_typeobject *') + INT or s.ret.startswith('db0::python::Py') and s.ret.endswith('*')):
            continue
        if s.ret in INT and u not in T:
            continue
        lits = (('i', None),) if '*' in s.ret else (('un', '-', ('i', 1)), ('i', -1))
        f = p.fn(u)
        if f is None or f.nocfg:
            continue
        if not any(e[0] == 'ret' for e in f.events()):
            continue
        todo.add((s.q, len(s.pt), u, lits))
    for q_, n, u, lits in sorted(todo):
        s = p.syms[u]; f = p.fn(u)
        q = Seq({'may': Custom(lambda ev: ev.kind == 'icall' or ev.kind == 'call' and may(ev.sym.usr), call=lambda s: True), 'null': Ret(lambda t: t in lits)},
                before=[(('may',), 'null', 'the error value is returned but nothing can have set an error (SystemError in the caller)')], atoms=[], val={}, no_follow=lambda s: True)
        try:
            outs, v = run_seq(ctx, f, q)
        except AnalysisError:
            continue
        if q.hits['null']:
            ctx.check(not v, c, short(s) + '/%d' % n, '; '.join(sorted({k[0] for k in v})), f.where)


# ------------------------------------------------------------------------------------------------ strings
UTF8 = ('PyUnicode_AsUTF8', 'PyUnicode_AsUTF8AndSize')


def is_utf8(t):
    if isinstance(t, tuple) and t and t[0] == '?':
        return any(is_utf8(x) for x in t[2:4])
    return isinstance(t, tuple) and t and t[0] == 'call' and t[1] in UTF8


class Null8:
    """the string is null"""
    name = 'null'

    def __init__(self, m):
        self.m = m

    def eval(self, t, v):
        if self.m(t):
            return False
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in ('==', '!='):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if self.m(a) and b == ('i', None):
                    return t[1] == '=='
        if isinstance(t, tuple) and t and t[0] == 'un' and t[1] == '!' and self.m(t[2]):
            return True
        return None

    def switch(self, t, v):
        return None


class Strings:
    """what a function does with a null C string: std::string reports it (an exception), any other use is a crash"""
    def __init__(self, ctx, p):
        self.ctx = ctx; self.p = p; self.memo = {}; self.esc = escape(p)

    def callee(self, s, i):
        """(uses that crash, always throws)"""
        k = (s.usr, i)
        if k not in self.memo:
            self.memo[k] = ({'recursion'}, False)
            f = self.p.fn(s.usr)
            self.memo[k] = ({s.q}, False) if f is None or f.nocfg else self.uses(f, param(idx=i))
        return self.memo[k]

    def kind(self, s, i):
        if s.name == 'runSafe':
            return 'ok'
        pt = s.pt[i] if i < len(s.pt) else ''
        if s.name == 'basic_string' and i == 0 or 'basic_string<' in pt or 'std::string' in pt or 'PrefixName' in pt or 'PrefixName' in s.q and s.ctor:
            return 'throws'
        if not s.repo:
            return 'ok' if s.ctor or s.name in ('operator<<', 'make_optional') else 'bad'
        bad, thr = self.callee(s, i)
        return 'bad' if bad else 'throws' if thr else 'ok'

    def raises(self, s):
        return s.repo and s.ret == 'void' and not s.ctor and s.q.startswith('db0::python') and s.usr in self.esc.direct

    def uses(self, f, m):
        bad = set(); u = f.sym.usr

        def hit(what):
            def g(ev):
                if ev.kind == 'ret' and ev.fn.usr == u and what == 'bad' and m is is_utf8 and ev.term is not None and m(ev.term) and 'char' in f.sym.ret:
                    return True
                if ev.kind != 'call' or ev.fn.usr != u:
                    return False
                r = [(i, self.kind(ev.sym, i)) for i, a in enumerate(ev.args or ()) if m(a)]
                if what == 'bad' and ev.recv is not None and m(ev.recv):
                    return True
                return any(k == what for _, k in r)
            return Custom(g, call=lambda s: True)
        q = Seq({'throws': hit('throws'), 'bad': hit('bad')}, before=[(('throws',), 'bad', 'x')], atoms=[Null8(m)], val={'null': True},
                no_follow=lambda s: not self.raises(s), force_follow=self.raises)
        outs, v = run_seq(self.ctx, f, q)
        return ({w for _, w in v.items()}, bool(outs) and all('throws' in o.state[0] for o in outs if o.kind == 'ret'))


@R('utf8', 'the result of encoding a Python string as UTF-8 (null for lone surrogates) is checked, or refused by std::string, before it is used as a C string', 12)
def _(ctx, p, c):
    us = set()
    S = Strings(ctx, p)
    for n in UTF8:
        for s in p.sym_q(n):
            us |= p.callers().get(s.usr, set())
    for u in sorted(us):
        f = p.fn(u); s = p.syms[u]
        if not s.repo:
            continue
        if f is None or f.nocfg:
            raise AnalysisError('no body for %s' % s.q)
        bad, _ = S.uses(f, is_utf8)
        ctx.check(not bad, c, short(s) + '/%d' % len(s.pt), 'null is used at ' + ', '.join(sorted(map(str, bad))), f.where)


# ------------------------------------------------------------------------------------------------ errors that are dropped on purpose
CLEARS = {
    'MemoObject_rq': 'an attribute that does not exist on the base type is not an error of the comparison',
    'tryLoadMemo': 'the optional __load__ method does not exist',
    'StateReachedCallback': 'the waiting coroutine is gone',
    'PyTuple': 'the length of a generator is unknown',
}


@R('cleared', 'a pending Python error is dropped only where its absence is part of the operation (optional attributes and lengths)', 4)
def _(ctx, p, c):
    us = set()
    for n in ('PyErr_Clear',):
        for s in p.sym_q(n):
            us |= p.callers().get(s.usr, set())
    for u in sorted(us):
        s = p.syms[u]
        if not s.repo or u not in p.meta:
            continue
        names = [s.q] + [p.syms[x].q for x in p.callers().get(u, ())]
        par = p.meta[u][5] if len(p.meta[u]) > 5 and p.meta[u][5] else None
        if par and par in p.syms:
            names.append(p.syms[par].q)
        file = p.meta[u][3]
        # an error raised while another one is saved and restored: the first is the one reported
        saved = {p.syms[x].name for x in p.callees(u) if x in p.syms} >= {'PyErr_Fetch', 'PyErr_Restore'}
        ok = saved or any(k in n for k in CLEARS for n in names) or 'PyTuple.cpp' in file or replaced(ctx, p.fn(u))
        ctx.check(ok, c, short(s), 'drops an error that nothing says may be dropped', '%s:%s' % (file, p.meta[u][4]))


def replaced(ctx, f):
    """the error is replaced by an exception: no path that drops it returns normally"""
    if f is None:
        return False
    got, outs, q = reach(ctx, f, {'clear': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'PyErr_Clear', call=lambda s: s.name == 'PyErr_Clear')}, (), {}, no_follow=lambda s: s.name != 'PyErr_Clear')
    return 'clear' in got and not any(o.kind == 'ret' and 'clear' in o.state[0] for o in outs)
