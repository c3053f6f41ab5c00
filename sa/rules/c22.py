"""C22 references to Python objects are balanced: what is acquired is released once, what is not owned is never released"""
import re
from ..q import *
from ..db import AnalysisError
from ..report import Rules
from ..pyapi import tables
from ..refs import Refs, RAW

R = Rules()
check = R.check
SHARED = 'db0::python::shared_py_object'

# functions whose purpose is to change a count that something else balances
PRIMITIVE = {
    'db0::python::PyToolkit::incRef': 'the increment itself', 'db0::python::PyToolkit::decRef': 'the decrement itself',
    'initPyType': 'a failed module initialisation gives up the module', 'initPyError': 'the type manager keeps one reference and gives the other to the module',
    'db0::python::PyTypeManager::PyTypeManager': 'exception types live as long as the process (one reference is for the module)',
    'db0::LangCache::clearDefunct': 'entries are dropped without release when the interpreter is gone',
    'db0::LangCache::erase': 'as_defunct: entries are dropped without release when the interpreter is gone',
}


def short(s):
    return re.sub(r'^db0::(python::|object_model::)?', '', s.q)


def analysis(p):
    if getattr(p, '_refs', None):
        return p._refs
    r = Refs(p, tables(p).ents)
    fs = []
    for u in sorted(p.meta):
        s = p.syms[u]
        if s.repo and (RAW.match(s.ret) or any((not p.syms[c].repo and p.syms[c].name.startswith(('Py', '_Py'))) or p.syms[c].name == 'steal' or SHARED in p.syms[c].q for c in p.meta[u][0])):
            fs.append(u)
    res = {}
    for it in range(8):
        ch = False
        for u in fs:
            f = p.fn(u)
            if f is None or f.nocfg:
                continue
            rets, find = r.run(f)
            if rets is None:
                res[u] = (None, None, None, None); continue
            every, some = r.consumed()
            res[u] = (rets, find, every, some)
            c = frozenset(t[1] for t in every) if p.syms[u].q not in PRIMITIVE and SHARED not in p.syms[u].q else frozenset()
            if r.consumes.get(u, frozenset()) != c:
                r.consumes[u] = c; ch = True
            s = p.syms[u]
            if RAW.match(s.ret):
                ns = {n for n, _, _, sure in rets if n or sure}
                v = 'new' if 1 in ns or u in r.entries else 'borrowed' if ns == {0} else r.sum.get(u)
                if r.sum.get(u) != v:
                    r.sum[u] = v; ch = True
        if not ch:
            break
    else:
        raise AnalysisError('reference summaries do not stabilise')
    p._refs = (r, res)
    return p._refs


def exempt(s):
    return SHARED + '::' in s.q or s.q in PRIMITIVE


def callback(p, u):
    """a lambda that takes or gives back a reference on demand: void (bool)"""
    s = p.syms[u]
    return s.lam and list(s.pt) == ['bool']


def sites(p, u):
    n = 0
    for c in p.meta[u][0]:
        s = p.syms[c]
        n += (not s.repo and s.name.startswith(('Py', '_Py'))) or s.name == 'steal' or (s.repo and bool(RAW.match(s.ret)))
    return n


def each(ctx, p):
    r, res = analysis(p)
    for u, v in sorted(res.items(), key=lambda x: (p.syms[x[0]].q, x[0])):
        s = p.syms[u]
        if not exempt(s) and not callback(p, u):
            yield r, u, s, p.fn(u), v


def label(s, n):
    return short(s) + '/%d' % len(s.pt) + (' [%s]' % re.sub(r'db0::(python::|object_model::)?', '', s.ta if isinstance(s.ta, str) else ', '.join(s.ta)) if s.ta else '')


@R('leak', 'no function returns while it owns a Python reference it neither returned, released, nor handed over', 900)
def _(ctx, p, c):
    for r, u, s, f, (rets, find, ev, so) in each(ctx, p):
        n = sites(p, u)
        if not n:
            continue
        if rets is None:
            ctx.check(False, c, label(s, n), 'too many paths', f.where); continue
        bad = [w for (k, _), w in find.items() if k == 'leak']
        ctx.check(not bad, c, label(s, n), '; '.join(bad), f.where)


@R('over-release', 'no function releases, returns as its own, or hands over a Python reference it does not own', 900)
def _(ctx, p, c):
    for r, u, s, f, (rets, find, ev, so) in each(ctx, p):
        n = sites(p, u)
        if not n or rets is None:
            continue
        bad = [w for (k, _), w in find.items() if k == 'over']
        bad += ['%s is given away on some paths and not on others' % t[2] for t in sorted(so)]
        ctx.check(not bad, c, label(s, n), '; '.join(bad), f.where)


@R('result', 'every function the interpreter calls for a result returns a reference its caller owns; an internal function returns owned or borrowed references, not either', 600)
def _(ctx, p, c):
    r, res = analysis(p)
    seen = set()
    for r, u, s, f, (rets, find, ev, so) in each(ctx, p):
        if rets is None or not RAW.match(s.ret) or not rets:
            continue
        zero = sorted({(nm, ln) for n, nm, ln, sure in rets if n == 0 and sure}); one = [x for x in rets if x[0] == 1]
        if u in r.entries:
            # a slot that is documented to return a borrowed pointer does not exist; converters return self
            ctx.check(not zero, c, label(s, 0), 'returns a borrowed reference: %s' % ', '.join('%s (line %s)' % z for z in zero), f.where)
        else:
            ctx.check(not (zero and one), c, label(s, 0), 'returns an owned reference on some paths and a borrowed one (%s) on others' % ', '.join('%s (line %s)' % z for z in zero), f.where)


@R('dealloc', 'the deallocator of every type destroys the native instance and then frees the object, on every path', 20)
def _(ctx, p, c):
    T = tables(p)
    for u, (s, uses) in sorted(T.ents.items(), key=lambda x: (x[1][0].q, x[0])):
        if not s.repo or u not in p.fnloc or not any(pp and str(pp[-1]) in ('tp_dealloc',) for _, _, pp in uses):
            continue
        dealloc(ctx, p, c, s)
    for q in ('db0::python::PyAPI_MemoObject_del',):
        for s in p.sym_q(q):
            if s.usr not in T.ents and p.fn(s.usr) is not None:
                dealloc(ctx, p, c, s)


def dealloc(ctx, p, c, s):
    f = p.fn(s.usr)
    gone = Custom(lambda ev: ev.kind == 'call' and (ev.sym.name in ('destroy', 'drop') or ev.sym.dtor or ev.sym.name in ('Py_DECREF', 'Py_XDECREF') and ev.args and ev.args[0][0] == 'fld'),
                  call=lambda s: s.name in ('destroy', 'Py_DECREF', 'Py_XDECREF') or s.dtor)
    free = Custom(lambda ev: ev.kind == 'icall' and 'tp_free' in repr(ev.recv)
                  or ev.kind == 'call' and ev.sym.name in ('PyObject_Del', 'PyObject_Free', '_PyObject_Del'), call=lambda s: s.name in ('PyObject_Del', 'PyObject_Free'))
    q = Seq({'destroy': gone, 'free': free}, never=[('free', 'destroy', 'x')], atoms=[Live(), Flag('held', lambda t: isinstance(t, tuple) and t and t[0] == 'fld' and t[1] == ('param', 0, f.params[0]))], val={'live': True, 'held': True},
            no_follow=lambda s: s.name in ('destroy', 'lockPyApi'))
    outs, viol = run_seq(ctx, f, q)
    rets = [o for o in outs if o.kind == 'ret']
    bad = []
    if not rets:
        bad.append('no path returns')
    for l, w in (('destroy', 'destroying the native instance'), ('free', 'freeing the object')):
        if any(l not in o.state[0] for o in rets):
            bad.append('a path returns without ' + w)
    if viol:
        bad.append('the native instance is destroyed after the object was freed')
    ctx.check(not bad, c, label(s, 0), '; '.join(bad), f.where)


class Live:
    name = 'live'

    def eval(self, t, v):
        return v if isinstance(t, tuple) and t[:2] == ('call', 'Py_IsInitialized') else None

    def switch(self, t, v):
        return None


@R('ready', 'every Python type of the module is readied when the module is initialised, or provides its own allocator and deallocator (an unreadied type has no deallocator: releasing its last reference crashes)', 25)
def _(ctx, p, c):
    # functions from which PyType_Ready is reached, and the type objects they mention
    ready = {s.usr for s in p.syms.values() if s.name == 'PyType_Ready'}
    cal = p.callers()
    todo = list(ready)
    while todo:
        for u in cal.get(todo.pop(), ()):
            if u not in ready:
                ready.add(u)
                todo.append(u)
    named = set()
    for u in ready:
        f = p.fn(u)
        for e in (f.events() if f is not None else ()):
            named |= {t[1] for t in subterms(e) if isinstance(t, tuple) and len(t) == 2 and t[0] == 'g'} | ({e[2][1]} if e[0] == 'rdg' else set())
    n = 0
    for q, (g, m) in sorted(p.gvars.items()):
        if g['t'] not in ('_typeobject', 'PyTypeObject'):
            continue
        n += 1
        i = p.gvar_init(q)
        own = set()
        if i and i[0] == 'init' and len(i) > 3:
            own = {k for k, x in zip(i[3], i[1]) if x not in (('i', None), ('i', 0), None)}
        ok = q in named or {'tp_dealloc', 'tp_alloc', 'tp_free'} <= own
        ctx.check(ok, c, q, 'the type is neither readied by the module initialisation nor complete by itself (tp_alloc, tp_dealloc, tp_free): its objects cannot be deallocated', 'src')
    ctx.control('PyType_Ready is called', len(ready) > 1)


@R('pinning', 'an index with unflushed updates holds a reference to its Python object: the callback takes one when the index becomes dirty and gives it back when it becomes clean', 2)
def _(ctx, p, c):
    r, res = analysis(p)
    seen = 0
    for u in sorted(res):
        s = p.syms[u]
        f = p.fn(u)
        if not callback(p, u) or f is None:
            continue
        calls_ = {p.syms[x].name for x in p.meta[u][0]}
        if not calls_ & {'Py_INCREF', 'Py_DECREF', 'Py_XINCREF', 'Py_XDECREF', 'incRef', 'decRef'}:
            continue
        for val in (True, False):
            inc = Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ('Py_INCREF', 'Py_XINCREF', 'incRef'), call=lambda s: s.name in ('Py_INCREF', 'Py_XINCREF', 'incRef'))
            dec = Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ('Py_DECREF', 'Py_XDECREF', 'decRef'), call=lambda s: s.name in ('Py_DECREF', 'Py_XDECREF', 'decRef'))
            q = Seq({'inc': inc, 'dec': dec}, atoms=[Flag('dirty', param(idx=0))], val={'dirty': val}, no_follow=lambda s: True)
            outs, _ = run_seq(ctx, f, q)
            want, other = ('inc', 'dec') if val else ('dec', 'inc')
            rets = [o for o in outs if o.kind == 'ret']
            ctx.check(rets and all(want in o.state[0] and other not in o.state[0] for o in rets), c,
                      '%s (%s)' % (re.sub(r'.*python::', '', s.q), 'dirty' if val else 'clean'), 'does not %s exactly then' % ('take a reference' if val else 'give the reference back'), f.where)
