"""C08 one process at a time has a prefix open for writing"""
from ..q import *
from ..report import Rules
from .c07 import LibC, CT, FILE

R = Rules()
check = R.check
LOCK = 'db0::InterProcessLock'
NOLOCK = Flag('nolock', F('m_no_lock'))
ACCESS = Enum('mode', any_of(fld('m_access_type'), lambda t: isinstance(t, tuple) and t and t[0] == 'param' and t[2] in ('access_type', 'access')), ['READ_ONLY', 'READ_WRITE'])
CL = LibC('cl', 'fclose', 0, -1)
MAKE = lambda: Custom(lambda ev: ev.kind == 'call' and made(ev.sym), call=made)


def made(s):
    return (s.name == 'make_unique' and LOCK in (s.ta or '') + s.ret) or (s.ctor and s.clsq == LOCK and not s.name.startswith('~'))


def lock_stored():
    """the new lock becomes the lock of the file"""
    a = Assign('db0::CFile::m_lock', value=lambda t: contains_made((t,)), init=True)
    return Custom(lambda ev: a.match(ev) or (ev.kind == 'call' and ev.sym.name in ('reset', 'swap') and F('m_lock')(ev.recv) and contains_made(ev.args)),
                  call=lambda s: s.name in ('operator=', 'reset', 'swap'), field=lambda q: q == 'db0::CFile::m_lock')


def contains_made(args):
    def go(t):
        if not isinstance(t, tuple):
            return False
        if t and t[0] in ('call', 'new') and isinstance(t[1], str) and ('make_unique' in t[1] or 'InterProcessLock' in t[1]):
            return True
        return any(go(x) for x in t)
    return any(go(a) for a in args)


@R('locked', 'a file opened for writing is locked, under a name derived from its own, before it is used; a file opened for reading is not', 5)
def _(ctx, p, c):
    f = p.need('db0::CFile::CFile', 3)
    at = [ACCESS, NOLOCK]
    lab = {'lock': MAKE(), 'kept': lock_stored()}
    guard_rule(ctx, c, 'locked when opened for writing', f, lab, at, [
        ({'mode': 'READ_WRITE', 'nolock': False}, {'lock': 'must', 'kept': 'must'}, 'a file is opened for writing without a lock'),
        ({'mode': 'READ_ONLY', 'nolock': False}, {'lock': 'never'}, 'a reader takes the lock of the writer'),
        ({'mode': 'READ_WRITE', 'nolock': True}, {'lock': 'never'}, 'the lock is taken although it was not asked for')])
    seen = []

    def m(ev):
        if ev.kind == 'call' and made(ev.sym):
            seen.append(ev); return True
        return False
    reach(ctx, f, {'x': Custom(m, call=made)}, at, {'mode': 'READ_WRITE', 'nolock': False})
    for ev in seen[:1]:
        path, flags = ev.args[0], ev.args[1]
        ctx.check(any(x == ('s', '.lock') or (x[0] == 's' and len(x[1]) > 0) for x in subterms(path)) and any(F('m_path')(x) or (x[0] == 'param' and x[1] == 0) for x in subterms(path)),
                  c, 'name of the lock', 'the lock is taken under %s' % show(path), f.where)
        ctx.check(any(x[0] == 'param' and x[1] == 2 for x in subterms(flags)), c, 'flags of the lock', 'the lock does not get the flags of this open but %s' % show(flags), f.where)
    # the position and extent of the file are those found once the lock is held
    L = {'lock': MAKE(), 'size': Assign('db0::CFile::m_file_size', value=contains(calls('db0::getFileSize'))),
         'io': Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ('fread', 'fwrite'), call=lambda s: s.name in ('fread', 'fwrite'))}
    order(ctx, c, 'measured under the lock', f, L, [('lock>size', 'the size of the file is taken before the lock is held: its former owner may still extend it'), ('-io', 'the file is used before it is locked')],
          ['lock'], at, {'mode': 'READ_WRITE', 'nolock': False}, no_follow=lambda s: s.q == LOCK + '::' + 'InterProcessLock' or s.name in ('assureLocked', 'make_unique'))
    f = next(x for x in p.fns_q('db0::BDevStorage::BDevStorage') if len(x.sym.pt) >= 3)
    order(ctx, c, 'opened first', f, {'open': Custom(lambda ev: ev.kind == 'call' and ev.sym.q == 'db0::CFile::CFile' , call=lambda s: s.q == 'db0::CFile::CFile'),
                                   'read': Call('db0::CFile::read')}, [('open<read', 'storage is read before the file is locked')], ['open'],
          no_follow=lambda s: s.name not in ('CFile', 'read', 'readConfig'))


class Answer:
    """answer of a call of the interpreter: an error (null), False or True, in whatever form it is tested"""
    values = ('error', 'false', 'true')
    name = 'answer'

    def __init__(self, is_result):
        self.res = is_result

    def eval(self, t, v):
        if not isinstance(t, tuple) or not t:
            return None
        if t[0] == 'un' and t[1] == '!':
            r = self.eval(t[2], v)
            return None if r is None else not r
        if t[0] == 'call' and t[1].endswith('::operator!') and self.res(t[2]):
            return v == 'error'
        if t[0] == 'call' and t[1] in ('PyLong_AsLong', 'PyObject_IsTrue', 'PyLong_AsLongLong', 'PyLong_AsSsize_t') and self.res(t[3][0]):
            return {'error': True, 'false': False, 'true': True}[v]
        if t[0] == 'op' and t[1] in NEG:
            for x, y, op in ((t[2], t[3], t[1]), (t[3], t[2], SWAP[t[1]])):
                if isinstance(x, tuple) and x and x[0] == 'call' and x[1].startswith('Py') and len(x[3]) and self.res(x[3][0]) and y[0] in ('i', 'un'):
                    n = y[1] if y[0] == 'i' else -y[2][1]
                    a = {'error': -1, 'false': 0, 'true': 1}[v]
                    return {'==': a == n, '!=': a != n, '<': a < n, '>': a > n, '<=': a <= n, '>=': a >= n}[op]
                if self.res(x) and y in (('i', None), ('i', 0), ('null',)) and op in ('==', '!='):
                    return (v == 'error') == (op == '==')
                if self.res(x) and isinstance(y, tuple) and y[0] == 'g' and y[1] in ('_Py_TrueStruct', '_Py_FalseStruct') and op in ('==', '!='):
                    return ((v == 'true') == y[1].startswith('_Py_True')) == (op == '==')
        if self.res(t):
            return v != 'error'
        return None


def results(f, names):
    """recogniser for the locals of f that hold the result of one of the calls, and for the calls themselves"""
    held = set()
    for i, (init, w, d) in f.local_info().items():
        if init is not None and any(x[0] == 'c' and hasattr(x[1], 'name') and x[1].name in names for x in rawwalk(init)):
            held.add(i)

    def m(t):
        while isinstance(t, tuple) and t and ((t[0] == 'call' and t[1].rpartition('::')[2] in ('get', 'operator*', 'operator->')) or t[0] in ('new', 'un')):
            t = t[2] if t[0] == 'call' else (t[2][0] if t[0] == 'new' and t[2] else t[-1])
            if t is None:
                return False
        return isinstance(t, tuple) and bool(t) and ((t[0] == 'local' and t[2] in held and t[1] == f.usr) or (t[0] == 'local' and t[2] in held) or (t[0] == 'call' and t[1] in names))
    return m


def rawwalk(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from rawwalk(x)


CALLS = ('PyObject_Call', 'PyObject_CallObject', 'PyObject_CallMethod', 'PyObject_Vectorcall')


@R('obtained', 'the lock object exists only when the lock was really obtained: a refusal and an error while asking both make opening fail', 6)
def _(ctx, p, c):
    f = p.need(LOCK + '::assureLocked')
    ask = Custom(lambda ev: ev.kind == 'call' and ev.sym.name in CALLS, call=lambda s: s.name in CALLS)
    at = [Answer(results(f, CALLS))]
    for v, exp, why in (('false', 'throws', 'a lock that was refused is taken for obtained'), ('error', 'throws', 'an error while locking is taken for success'), ('true', 'returns', 'an obtained lock is refused')):
        guard_rule(ctx, c, 'assureLocked: ' + v, f, {'ask': ask}, at, [({'answer': v}, {'ask': exp}, why)])
    order(ctx, c, 'assureLocked asks', f, {'ask': ask}, [], ['ask'], at, {'answer': 'true'})
    named = any(t == 'acquire' for t in strings(f))
    ctx.check(named, c, 'asks for the lock', 'the function called is not "acquire"', f.where)
    g = p.need(LOCK + '::InterProcessLock', 2)
    order(ctx, c, 'every lock object asks', g, {'ask': Call(LOCK + '::assureLocked'), 'obj': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator=' and F('m_lock')(ev.recv), call=lambda s: s.name == 'operator=')},
          [('obj<ask', 'the lock is asked for before it exists')], ['ask'], follow_labelled=False)
    # asserts may not be the only thing that stops an error
    no = [e for e in f.events() if e[0] == 'call' and e[2][0] == 'c' and e[2][1].name in ('printf', 'abort')]
    ctx.check(not no, c, 'errors are raised', 'an error ends the process', f.where)


def strings(f):
    for e in f.events():
        for x in rawwalk(e):
            if x[0] == 's':
                yield x[1]


@R('flags', 'waiting, its time limit and the forced removal of a lock follow the flags given by the user, at every place the flags pass', 14)
def _(ctx, p, c):
    f = p.need('db0::getKwargs')
    evs = [e for e in f.events() if e[0] == 'call' and e[2][0] == 'c' and 'SetItemString' in e[2][1].name]
    for key, field in (('blocking', 'm_blocking'), ('timeout', 'm_timeout')):
        got = [e for e in evs if any(x == ('s', key) for x in rawwalk(e[2][3]))]
        ctx.check(bool(got) and all(any(x[0] == 'm' and str(x[2]).endswith('::' + field) for x in rawwalk(e[2][3])) for e in got), c, 'argument ' + key,
                  'acquire() does not get %s' % field, f.where)
    g = p.need(LOCK + '::InterProcessLock', 2)
    FO = Flag('force', F('m_force_unlock'))
    rm = Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ('remove', 'unlink'), call=lambda s: s.name in ('remove', 'unlink'))
    guard_rule(ctx, c, 'lock file removed', g, {'rm': rm, 'ask': Call(LOCK + '::assureLocked')}, [FO], [
        ({'force': False}, {'rm': 'never'}, 'the lock of another process is removed'), ({'force': True}, {'rm': 'may'}, 'a forced unlock does nothing')], follow_labelled=False)
    order(ctx, c, 'lock file removed first', g, {'rm': rm, 'ask': Call(LOCK + '::assureLocked')}, [('ask!rm', 'the lock just obtained is removed')], (), [FO], {'force': True}, follow_labelled=False)
    # construction of the flags
    for h in p.fns_q('db0::LockFlags::LockFlags'):
        if h.sym.pt == ['db0::Config']:
            for key in ('blocking', 'timeout', 'force_unlock'):
                es = [e for e in h.events() if e[0] == 'asg' and any(x[0] == 'm' and str(x[2]).endswith('::m_' + key) for x in rawwalk(e[2]))]
                es += [e for e in h.events() if e[0] == 'init' and str(e[2]).endswith('::m_' + key) and any(x[0] == 's' for x in rawwalk(e))]
                ctx.check(bool(es) and all(any(x == ('s', key) for x in rawwalk(e)) for e in es), c, 'flag ' + key, 'the flag is not read from "%s"' % key, h.where)
            bad = [e for e in h.events() if e[0] == 'asg' and any(x[0] == 'm' and str(x[2]).endswith('::m_no_lock') for x in rawwalk(e[2]))]
            ctx.check(not bad, c, 'configuration keeps the lock', 'the configuration switches locking off', h.where)
    for e in [e for h in p.fns_q('db0::LockFlags::LockFlags') for e in h.events() if e[0] == 'init' and str(e[2]).endswith('::m_no_lock')][:1]:
        ctx.check(not any(x == ('i', True) or x == ('i', 1) for x in rawwalk(e[3:])), c, 'locked by default', 'files are not locked by default', '')
    # every function that is given lock flags hands them on
    n = 0
    for u, s in sorted(p.syms.items()):
        ks = [i for i, t in enumerate(s.pt) if 'LockFlags' in t]
        if not ks or u not in p.meta or not s.repo or s.clsq in ('db0::LockFlags', LOCK) or s.name == 'getKwargs':
            continue
        h = p.fn(u)
        if h is None:
            continue
        k = ks[0]
        sinks = []
        for e in h.events():
            if e[0] == 'call' and e[2][0] in ('c', 'n') and (takes(e[2][1]) or e[2][1].name in ('make_shared', 'make_unique') and ('LockFlags' in ' '.join(e[2][1].pt) or LOCK in e[2][1].ret or 'BDevStorage' in e[2][1].ret)):
                sinks.append(e)
        if s.ctor:
            sinks += [e for e in h.events() if e[0] == 'init' and 'lock_flags' in str(e[2])]
        if not sinks:
            ctx.fail(c, '%s: flags' % s.q, 'is given lock flags and does not use them', h.where); n += 1
            continue
        for e in sinks:
            env = Env(h)
            args = e[2][3] if e[0] == 'call' else e[3:]
            ok = any(x[0] == 'param' and x[1] == k for a in args if isinstance(a, tuple) for x in subterms(norm(a, env))) or any(x[0] == 'p' and x[1] == k for x in rawwalk(args))
            ctx.check(ok, c, '%s: flags for %s' % (s.q, e[2][1].q if e[0] == 'call' else e[2]), 'the lock flags of the caller are not handed on', '%s:%d' % (h.where.rpartition(':')[0], e[1]))
            n += 1
    # an open without flags of its own uses those of the workspace
    f = p.need('db0::BaseWorkspace::openMemspace')
    got = []

    def m(ev):
        if ev.kind == 'call' and storage(ev.sym):
            got.append(ev); return True
        return False
    reach(ctx, f, {'x': Custom(m, call=storage)}, (), {}, follow_labelled=False, no_follow=lambda s: True)
    ctx.check(bool(got), c, 'openMemspace opens the storage', 'no storage is opened', f.where)
    for ev in got[:1]:
        ctx.check(any(F('m_default_lock_flags')(x) for a in ev.args for x in subterms(a)) or any('m_default_lock_flags' in show(a) for a in ev.args), c, 'flags of the workspace', 'the flags given to init() are not used: %s' % ', '.join(show(a) for a in ev.args), f.where)
    for q, fn in (('db0::python::PyWorkspace::open', 'open'), ('db0::python::PyWorkspace::initWorkspace', 'Workspace')):
        h = p.need(q)
        k = next(i for i, n_ in enumerate(h.params) if 'lock_flags' in n_)
        env = Env(h)
        es = [e for e in h.events() if e[0] == 'call' and e[2][0] in ('c', 'n') and e[2][1].name == fn and 'Workspace' in e[2][1].q and e[2][1].usr != h.usr]
        used = any(derived_from(h, a, k) for e in es for a in e[2][3])
        ctx.check(bool(es) and used, c, q + ': user flags', 'the lock flags given by the user are not used', h.where)


def derived_from(h, a, k, depth=0):
    if depth > 4:
        return False
    for x in rawwalk(a):
        if x[0] == 'p' and x[1] == k:
            return True
        if x[0] == 'l':
            init = (h.local_info().get(x[1]) or (None,))[0]
            if init is not None and derived_from(h, init, k, depth + 1):
                return True
    return False


def takes(s):
    return any('LockFlags' in t for t in s.pt) and s.repo and s.clsq != 'db0::LockFlags' and s.name not in ('optional', 'operator=')


def storage(s):
    return (s.name in ('make_shared', 'make_unique') and 'BDevStorage' in s.ret) or (s.ctor and s.clsq == 'db0::BDevStorage')


@R('no-other-way', 'a file of dbzero is only ever opened through the locking constructor; the constructor without a lock serves the creation of a new file', 5)
def _(ctx, p, c):
    for name, allowed in (('fopen', {'db0::CFile::create', 'db0::openFile'}),):
        for s in [s for s in p.syms.values() if s.q == name]:
            for u in p.callers().get(s.usr, ()):
                ctx.check(p.syms[u].q in allowed, c, '%s in %s' % (name, p.syms[u].q), 'opens a file without a lock', loc(p, u))
    for q in ('open', 'freopen', 'fdopen', 'creat', 'open64'):
        for s in [s for s in p.syms.values() if s.q == q and not s.repo]:
            for u in p.callers().get(s.usr, ()):
                if p.syms[u].repo:
                    ctx.fail(c, '%s in %s' % (q, p.syms[u].q), 'opens a file without a lock', loc(p, u))
    opens = [s for s in p.syms.values() if s.q == 'db0::openFile']
    for s in opens:
        for u in p.callers().get(s.usr, ()):
            ctx.check(p.syms[u].q == 'db0::CFile::CFile', c, 'openFile in %s' % p.syms[u].q, 'opens a file past the lock', loc(p, u))
    # who asks for no lock
    n = 0
    for s in list(p.syms.values()):
        if s.q == 'db0::CFile::CFile' and len(s.pt) == 2:
            for u in p.callers().get(s.usr, ()):
                if p.syms[u].q == 'db0::CFile::CFile':
                    continue
                n += 1
                h = p.fn(u)
                made_here = [e for e in h.events() if e[0] == 'call' and e[2][0] == 'c' and e[2][1].q == 'db0::CFile::create']
                readonly = all(any(x[0] == 'e' and str(x[1]).endswith('READ_ONLY') for x in rawwalk(e[2][3])) for e in h.events() if e[0] in ('call',) and e[2][0] == 'n' and e[2][1].usr == s.usr)
                ctx.check(bool(made_here) or readonly, c, 'unlocked file in %s' % p.syms[u].q, 'opens an existing file for writing without a lock', h.where)
                if made_here:
                    order(ctx, c, 'new file in %s' % p.syms[u].q, h, {'new': Call('db0::CFile::create'), 'open': Custom(lambda ev: ev.kind == 'call' and ev.sym.q == 'db0::CFile::CFile', call=lambda s: s.q == 'db0::CFile::CFile')},
                          [('new<open', 'opens a file it has not created')], no_follow=lambda s: True)
        if s.q == 'db0::LockFlags::LockFlags' and s.pt == ['bool']:
            for u in p.callers().get(s.usr, ()):
                ctx.check(p.syms[u].q == 'db0::CFile::CFile' and len(p.syms[u].pt) == 2, c, 'no lock asked for in %s' % p.syms[u].q, 'switches locking off', loc(p, u))
        if s.q == 'db0::BDevStorage::BDevStorage' and len(s.pt) >= 2 and s.ctor:
            for u in p.callers().get(s.usr, ()):
                h = p.fn(u)
                if h is None:
                    continue
                for e in h.events():
                    if e[0] == 'call' and e[2][0] == 'n' and e[2][1].usr == s.usr:
                        off = len(e[2][3]) > 2 and any((x[0] == 'm' and 'm_no_lock' in str(x[2])) or x == ('i', True) for x in rawwalk(e[2][3][2]))
                        ctx.check(not off, c, 'storage opened in %s' % p.syms[u].q, 'opens a storage without a lock', h.where)


@R('held', 'the lock is held as long as the file is open: it is given up only when the file is closed, after everything was written, and then it is given up', 8)
def _(ctx, p, c):
    REL = Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ('reset', 'operator=', 'release', 'swap') and F('m_lock')(ev.recv), call=lambda s: s.name in ('reset', 'operator=', 'release', 'swap'))
    f = p.need('db0::CFile::close')
    order(ctx, c, 'close: after the file', f, {'close': CT('fclose'), 'rel': REL}, [('close<rel', 'the lock is given up while the file is still open')], ['close', 'rel'], [CL, FILE], {'cl': True, 'file': True})
    f = p.need('db0::CFile::~CFile')
    order(ctx, c, 'destructor: closes the file', f, {'close': CT('fclose'), 'rel': REL}, [('close<rel', 'the lock is given up while the file is still open')], ['close'], [CL, FILE], {'cl': True, 'file': True})
    users = set()
    for u in p.meta:
        if 'db0::CFile::m_lock' in p.meta[u][1]:
            users.add(p.syms[u].q)
    for q in sorted(users):
        ctx.check(q in ('db0::CFile::CFile', 'db0::CFile::close', 'db0::CFile::~CFile'), c, 'lock used in ' + q, 'the lock is handled outside opening and closing', '')
    held = LOCK + '::m_lock'
    for u in sorted(p.meta):
        if held in p.meta[u][1] and p.syms[u].repo:
            s = p.syms[u]
            if any(t == 'release' for t in strings(p.fn(u))):
                ctx.check(s.q == LOCK + '::~InterProcessLock', c, 'lock released in ' + s.q, 'the lock is released while the object lives', loc(p, u))
    f = p.need(LOCK + '::~InterProcessLock')
    V = Flag('valid', calls('db0::python::PyToolkit::isValid'))
    rel = Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'PyObject_CallMethod' and any(x == ('s', 'release') for a in ev.args for x in subterms(a)), call=lambda s: s.name == 'PyObject_CallMethod')
    guard_rule(ctx, c, 'released with the object', f, {'rel': rel}, [V], [({'valid': True}, {'rel': 'must'}, 'the lock is kept after the file was closed')])
    f = p.need('db0::BDevStorage::close')
    streams = CallRx(r'^db0::(DRAM_IOStream|BlockIOStream|MetaIOStream|ChangeLogIOStream)::close$|^db0::BDevStorage::flush$|^db0::BlockIOStream::flush$')
    order(ctx, c, 'storage closed', f, {'flush': Call('db0::BDevStorage::flush'), 'st': streams, 'file': Call('db0::CFile::close')},
          [('file!st', 'the file is closed and unlocked before its streams'), ('file!flush', 'the file is unlocked before everything is written')], ['file', 'flush', 'st'], [MODE], RW, follow_labelled=False,
          no_follow=lambda s: s.name in ('flush', 'close'))
    f = p.need('db0::PrefixImpl::close')
    order(ctx, c, 'prefix closed', f, {'st': Call('db0::BaseStorage::close')}, [], ['st'], follow_labelled=False, no_follow=lambda s: True)


def loc(p, u):
    f = p.fn(u)
    return f.where if f else ''
