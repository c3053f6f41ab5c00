"""C04 read-only prefixes and snapshots are never modified"""
import re
from ..q import *
from ..report import Rules

R = Rules()
check = R.check
FLOCK = 'db0::FixtureLock::FixtureLock'
STATE = Enum('mode', any_of(fld('m_access_type'), lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].endswith('::getAccessType'), fld('m_access_mode'), shows(r'access_type\)?(\.value\(\))?$')),
             ['READ_ONLY', 'READ_WRITE'])


class Access(Enum):
    """how a prefix is open, read directly or through checkAccessType"""
    def eval(self, t, v):
        if isinstance(t, tuple) and t and t[0] == 'un' and t[1] == '!':
            r = self.eval(t[2], v) if isinstance(t[2], tuple) and t[2] and t[2][0] == 'call' else None
            return None if r is None else not r
        if calls('checkAccessType')(t) and len(t[3]) == 2 and 'READ_WRITE' in show(t[3][1]):
            return v == 'READ_WRITE'
        return Enum.eval(self, t, v)


ACC = Access('mode', any_of(fld('m_access_type'), lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].endswith('::getAccessType')), ['READ_ONLY', 'READ_WRITE'])
# operations of the persistent classes that change stored data
WRITERS = ('incRef', 'decRef', 'dropInstance', 'append', 'setItem', 'insert', 'pop', 'clear', 'add', 'remove', 'flush', 'swapAndPop', 'set', 'unSingleton',
           'touch', 'postInit', 'moveTo', 'destroy', 'erase', 'update', 'push_back', 'emplace', 'extend', 'setFixture', 'setSingletonAddress')
HOLD = {}


def extractor(s):
    return s.name == 'modifyExt' and s.clsq.endswith('PyWrapper') and not s.cls.rstrip('> ').endswith('false') or re.match(r'(try)?[eE]xtractMutable', s.name)

# wrappers of the extraction itself
PLUMBING = re.compile(r'^(try)?extractMutable|^(makeNew|makeNewAs|modifyExt)$')
# these run below a commit or inside the object a member is created for; the fixture lock is taken by their caller (see 'members')
INTERNAL = {'db0::object_model::createMember': 'creates a value for an object whose prefix the caller locked (see members)',
            'db0::python::decRefMemoImpl': 'called while the tag index is flushed (fixture being committed)',
            'db0::object_model::IndexBuilder::flush::(lambda)::operator()': 'runs while an index is flushed for a commit',
            'db0::object_model::TagIndex::flush::(lambda)::operator()': 'runs while tags are flushed for a commit'}


def held(t):
    """the operation's target is the persistent value of a language object, taken for modification"""
    return any(x[0] == 'call' and isinstance(x[1], str) and (x[1].endswith('PyWrapper::modifyExt') or re.search(r'::(try)?[eE]xtractMutable\w+$', x[1])) for x in subterms(t) if isinstance(x, tuple) and x)


def mutators(p):
    if 'm' not in HOLD:
        us = set()
        for s in p.syms.values():
            if extractor(s):
                us |= p.callers().get(s.usr, set())
        out = {}
        for u in us:
            s = p.syms[u]
            if not PLUMBING.match(s.name):
                f = p.fn(u)
                if f is not None and not f.nocfg:
                    out[u] = f
        HOLD['m'] = out
    return HOLD['m']


def writer(sym):
    return sym.name in WRITERS and not sym.const and sym.repo and (sym.clsq or '').startswith(('db0::object_model::', 'db0::ObjectBase', 'db0::o_bvector', 'db0::v_'))


def L():
    return {'lock': Call(FLOCK), 'mut': Custom(lambda ev: ev.kind == 'call' and ev.recv is not None and writer(ev.sym) and held(ev.recv), call=writer)}


WHY = 'a stored object is changed before the prefix was locked for modification (a read-only prefix or snapshot would be changed)'
NOF = dict(no_follow=lambda s: writer(s) or s.name in ('FixtureLock',) or not s.repo, follow_labelled=False)


def target(t):
    """the object passed in by the caller that is being modified (None: a value created or looked up here)"""
    for x in subterms(t):
        if isinstance(x, tuple) and x and x[0] == 'call' and isinstance(x[1], str) and x[1].endswith('PyWrapper::modifyExt'):
            b = x[2]
            if isinstance(b, tuple) and b and b[0] in ('p', 'param', 'idx', '[]') or (isinstance(b, tuple) and re.match(r'^\$\w+(\[[^\]]*\])?$', show(b))):
                return b
    return None


def explore(ctx, f):
    roots, decl = set(), {}
    lb = L()

    def saw(ev):
        r = lb['mut']._m(ev)
        if r:
            roots.add(target(ev.recv))
        return r

    def bound(ev):
        if ev.kind == 'decl' and ev.rhs is not None:
            decl.setdefault(ev.lhs, set()).add(ev.rhs)
        return False
    q = Seq({'lock': lb['lock'], 'mut': Custom(saw, call=writer), 'decl': Custom(bound)}, before=[('lock', 'mut', WHY)], **NOF)
    _, viol = run_seq(ctx, f, q)
    hits = q.hits['mut']

    def mentions(t, r):
        return any(x == r or x in decl and any(r in list(subterms(d)) for d in decl[x]) for x in subterms(t))
    for r in roots - {None}:
        lock = Custom(lambda ev: lb['lock'].match(ev) and ev.args and mentions(ev.args[0], r), call=lambda s: s.q == FLOCK)
        q = Seq({'lock': lock, 'mut': Custom(lambda ev: lb['mut']._m(ev) and target(ev.recv) == r, call=writer)},
                before=[('lock', 'mut', 'an object is changed while the prefix locked for modification is not the one it belongs to')], **NOF)
        _, v = run_seq(ctx, f, q)
        for k, w in v.items():
            if not any(k[1] == k2[1] for k2 in viol):
                viol[k] = w
    return hits, viol


@R('lock', 'locking a prefix for modification is refused, before anything else happens, unless it is open for writing; the lock is held against commits and refreshes', 3)
def _(ctx, p, c):
    f = p.need('db0::FixtureLock::FixtureLock', 1)
    up = Call('db0::Fixture::onUpdated')
    guard_rule(ctx, c, f.q, f, {'upd': up}, (MODE,), [(RO, {'_x': 'throws', 'upd': 'never'}, 'a read-only prefix is locked for modification'), (RW, {'upd': 'must', '_x': 'returns'}, 'the modification is not announced')], follow_labelled=False)
    r = p.recs.get('db0::FixtureLock')
    ctx.check(any('shared_lock' in fl[1] for fl in r['fields']), c, 'the lock is held', 'no lock is kept for the duration of the modification')
    order(ctx, c, 'commit lock', f, {'take': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'shared_lock' and ev.args and F('m_commit_mutex')(ev.args[0]), call=lambda s: s.name == 'shared_lock')}, (), ['take'], (MODE,), RW)


@R('locked-mutation', 'every operation of the language interface that changes a stored object locks the prefix of that object for modification first, on every path', 35)
def _(ctx, p, c):
    fl = {s.usr for s in p.sym_q(FLOCK)}
    for u, f in sorted(mutators(p).items(), key=lambda x: x[1].q + str(x[1].sym.pt)):
        if f.q in INTERNAL:
            continue
        # the caller proves that it holds the lock by passing it
        if any('FixtureLock' in t for t in f.sym.pt):
            continue
        inst = '%s(%s)' % (f.q, ', '.join(f.sym.pt)[:90])
        try:
            hits, viol = explore(ctx, f)
        except AnalysisError as e:
            ctx.broken('%s: %s: %s' % (c, inst, e)); continue
        if viol:
            # a helper: whoever calls it has to hold the lock
            top = [x for x in climb(p, u)]
            ok = bool(top)
            for t in top:
                h, v = explore(ctx, p.fn(t))
                if v or not h:
                    ok = False
            if not ok:
                for (why, fn), wh in sorted(viol.items()):
                    ctx.fail(c, inst, why, wh)
                continue
        if hits:
            ctx.ok(c, inst, f.where)


def climb(p, u, d=0, seen=None):
    """the functions a helper is finally called from (outermost callers below the language interface)"""
    seen = seen if seen is not None else {u}
    out = []
    for x in p.callers().get(u, ()):
        if x in seen or x not in p.meta:
            continue
        seen.add(x)
        up = [y for y in p.callers().get(x, ()) if y in p.meta]
        if d >= 2 or not up or p.syms[x].name.startswith(('PyAPI_', 'try')):
            out.append(x)
        else:
            out += climb(p, x, d + 1, seen)
    return out


@R('members', 'storing a value in an object locks the prefix the value, and the object it refers to, belongs to, before a reference is taken or data is moved or created', 11)
def _(ctx, p, c):
    lock = Call(FLOCK)
    create = CallRx(r'^db0::object_model::(createMember|createObjectMember)$')
    n = 0
    for f in p.fns_q('db0::object_model::ObjectImplBase::setPreInit'):
        if len(f.params) != 3:
            continue
        n += 1
        order(ctx, c, f.q + ' ' + f.sym.cls[-60:], f, {'lock': lock, 'create': create, 'field': Call('db0::object_model::Class::addField')},
              [('lock<create', 'a member value is created before the prefix was locked'), ('lock<field', 'the class is extended before the prefix was locked')], (),
              no_follow=lambda s: s.name in ('createMember', 'recognizeType', 'addField', 'findField', 'removePreInit', 'set', 'remove'), follow_labelled=False)
    if not n:
        raise AnalysisError('setPreInit not found')
    inc = Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ('incRef', 'moveTo') and not ev.sym.const, call=lambda s: s.name in ('incRef', 'moveTo'))
    for f in p.fns_q('db0::object_model::resolveForFixture'):
        order(ctx, c, '%s<%s>' % (f.q, f.sym.ta), f, {'lock': lock, 'ref': inc}, [('lock<ref', 'a reference is taken on an object whose prefix was not locked')], (),
              no_follow=lambda s: s.name in ('createMember', 'incRef', 'moveTo', 'tryWeakProxy'), follow_labelled=False)


@R('create', 'collections, byte arrays and tuples are created, and objects stored, only after the prefix was locked for modification', 8)
def _(ctx, p, c):
    n = 0
    stores = lambda s: s.name == 'makeNew' and s.clsq.endswith('PyWrapper') and not s.cls.rstrip('> ').endswith('false') and any('swine_ptr<db0::Fixture>' in t or 'FixtureLock' in t for t in s.pt)
    for u, m in p.meta.items():
        s = p.syms[u]
        if not (s.q.startswith('db0::python::') and re.match(r'try(Make|Load|MemoObject_postInit|Copy)?', s.name)) or s.name.startswith(('PyAPI_', 'runSafe')):
            continue
        mk = [x for x in m[0] if x in p.syms and stores(p.syms[x])]
        if not mk:
            continue
        f = p.fn(u)
        if f is None or f.nocfg or any('FixtureLock' in t for t in f.sym.pt):
            continue
        n += 1
        order(ctx, c, f.q + ' ' + s.usr[-24:], f, {'lock': Call(FLOCK), 'mk': Custom(lambda ev: ev.kind == 'call' and stores(ev.sym), call=stores)},
              [('lock<mk', 'a persistent object is created before the prefix was locked')], (), follow_labelled=False, no_follow=lambda s: s.name == 'makeNew')
    for f in p.fns_q('db0::python::tryMemoObject_postInit'):
        order(ctx, c, f.q + ' ' + f.usr[-24:], f, {'lock': Call(FLOCK), 'post': Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ('postInit', 'addTag'), call=lambda s: s.name in ('postInit', 'addTag'))},
              [('lock<post', 'the object is stored before the prefix was locked')], ['lock', 'post'], follow_labelled=False)


@R('types', 'a class or enumeration that does not exist on a prefix is added only to a prefix open for writing; for the others the lookup reports that there is none', 6)
def _(ctx, p, c):
    f = p.need('db0::object_model::EnumFactory::tryGetOrCreateEnum', 1, pt=['EnumFullDef'])
    made = lambda cls, n: Custom(lambda ev: ev.kind == 'call' and ev.sym.ctor and ev.sym.clsq == cls and len(ev.args) >= n, call=lambda s: s.ctor and s.clsq == cls)
    ins = Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ('insert_equal', 'incRef'), call=lambda s: s.name in ('insert_equal', 'incRef'))
    why = 'created on a read-only prefix'
    for g, cls, n in ((f, 'db0::object_model::Enum', 4), (p.need('db0::object_model::ClassFactory::tryGetOrCreateType'), 'db0::object_model::Class', 6)):
        guard_rule(ctx, c, g.q, g, {'new': made(cls, n), 'ins': ins}, (ACC,), [(RO, {'new': 'never', 'ins': 'never', '_x': 'returns'}, why), (RW, {'new': 'may', 'ins': 'may'}, 'never created on a writable prefix')],
                   follow_labelled=False, no_follow=lambda s: s.name == 'getOrCreateType')
    for g in [x for x in p.fns_q('db0::checkAccessType') if len(x.params) == 2 and 'optional' not in x.sym.pt[1]]:
        asked = Enum('asked', param(idx=1), ['READ_ONLY', 'READ_WRITE'])
        for a in ('READ_ONLY', 'READ_WRITE'):
            for m in ('READ_ONLY', 'READ_WRITE'):
                no = a == 'READ_WRITE' and m == 'READ_ONLY'
                order(ctx, c, '%s %s on %s' % (g.q, a, m), g, {}, (), (), (asked, MODE), {'asked': a, 'mode': m},
                      lambda seen, o, no=no: None if bool(o.ret) == (not no) and o.ret is not UNK else 'write access to a read-only prefix is granted' if no else 'access is refused', follow_labelled=False)


@R('tags', 'tags are added and removed only when every object concerned belongs to a prefix open for writing', 4)
def _(ctx, p, c):
    empty = Flag('empty', F('m_empty'))
    for m in ('add', 'remove'):
        f = p.need('db0::object_model::ObjectTagManager::' + m, 2)
        Lb = {'do': Call('db0::object_model::ObjectTagManager::ObjectInfo::' + m)}
        guard_rule(ctx, c, f.q, f, Lb, (empty, STATE), [({'empty': False, 'mode': 'READ_ONLY'}, {'do': 'never', '_x': 'throws'}, 'tags of a read-only object are changed'),
                                                     ({'empty': False, 'mode': 'READ_WRITE'}, {'do': 'must'}, 'tags are not changed')], follow_labelled=False)
    for f in p.fns_q('db0::object_model::ObjectTagManager::ObjectTagManager'):
        if len(f.params) != 2:
            continue
        loc = Enum('mode', any_of(shows(r'm_access_mode$')), ['READ_ONLY', 'READ_WRITE'])
        dn = Assign('db0::object_model::ObjectTagManager::m_access_mode', value=lambda t: 'READ_ONLY' in show(t))
        guard_rule(ctx, c, f.q, f, {'ro': dn}, (loc,), [({'mode': 'READ_ONLY'}, {'ro': 'must'}, 'one read-only object among several does not make the whole operation read-only'), ({'mode': 'READ_WRITE'}, {'ro': 'never'}, 'writable objects are treated as read-only')], follow_labelled=False, loop_once=True)
    f = p.need('db0::object_model::ObjectTagManager::ObjectInfo::ObjectInfo', 1, pt=['_object'])
    order(ctx, c, f.q, f, {'mode': Assign('db0::object_model::ObjectTagManager::ObjectInfo::m_access_mode', value=lambda t: 'getAccessType()' in show(t), init=True)}, (), ['mode'])


@R('snapshots', 'a snapshot hands out read-only prefixes only, refuses write access, and its pages are neither committed nor replaced', 11)
def _(ctx, p, c):
    for f in p.fns_q('db0::WorkspaceView::tryGetFixture'):
        ro = Enum('mode', any_of(shows(r'access_type'), lambda t: False), ['READ_ONLY', 'READ_WRITE'])
        has = Flag('asked', shows(r'^\$access_type(\.has_value\(\))?$'))
        guard_rule(ctx, c, f.q + ' ' + f.sym.pt[0], f, {'snap': Call('db0::Fixture::getSnapshot')}, (has, ro, Flag('closed', F('m_closed'))),
                   [({'asked': True, 'mode': 'READ_WRITE', 'closed': False}, {'snap': 'never', '_x': 'throws'}, 'a snapshot accepts a request for write access'),
                    ({'asked': True, 'mode': 'READ_ONLY', 'closed': False}, {'snap': 'may', '_x': 'returns'}, 'a snapshot is not accessible for reading')], follow_labelled=False)
        # the fixture initializer is told that this is a read-only snapshot
        order(ctx, c, f.q + ' init ' + f.sym.pt[0], f, {'bad': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator()' and len(ev.args) == 4 and not (lit(False)(ev.args[1]) and lit(True)(ev.args[2]) and lit(True)(ev.args[3])), call=lambda s: s.name == 'operator()'),
                                                'init': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator()' and len(ev.args) == 4, call=lambda s: s.name == 'operator()')},
              [('-bad', 'the snapshot is initialized as writable or as a head')], (), follow_labelled=False, no_follow=lambda s: s.clsq in ('db0::Workspace', 'db0::Snapshot'))
    for q, why in (('db0::PrefixViewImpl::getAccessType', 'a snapshot claims to be writable'), ('db0::WorkspaceView::tryGetAccessType', 'a snapshot claims to be writable')):
        f = p.need(q)
        order(ctx, c, q, f, {'ro': Ret(lambda t: 'READ_ONLY' in show(t)), 'other': Ret(lambda t: 'READ_ONLY' not in show(t))}, [('-other', why)], ['ro'], follow_labelled=False)
    f = p.need('db0::PrefixViewImpl::commit')
    guard_rule(ctx, c, f.q, f, {}, (), [({}, {'_x': 'throws'}, 'a snapshot can be committed')], follow_labelled=False)
    # pages taken over from the live cache must not be overwritten by later transactions
    f = p.need('db0::PrefixViewImpl::mapPage')
    order(ctx, c, f.q, f, {'fz': Call('db0::ResourceLock::freeze'), 'ins': Call('db0::SnapshotCache::insert')}, [('fz<ins', 'a page shared with the live cache is not frozen')], follow_labelled=False)
    for nm in ('mapPage', 'mapWideRange', 'mapBoundaryRange'):
        for f in p.fns_q('db0::PrefixViewImpl::' + nm):
            bad = Custom(lambda ev: ev.kind == 'call' and ev.sym.clsq == 'db0::PrefixCache' and any('AccessOptions::write' in show(a) for a in ev.args), call=lambda s: s.clsq == 'db0::PrefixCache')
            order(ctx, c, f.q + ' read access', f, {'bad': bad}, [('-bad', 'a snapshot maps its pages for writing')], follow_labelled=False)


@R('storage', 'a file opened read-only is never written, flushed or created: it is opened without write access and every operation that would write refuses', 9)
def _(ctx, p, c):
    f = p.need('db0::openFile')
    mode = Enum('mode', param(idx=1), ['READ_ONLY', 'READ_WRITE'])
    for m in ('READ_ONLY', 'READ_WRITE'):
        def opens(ev, m=m, w=None):
            t = ev.args[1]
            while t and t[0] not in ('s',) and len(t) == 4 and t[0] in ('?', 'cond'):
                v = mode.eval(t[1], m)
                t = t[2] if v else t[3]
            return ('w' in show(t) or 'a' in show(t) or '+' in show(t)) == w
        op = lambda w: Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'fopen' and opens(ev, w=w), call=lambda s: s.name == 'fopen')
        order(ctx, c, f.q + ' ' + m, f, {'w': op(True), 'r': op(False)}, [('-w' if m == 'READ_ONLY' else '-r', 'a read-only file is opened for writing' if m == 'READ_ONLY' else 'a writable file is opened without write access')],
              ['r' if m == 'READ_ONLY' else 'w'], (mode,), {'mode': m}, follow_labelled=False)
    f = p.need('db0::CFile::fsync')
    guard_rule(ctx, c, f.q, f, {'sync': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'fsync' and not ev.sym.repo, call=lambda s: s.name == 'fsync' and not s.repo)}, (MODE,),
               [(RO, {'sync': 'never', '_x': 'throws'}, 'a read-only file is synced'), (RW, {'sync': 'must'}, 'the file is not synced')], follow_labelled=False)
    f = p.need('db0::BDevStorage::flush')
    W = {'w': Call(['db0::DRAM_IOStream::flushUpdates', 'db0::BlockIOStream::flush', 'db0::Diff_IO::flush', 'db0::CFile::fsync'])}
    guard_rule(ctx, c, f.q, f, W, (MODE,), [(RO, {'w': 'never', '_x': 'throws'}, 'a read-only storage is flushed'), (RW, {'w': 'may'}, 'nothing is flushed')], follow_labelled=False)
    f = p.need('db0::BDevStorage::close')
    guard_rule(ctx, c, f.q, f, {'flush': Call('db0::BDevStorage::flush')}, (MODE,), [(RO, {'flush': 'never'}, 'closing a read-only prefix writes to it'), (RW, {'flush': 'must'}, 'closing loses unflushed data')], follow_labelled=False)
    # streams
    want = Enum('want', any_of(param(name='access_type'), fld('m_access_type')), ['READ_ONLY', 'READ_WRITE'])
    have = Enum('have', shows(r'm_file\.getAccessType\(\)$|\$file\.getAccessType\(\)$|\$m_file\.getAccessType\(\)$'), ['READ_ONLY', 'READ_WRITE'])
    for f in p.fns_q('db0::BlockIOStream::BlockIOStream'):
        if len(f.params) < 5:
            continue
        order(ctx, c, f.q, f, {}, (), (), (have, want), {'want': 'READ_WRITE', 'have': 'READ_ONLY'}, lambda seen, o: 'a stream is opened for writing on a read-only file' if o.kind == 'ret' else None, follow_labelled=False, kinds=('ret', 'throw'))
        order(ctx, c, f.q + ' fresh', f, {'mod': Assign('db0::BlockIOStream::m_modified', value=lambda t: lit(True)(t))}, [('-mod', 'a stream of a read-only file starts out modified')], (), (have, want), {'want': 'READ_ONLY', 'have': 'READ_ONLY'}, follow_labelled=False)
    # a prefix is created only on request for write access
    f = p.need('db0::BaseWorkspace::openMemspace')
    acc = Enum('mode', any_of(param(name='access_type'), shows(r'^\$access_type$')), ['READ_ONLY', 'READ_WRITE'])
    ex = Flag('exists', shows(r'\.exists\(.*\)$'))
    guard_rule(ctx, c, f.q, f, {'create': Call('db0::BDevStorage::create'), 'format': Call('db0::MetaAllocator::formatPrefix')}, (acc, ex, Flag('new', param(name='new_file_created'))),
               [({'mode': 'READ_ONLY', 'exists': False, 'new': False}, {'create': 'never', '_x': 'throws'}, 'opening a missing prefix read-only creates it'),
                ({'mode': 'READ_ONLY', 'exists': True, 'new': False}, {'create': 'never', 'format': 'never', '_x': 'returns'}, 'opening a prefix read-only formats it'),
                ({'mode': 'READ_WRITE', 'exists': True, 'new': False}, {'create': 'never', 'format': 'never'}, 'opening an existing prefix overwrites it'),
                ({'mode': 'READ_WRITE', 'exists': False, 'new': True}, {'create': 'must', 'format': 'must'}, 'a new prefix is not created')], follow_labelled=False)
    # pages of a read-only prefix are mapped without copy-on-write
    for f in p.fns_q('db0::PrefixImpl::mapRange'):
        if len(f.params) == 4:
            ow = Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'set' and ev.args and 'no_cow' in show(ev.args[0]) and (len(ev.args) < 2 or lit(True)(ev.args[1])), call=lambda s: s.name == 'set')
            guard_rule(ctx, c, f.q, f, {'nocow': ow}, (MODE,), [(RO, {'nocow': 'must'}, 'pages of a read-only prefix are prepared for modification')], follow_labelled=False,
                       no_follow=lambda s: s.name in ('mapPage', 'mapBoundaryRange', 'mapWideRange', 'adjustAccessMode', 'getBuffer'))


@R('workspace', 'commit and flush skip prefixes open for reading, a commit of one is refused, closing one does not commit, and nothing is collected or recomputed on it', 8)
def _(ctx, p, c):
    for q, op in (('db0::Workspace::commit', 'db0::Fixture::commit'), ('db0::Workspace::flush', 'db0::Fixture::flush'), ('db0::BaseWorkspace::commit', 'db0::Memspace::commit')):
        if not p.fns_q(q):
            continue
        for f in p.fns_q(q):
            one = len(f.params) > 0
            cond = (MODE, Flag('active', F('m_atomic_context_ptr')))
            nf = lambda s: s.name in ('findFixture', 'tryFindFixture', 'getFixture', 'tryGetFixture')
            e = {'do': 'never', '_x': 'throws'} if one and q.endswith('Workspace::commit') else {'do': 'never'}
            guard_rule(ctx, c, '%s/%d' % (f.q, len(f.params)), f, {'do': Call(op)}, cond,
                       [(dict(RO, active=False), e, 'a read-only prefix is committed'), (dict(RW, active=False), {'do': 'may'}, 'a writable prefix is skipped')], follow_labelled=False, no_follow=nf)
    f = p.need('db0::Fixture::close')
    guard_rule(ctx, c, f.q, f, {'commit': Call(['db0::Fixture::tryCommit', 'db0::GC0::flushAllOf'])}, (MODE,), [(RO, {'commit': 'never'}, 'closing a read-only prefix commits it'), (RW, {'commit': 'may'}, 'closing does not commit')], follow_labelled=False)
    f = p.need('db0::GC0::tryRemove')
    at = (Flag('ro', F('m_read_only')),)
    Ld = {'plan': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator[]' and F('m_scheduled_for_deletion')(ev.recv), call=lambda s: s.name == 'operator[]'), 'lock': Call(FLOCK)}
    guard_rule(ctx, c, f.q, f, {'plan': Ld['plan'], 'lock': Ld['lock']}, at, [({'ro': True}, {'plan': 'never', 'lock': 'never'}, 'an object of a read-only prefix is dropped'), ({'ro': False}, {'plan': 'may', 'lock': 'may'}, 'objects are never dropped')], follow_labelled=False)
    f = p.need('db0::object_model::Schema::flush')
    mode = MODE
    upd = Call('db0::object_model::Schema::update')
    b = Flag('builder', any_of(F('m_builder'), shows(r'm_builder\.(operator bool|get)\(\)$')))
    guard_rule(ctx, c, f.q, f, {'upd': upd}, (mode, b), [(dict(RO, builder=False), {'upd': 'never'}, 'the schema of a read-only prefix is updated'), (dict(RW, builder=False), {'upd': 'may'}, 'the schema is never updated')], follow_labelled=False)
    # opening: leftovers of unreferenced objects are collected on writable prefixes only
    n = 0
    for u, m in p.meta.items():
        s = p.syms[u]
        if any(x in p.syms and p.syms[x].q == 'db0::GC0::collect' for x in m[0]) and not s.q.startswith('db0::GC0'):
            f = p.fn(u)
            n += 1
            guard_rule(ctx, c, 'collect in ' + f.q[:80], f, {'collect': Call('db0::GC0::collect')}, (MODE,), [(RO, {'collect': 'never'}, 'unreferenced objects are collected on a read-only prefix'), (RW, {'collect': 'may'}, 'unreferenced objects are never collected')], follow_labelled=False)
    if not n:
        raise AnalysisError('GC0::collect is not called from anywhere')
