"""C05 an atomic operation is applied completely or not at all"""
import re
from ..q import *
from ..report import Rules

R = Rules()
check = R.check
NF = Flag('nf', shows(r'operator\[\]\((AccessOptions::)?no_flush\)$'))
ATOMIC = Flag('atomic', fld('m_atomic'))
ACTIVE = Flag('active', any_of(fld('m_atomic_context_ptr')))
is_fn = lambda *n: (lambda s: s.name in n)
PHASES = ('beginAtomic', 'endAtomic', 'cancelAtomic')


def nul(t):
    return t in (('i', None), ('i', 0)) or show(t) in ('None', 'nullptr')


@R('phases', 'beginning, completing and cancelling an atomic operation involve the very same components on every path', 12)
def _(ctx, p, c):
    comps = {
        'db0::Fixture': [('db0::MetaAllocator', F('m_meta_allocator')), ('db0::GC0', None), ('db0::VObjectCache', F('m_v_object_cache')), ('db0::Memspace', THIS)],
        'db0::Memspace': [('db0::Prefix', F('m_prefix'))],
        'db0::MetaAllocator': [('db0::MetaAllocator::RealmsVector', F('m_realms'))],
    }
    for cls, cs in comps.items():
        for ph in PHASES:
            L = {'c%d' % i: Call('%s::%s' % (q, ph), recv=r) for i, (q, r) in enumerate(cs)}
            order(ctx, c, '%s::%s' % (cls, ph), p.need('%s::%s' % (cls, ph)), L, (), list(L), follow_labelled=False)
    for ph in PHASES:
        f = p.need('db0::MetaAllocator::RealmsVector::' + ph)
        guard_rule(ctx, c, f.q, f, {'slab': Call('db0::SlabManager::' + ph)}, (), [({}, {'slab': 'may'}, 'the realms do not take part')], follow_labelled=False)


@R('phase-flag', 'every component records that an atomic operation is running from its beginning to its end, on every path', 18)
def _(ctx, p, c):
    for cls in ('db0::MetaAllocator', 'db0::GC0', 'db0::VObjectCache', 'db0::SlabManager', 'db0::Memspace', 'db0::PrefixImpl'):
        for ph in PHASES:
            f = p.need('%s::%s' % (cls, ph))
            want = ph == 'beginAtomic'
            L = {'set': Assign(cls + '::m_atomic', value=lit(want)), 'other': Assign(cls + '::m_atomic', value=lambda t, w=want: not lit(w)(t))}
            order(ctx, c, f.q, f, L, [('-other', 'the flag gets another value')], ['set'], (), {}, follow_labelled=False)


@R('workspace-phases', 'an atomic operation covers exactly the prefixes open for writing; the context is recorded from its beginning to its end', 11)
def _(ctx, p, c):
    for ph, fx in (('preAtomic', 'preAtomic'), ('beginAtomic', 'beginAtomic'), ('endAtomic', 'endAtomic'), ('cancelAtomic', 'cancelAtomic'), ('detach', 'detach')):
        f = p.need('db0::Workspace::' + ph)
        L = {'fx': Call('db0::Fixture::' + fx), 'set': Assign('db0::Workspace::m_atomic_context_ptr')}
        guard_rule(ctx, c, f.q + ' on writable prefixes only', f, L, (MODE,),
                   [(RW, {'fx': 'may'}, 'a writable prefix does not take part'), (RO, {'fx': 'never'}, 'a read-only prefix takes part')], follow_labelled=False)
        if ph in PHASES:
            want = (lambda t: not nul(t)) if ph == 'beginAtomic' else nul
            order(ctx, c, f.q + ' context', f, {'set': Assign('db0::Workspace::m_atomic_context_ptr', value=want), 'bad': Assign('db0::Workspace::m_atomic_context_ptr', value=lambda t: not want(t)), 'fx': L['fx']},
                  [('-bad', 'the recorded context is wrong')], ['set'], follow_labelled=False)
    for ph in PHASES:
        f = p.need('db0::Fixture::' + ph)
        want = (lambda t: not nul(t)) if ph == 'beginAtomic' else nul
        order(ctx, c, f.q + ' context', f, {'set': Assign('db0::Fixture::m_atomic_context_ptr', value=want), 'bad': Assign('db0::Fixture::m_atomic_context_ptr', value=lambda t: not want(t))},
              [('-bad', 'the recorded context is wrong')], ['set'], follow_labelled=False)


@R('no-commit-inside', 'an explicit commit inside an atomic operation is refused before anything is committed', 2)
def _(ctx, p, c):
    for f in p.fns_q('db0::Workspace::commit'):
        guard_rule(ctx, c, f.q + '/%d' % len(f.params), f, {'commit': Call('db0::Fixture::commit')}, (ACTIVE, MODE),
                   [(dict(RW, active=True), {'commit': 'never', '_x': 'throws'}, 'a prefix is committed inside an atomic operation'),
                    (dict(RW, active=False), {'commit': 'may'}, 'nothing is committed')], follow_labelled=False)


@R('new-prefix-joins', 'a prefix opened for writing while an atomic operation is running joins it; a read-only one does not', 2)
def _(ctx, p, c):
    f = p.need('db0::Workspace::tryGetFixtureEx')
    guard_rule(ctx, c, f.q, f, {'begin': Call('db0::Fixture::beginAtomic')}, (ACTIVE,),
               [({'active': True}, {'begin': 'may'}, 'a prefix opened during an atomic operation does not take part in it'), ({'active': False}, {'begin': 'never'}, 'an atomic operation is begun without a context')],
               follow_labelled=False)
    cond = Flag('rw', lambda t: False)
    guard_rule(ctx, c, f.q + ' read-only', f, {'begin': Call('db0::Fixture::beginAtomic')},
               (ACTIVE, Enum('mode', any_of(contains(fld('m_access_type')), lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].endswith('::getAccessType'), shows('access_type')), ['READ_ONLY', 'READ_WRITE'])),
               [({'active': True, 'mode': 'READ_ONLY'}, {'begin': 'never'}, 'a read-only prefix takes part in an atomic operation'), ({'active': True, 'mode': 'READ_WRITE'}, {'begin': 'may'}, 'a writable prefix does not take part')],
               follow_labelled=False)


CTX = {'pre': None}


@R('context', 'the context flushes before it begins; completing or cancelling detaches every object it owns first, refuses to run twice, '
   'and releases the atomic lock on every exit, also when it fails', 9)
def _(ctx, p, c):
    f = p.need('db0::AtomicContext::AtomicContext')
    order(ctx, c, f.q, f, {'pre': Call('db0::Workspace::preAtomic'), 'begin': Call('db0::Workspace::beginAtomic')}, [('pre<begin', 'the operation begins before pending changes were flushed'), ('begin!pre', 'flushed inside the operation')],
          ['begin'], follow_labelled=False)
    act = Flag('act', any_of(calls('AtomicContext::isActive'), shows(r'm_atomic_lock\.(operator bool|owns_lock)\(\)$'), F('m_atomic_lock')))
    un = call_on('unlock', F('m_atomic_lock'))
    clr = call_on('clear', F('m_objects'))
    core = {'approve': 'db0::Workspace::endAtomic', 'cancel': 'db0::Workspace::cancelAtomic'}
    for m in ('approve', 'cancel'):
        f = p.need('db0::AtomicContext::' + m)
        L = {'ws': Call(core[m]), 'det': Call('db0::detachObject'), 'it': call_on(('begin', 'size', 'cbegin'), F('m_objects')), 'unlock': un, 'clr': clr, 'wd': Call('db0::Workspace::detach'),
             'wrong': Call([v for k, v in core.items() if k != m])}
        bad = lambda seen, o: None if 'unlock' in seen else 'the atomic lock stays held'
        order(ctx, c, f.q + ' active', f, L, [('it<ws', 'objects of the context are not detached first'), ('ws<clr', 'the objects are released before the operation is complete'), ('-wrong', 'the opposite action is taken'),
                                             ('ws!det', 'objects are detached after the operation was completed'), ('unlock!ws', 'completed outside the lock'), ('unlock!det', 'detached outside the lock')]
              + ([('wd<ws', 'objects not flushed before the operation completes'), ('wd<det', 'objects are detached before they were flushed'), ] if m == 'approve' else []),
              ['ws', 'clr', 'unlock'], (act,), {'act': True}, bad, follow_labelled=False)
        guard_rule(ctx, c, f.q + ' detaches', f, L, (act,), [({'act': True}, {'det': 'may'}, 'objects of the context are not detached')], follow_labelled=False)
        order(ctx, c, f.q + ' failing', f, {'unlock': un}, (), (), (act,), {'act': True}, lambda seen, o: None if 'unlock' in seen else 'the atomic lock stays held when the operation fails',
              throws=is_fn('endAtomic', 'cancelAtomic', 'detach', 'detachObject'), no_follow=is_fn('endAtomic', 'cancelAtomic', 'detach', 'detachObject', 'getTypeId', 'isActive'), kinds=('ret', 'throw'))
        guard_rule(ctx, c, f.q + ' twice', f, {'ws': L['ws'], 'det': L['det'], 'unlock': un, 'clr': clr}, (act,),
                   [({'act': False}, {'ws': 'never', 'det': 'never', 'unlock': 'never', 'clr': 'never', '_x': 'throws'}, 'an operation already finished is finished again')], follow_labelled=False)
    f = p.need('db0::AtomicContext::close')
    guard_rule(ctx, c, f.q, f, {'end': Call('db0::AtomicContext::approve'), 'cancel': Call('db0::AtomicContext::cancel')}, (act,),
               [({'act': True}, {'end': 'must', 'cancel': 'never'}, 'closing an active context must complete it'), ({'act': False}, {'end': 'never', 'cancel': 'never'}, 'a finished operation is finished again')], follow_labelled=False)


@R('detach-table', 'every kind of object an atomic operation can own has a detach function of its own kind', 6)
def _(ctx, p, c):
    f = p.need('db0::registerDetachFunctions')
    got = {}
    for b in f.blocks.values():
        for e in b.ev:
            if e[0] == 'asg':
                l, r = norm(e[2], Env(f)), (e[4][1] if e[4] and e[4][0] == 'f' else norm(e[4], Env(f)))
                m = re.findall(r'TypeId::([A-Z0-9_]+)|\b(MEMO_OBJECT|DB0_[A-Z_]+)\b', show(l))
                for a in m:
                    got[a[0] or a[1]] = r
    need = ('MEMO_OBJECT', 'DB0_LIST', 'DB0_INDEX', 'DB0_SET', 'DB0_DICT', 'DB0_TUPLE')
    for n in need:
        r = got.get(n)
        ctx.check(r is not None and not nul(r), c, 'detach ' + n, 'objects of kind %s keep their content when an atomic operation is cancelled' % n, f.where)
    for n, r in got.items():
        k = re.findall(r'TypeId::(\w+)', getattr(r, 'ta', '') or '')
        ctx.check(not k or k == [n], c, 'function of ' + n, 'objects of kind %s are detached as %s' % (n, k), f.where)


@R('prefix-begin', 'pending changes and boundary pages are flushed before the state number is raised; the cached objects, allocator, string pool and '
   'catalogue are written out before the prefix enters the operation', 4)
def _(ctx, p, c):
    f = p.need('db0::PrefixImpl::beginAtomic')
    L = {'fb': Call('db0::PrefixCache::flushBoundary'), 'inc': Assign('db0::PrefixImpl::m_head_state_num', op=['++', '+=']), 'dec': Assign('db0::PrefixImpl::m_head_state_num', op=['--', '-=']), 'on': Assign('db0::PrefixImpl::m_atomic')}
    order(ctx, c, f.q, f, L, [('fb<inc', 'the operation starts over boundary pages that are not flushed'), ('fb<on', 'the operation starts over boundary pages that are not flushed'), ('-dec', 'the state number goes down'), ('inc!inc', 'raised twice')],
          ['fb', 'inc', 'on'], follow_labelled=False)
    f = p.need('db0::Fixture::preAtomic')
    L = {'fl': Call('db0::GC0::flushAllOf'), 'clr': call_on('clear', F('m_maybe_need_flush')), 'it': call_on(('begin', 'cbegin', 'size'), F('m_close_handlers')), 'h': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator()' and ev.args and lit(True)(ev.args[0]), call=lambda s: s.name == 'operator()'),
         'hx': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator()' and ev.args and not lit(True)(ev.args[0]), call=lambda s: s.name == 'operator()')}
    order(ctx, c, f.q, f, L, [('fl<clr', 'objects are forgotten before they were flushed'), ('fl<it', 'handlers run before objects were flushed'), ('-hx', 'the handlers are told to roll back')], ['fl', 'clr', 'it'], follow_labelled=False)
    guard_rule(ctx, c, f.q + ' handlers', f, L, (), [({}, {'h': 'may'}, 'pending changes are not applied before the operation')], follow_labelled=False)
    f = p.need('db0::Fixture::beginAtomic')
    L = {'mem': Call('db0::Memspace::beginAtomic'), 'voc': Call('db0::VObjectCache::beginAtomic'), 'gc': Call('db0::GC0::beginAtomic'), 'sp': Call(['db0::vtypeless::commit', 'db0::pools::RC_LimitedPool::commit'], recv=F('m_string_pool')),
         'oc': call_on('commit', F('m_object_catalogue')), 'sp2': call_on('commit', F('m_string_pool'))}
    order(ctx, c, f.q, f, {k: v for k, v in L.items() if k != 'sp'}, [('sp2<mem', 'the string pool is not committed before the operation'), ('oc<mem', 'the catalogue is not committed before the operation'), ('gc<mem', 'live objects are not committed before the operation'), ('voc<mem', 'cached objects are not committed before the operation')],
          ['mem'], follow_labelled=False)
    f = p.need('db0::Memspace::beginAtomic')
    order(ctx, c, f.q, f, {'commit': Call('db0::Allocator::commit'), 'px': Call('db0::Prefix::beginAtomic')}, [('commit<px', 'the allocator is not committed before the operation')], ['px'], follow_labelled=False)
    f = p.need('db0::GC0::beginAtomic')
    order(ctx, c, f.q, f, {'commit': Call('db0::GC0::commitAll')}, (), ['commit'], follow_labelled=False)
    f = p.need('db0::VObjectCache::beginAtomic')
    order(ctx, c, f.q, f, {'commit': Call('db0::VObjectCache::commit')}, (), ['commit'], follow_labelled=False)


@R('prefix-end', 'completing merges the changes into the running state it was started from, cancelling discards exactly the changes of the operation; '
   'the state number is lowered only afterwards', 5)
def _(ctx, p, c):
    f = p.need('db0::PrefixImpl::endAtomic')
    L = {'merge': Call('db0::PrefixCache::merge'), 'rb': Call('db0::PrefixCache::rollback'), 'inc': Assign('db0::PrefixImpl::m_head_state_num', op=['++', '+=']), 'dec': Assign('db0::PrefixImpl::m_head_state_num', op=['--', '-=']),
         'off': Assign('db0::PrefixImpl::m_atomic'), 'upd': Call('db0::CacheRecycler::update')}
    order(ctx, c, f.q, f, L, [('merge<dec', 'the state number is lowered before the merge'), ('-rb', 'completing discards'), ('-inc', 'the state number is raised'), ('dec!dec', 'lowered twice'),
                              ('dec<upd', 'eviction may run before the operation is complete'), ('off<upd', 'eviction may run before the operation is complete'), ('merge<off', 'ended before the merge')], ['merge', 'dec', 'off'], follow_labelled=False)
    head = fld('m_head_state_num')
    prev = lambda t: isinstance(t, tuple) and t and t[0] == 'op' and t[1] == '-' and head(t[2]) and lit(1)(t[3])
    ev = collect(ctx, f, 'db0::PrefixCache::merge')
    ctx.check(bool(ev) and all(head(e.args[0]) and prev(e.args[1]) for e in ev), c, 'merge states', 'the changes are not merged from the operation\'s state into the running one', f.where)
    f = p.need('db0::PrefixImpl::cancelAtomic')
    order(ctx, c, f.q, f, L, [('rb<dec', 'the state number is lowered before the changes were discarded'), ('-merge', 'cancelling merges'), ('-inc', 'the state number is raised'), ('dec!dec', 'lowered twice')], ['rb', 'dec', 'off'], follow_labelled=False)
    ev = collect(ctx, f, 'db0::PrefixCache::rollback')
    ctx.check(bool(ev) and all(head(e.args[0]) for e in ev), c, 'rollback state', 'another state than the operation\'s is discarded', f.where)
    f = p.need('db0::PrefixImpl::getStateNum')
    got = {}
    for at in (True, False):
        for m in ('READ_WRITE', 'READ_ONLY'):
            _, outs, _q = reach(ctx, f, {}, (ATOMIC, MODE), {'atomic': at, 'mode': m})
            got[(at, m)] = outs
    ctx.check(all(got.values()), c, f.q + ' explored', 'not explored', f.where)


@R('rollback', 'cancelling erases and discards every page, range and boundary the operation touched, from the map of its kind, and forgets them', 6)
def _(ctx, p, c):
    f = p.need('db0::PrefixCache::rollback')
    kinds = {'b': ('m_volatile_boundary_locks', 'm_boundary_map'), 'w': ('m_volatile_wide_locks', 'm_wide_map'), 'd': ('m_volatile_locks', 'm_dp_map')}
    its = {k: call_on(('begin', 'cbegin', 'size'), F(v[0])) for k, v in kinds.items()}
    for k, (lst, mp) in kinds.items():
        L = {'it': its[k], 'ot': Custom(lambda ev, k=k: any(m.match(ev) for kk, m in its.items() if kk != k), call=is_fn('begin', 'cbegin', 'size')),
             'er': Call(['db0::PrefixCache::eraseBoundaryRange'] if k == 'b' else ['db0::PrefixCache::eraseRange']), 'dis': Call('db0::ResourceLock::discard'), 'clr': call_on('clear', F(lst)),
             'nx': CallRx(r'operator\+\+$')}
        # within the loop over this list every element is erased and discarded before the next one
        order(ctx, c, lst, f, {'it': L['it'], 'clr': L['clr'], 'dis': L['dis']}, [('it<clr', 'forgotten without being discarded'), ], ['it', 'clr'], follow_labelled=False)
    L = {'dis': Call('db0::ResourceLock::discard'), 'er': Call(['db0::PrefixCache::eraseBoundaryRange', 'db0::PrefixCache::eraseRange']), 'nx': CallRx(r'operator\+\+$')}
    order(ctx, c, 'each element', f, L, [('er>nx', ''), ('dis>nx', ''), ('nx~er', ''), ('nx~dis', ''), ('er>dis', 'an erased entry is not discarded'), ('er<dis', 'discarded but not erased')], follow_labelled=False)
    for k, (lst, mp) in kinds.items():
        bd = {'it': its[k], 'o': Custom(lambda ev, k=k: any(m.match(ev) for kk, m in its.items() if kk != k), call=is_fn('begin', 'cbegin', 'size')), 'eb': Call('db0::PrefixCache::eraseBoundaryRange'), 'er': Call('db0::PrefixCache::eraseRange')}
        if k == 'b':
            order(ctx, c, lst + ' map', f, bd, [('o~it', ''), ('it<eb', 'erased from the map of another kind')], follow_labelled=False)
        else:
            order(ctx, c, lst + ' map', f, {'b': its['b'], 'w': its['w'], 'd': its['d'], 'er': bd['er']}, [('b~w', ''), ('b~d', ''), ('w~b', ''), ('d~b', ''), ('w|d<er', 'erased from the map of another kind')], follow_labelled=False)
    st = collect(ctx, f, 'db0::PrefixCache::eraseBoundaryRange', 'db0::PrefixCache::eraseRange')
    ctx.check(len(st) >= 3 and all(param(idx=0)(e.args[2]) for e in st), c, 'state erased', 'entries of another state are erased', f.where)


@R('merge', 'completing moves every changed page and range of the operation (also those changed only through a wide range\'s residual page) into the '
   'running state, drops the unchanged ones, releases boundary pages first, and re-bases ranges whose page was merged into an existing one', 10)
def _(ctx, p, c):
    f = p.need('db0::PrefixCache::merge')
    vb, vw, vd = (call_on(('begin', 'cbegin', 'size'), F(x)) for x in ('m_volatile_boundary_locks', 'm_volatile_wide_locks', 'm_volatile_locks'))
    cl = {k: call_on('clear', F(x)) for k, x in (('cb', 'm_volatile_boundary_locks'), ('cw', 'm_volatile_wide_locks'), ('cd', 'm_volatile_locks'))}
    L = dict(cl, d=vd, w=vw, er=Call('db0::PrefixCache::eraseRange'), mg=Call('db0::DP_Lock::merge'), rp=Call('db0::PrefixCache::replaceRange'), rb=Call('db0::WideLock::rebase'),
             resid=Call('db0::WideLock::getResLockPtr'), nx=CallRx(r'operator\+\+$'))
    order(ctx, c, 'stages', f, L, [('cb<er', 'boundary pages are still held when pages are merged'), ('cb<mg', 'boundary pages are still held when pages are merged'), ('d<cd', 'pages are dropped unmerged'), ('w<cw', 'ranges are dropped unmerged'), ('cd!d', ''), ('cw!w', '')],
          ['cb', 'cd', 'cw', 'd', 'w'], follow_labelled=False)
    dirty = Flag('dirty', any_of(calls('ResourceLock::isDirty'), calls('isDirty')))
    resd = Flag('resd', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] in ('count', 'contains') and 'isDirty' not in show(t))
    ex = Flag('ex', shows(r'replaceRange\(.*\)(\.operator bool\(\))?$'))
    for d, r in ((True, False), (False, True), (True, True)):
        order(ctx, c, 'changed dirty=%s residual=%s' % (d, r), f, dict(L, st=vd, ot=vw),
              [('er<mg', 'the entry stays registered under the operation\'s state'), ('mg>rp', 'a merged entry is not registered in the running state'), ('mg<rp', 'registered before its state was updated'), ('nx~mg', ''), ('nx~er', ''), ('nx~rp', '')],
              (), (dirty, resd), {'dirty': d, 'resd': r}, follow_labelled=False)
        guard_rule(ctx, c, 'merged dirty=%s residual=%s' % (d, r), f, L, (dirty, resd), [({'dirty': d, 'resd': r}, {'mg': 'may', 'rp': 'may'}, 'a changed page is dropped')], follow_labelled=False)
        order(ctx, c, 'every entry dirty=%s residual=%s' % (d, r), f, L,
              [('er>mg' if d else 'er<mg', 'a changed entry is erased without being merged')], (), (dirty, resd), {'dirty': d, 'resd': r}, follow_labelled=False)
    guard_rule(ctx, c, 'unchanged dropped', f, L, (dirty, resd), [({'dirty': False, 'resd': False}, {'mg': 'never', 'rp': 'never', 'er': 'may'}, 'an unchanged page is merged')], follow_labelled=False)
    guard_rule(ctx, c, 'residuals collected', f, {'resid': L['resid']}, (dirty,), [({'dirty': True}, {'resid': 'may'}, 'a page changed only through a wide range is lost'), ({'dirty': False}, {'resid': 'never'}, 'an unchanged range\'s page is merged')], follow_labelled=False)
    guard_rule(ctx, c, 'rebase', f, L, (dirty, ex), [({'dirty': True, 'ex': False}, {'rb': 'may'}, 'a range keeps referring to a page that was merged away')], follow_labelled=False)
    ev = collect(ctx, f, 'db0::PrefixCache::eraseRange', 'db0::DP_Lock::merge', 'db0::PrefixCache::replaceRange')
    ok = True
    for e in ev:
        if e.sym.name == 'eraseRange': ok &= bool(param(idx=0)(e.args[2]))
        elif e.sym.name == 'merge': ok &= bool(param(idx=1)(e.args[0]))
        else: ok &= bool(param(idx=1)(e.args[2]))
    ctx.check(ok and len(ev) >= 6, c, 'states', 'entries are merged from or into another state', f.where)


@R('volatile', 'everything changed in an atomic operation is registered as revocable: pages, ranges and copies made for it, objects created or looked up in the '
   'object cache, live objects, new slabs; and none of it is handed to the evictor', 14)
def _(ctx, p, c):
    vol = {'createPage': 'm_volatile_locks', 'createRange': 'm_volatile_wide_locks', 'insertWideCopy': 'm_volatile_wide_locks'}
    for f in [x for n in ('createPage', 'createRange', 'insertCopy', 'insertWideCopy') for x in p.fns_q('db0::PrefixCache::' + n)]:
        lists = ('m_volatile_locks', 'm_volatile_wide_locks', 'm_volatile_boundary_locks')
        V = Custom(lambda ev: any(store(n).match(ev) for n in lists), call=lambda s: s.name in ('push_back', 'emplace_back', 'insert', 'emplace'))
        L = {'vol': V, 'rec': Call('db0::CacheRecycler::update'), 'ins': Call('db0::PageMap::insert')}
        inst = '%s(%s)' % (f.q, ', '.join(re.sub(r'^.*<db0::|>.*$', '', t) for t in f.sym.pt[:2]))
        order(ctx, c, inst + ' volatile', f, L, [('-rec', 'a page of a running atomic operation is given to the evictor')], ['vol', 'ins'], (NF,), {'nf': True}, follow_labelled=False)
        guard_rule(ctx, c, inst + ' lasting', f, L, (NF,), [({'nf': False}, {'vol': 'never', 'ins': 'must'}, 'a lasting page is registered as revocable')], follow_labelled=False)
    f = p.need('db0::PrefixImpl::mapRange')
    sets = Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'set' and ev.args and const('no_flush')(ev.args[0]) and (len(ev.args) < 2 or lit(True)(ev.args[1])), call=is_fn('set'))
    unset = Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ('set', 'reset') and ev.args and const('no_flush')(ev.args[0]) and (ev.sym.name == 'reset' or (len(ev.args) > 1 and lit(False)(ev.args[1]))), call=is_fn('set', 'reset'))
    L = {'set': sets, 'unset': unset, 'map': Call(['db0::PrefixImpl::mapPage', 'db0::PrefixImpl::mapBoundaryRange', 'db0::PrefixImpl::mapWideRange'])}
    order(ctx, c, f.q + ' atomic', f, L, [('set<map', 'an access inside an atomic operation is not revocable'), ('-unset', 'the revocable flag is cleared')], ['map'], (ATOMIC,), {'atomic': True}, follow_labelled=False)
    order(ctx, c, f.q + ' normal', f, L, [('-set', 'a normal access is revocable')], ['map'], (ATOMIC,), {'atomic': False}, follow_labelled=False)
    ins = lambda fl: Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ('insert', 'push_back', 'emplace', 'emplace_back') and ev.recv is not None and fld(fl)(ev.recv), call=is_fn('insert', 'push_back', 'emplace', 'emplace_back'))
    live = Flag('live', shows(r'(lock\(\)|operator->\(\)\.second\)?)(\.operator bool\(\))?$'))
    for q, fl, lab in (('db0::VObjectCache::create', 'm_volatile', None), ('db0::GC0::add', 'm_volatile', None), ('db0::GC0::moveFrom', 'm_volatile', None), ('db0::SlabManager::createNewSlab', 'm_volatile_slabs', None)):
        fs = p.fns_q(q)
        if not fs: p.need(q).q
        for f in fs[:4]:
            L = {'vol': ins(fl)}
            guard_rule(ctx, c, '%s %s' % (q, f.usr[-24:] if len(fs) > 1 else ''), f, L, (ATOMIC,), [({'atomic': True}, {'vol': 'must'}, 'a change made inside an atomic operation cannot be revoked'), ({'atomic': False}, {'vol': 'never'}, 'a lasting change is registered as revocable')], follow_labelled=False)
    for q in ('db0::VObjectCache::findOrCreate', 'db0::VObjectCache::tryFind'):
        fs = p.fns_q(q)
        if not fs and q.endswith('findOrCreate'): p.need(q).q
        for f in fs[:3]:
            hit = Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'static_pointer_cast', call=is_fn('static_pointer_cast'))
            order(ctx, c, '%s %s' % (q, f.usr[-24:]), f, {'vol': ins('m_volatile'), 'hit': hit}, [('vol<hit', 'an object used inside an atomic operation is not revocable')], (), (ATOMIC,), {'atomic': True}, no_follow=is_fn('create'))
    f = p.need('db0::SlabManager::deferredFree')
    guard_rule(ctx, c, f.q, f, {'a': ins('m_atomic_deferred_free_ops'), 'n': ins('m_deferred_free_ops')}, (ATOMIC,),
               [({'atomic': True}, {'a': 'must', 'n': 'never'}, 'memory freed inside an atomic operation stays freed when it is cancelled'), ({'atomic': False}, {'a': 'never', 'n': 'must'}, 'memory freed is never released')], follow_labelled=False)


@R('no-flush', 'nothing of a running atomic operation reaches the storage: a revocable page or range is not written, is not put in the flush queue, '
   'and becomes flushable only when the operation completes', 4)
def _(ctx, p, c):
    acc = Flag('nf', any_of(shows(r'm_access_mode.*operator\[\]\((AccessOptions::)?no_flush\)$'), shows(r'operator\[\]\((AccessOptions::)?no_flush\)$')))
    for q in ('db0::DP_Lock::_tryFlush', 'db0::WideLock::_tryFlush'):
        f = p.need(q)
        L = {'wr': Call(['db0::BaseStorage::write', 'db0::BaseStorage::tryWriteDiffs'])}
        guard_rule(ctx, c, q, f, L, (acc,), [({'nf': True}, {'wr': 'never'}, 'a change of a running atomic operation is written'), ({'nf': False}, {'wr': 'may'}, 'nothing is ever written')], follow_labelled=False)
    f = p.need('db0::ResourceLock::setDirty', 0)
    fs = [x for x in p.fns_q('db0::ResourceLock::setDirty') if not x.params] or p.fns_q('db0::ResourceLock::setDirty')[:1]
    for f in fs:
        guard_rule(ctx, c, f.q, f, {'app': Call('db0::DirtyCache::append')}, (acc,), [({'nf': True}, {'app': 'never'}, 'a change of a running atomic operation is queued for flushing'), ({'nf': False}, {'app': 'may'}, 'a change is never queued for flushing')], follow_labelled=False)
    f = p.need('db0::PrefixCache::replaceRange')
    ex = Flag('ex', shows(r'(replace|find)\(.*\)(\.operator bool\(\))?$'))
    for f in p.fns_q('db0::PrefixCache::replaceRange'):
        guard_rule(ctx, c, '%s %s' % (f.q, f.usr[-30:]), f, {'rs': Call('db0::ResourceLock::resetNoFlush')}, (ex,), [({'ex': False}, {'rs': 'must'}, 'a merged page can never be flushed')], follow_labelled=False)


@R('cancel-objects', 'cancelling forgets the objects the operation created or touched: object cache entries, new live objects, new slabs (whose pending capacity '
   'is not written back), pending frees; completing keeps the frees', 6)
def _(ctx, p, c):
    cl = lambda fl: call_on('clear', F(fl))
    bg = lambda fl: call_on(('begin', 'cbegin', 'size', 'empty'), F(fl))
    f = p.need('db0::VObjectCache::cancelAtomic')
    order(ctx, c, f.q, f, {'it': call_on(('begin', 'cbegin'), F('m_volatile')), 'er': Call('db0::VObjectCache::erase'), 'clr': cl('m_volatile')}, [('it<clr', 'entries survive a cancelled operation'), ('clr!er', '')], ['it', 'clr'], follow_labelled=False)
    guard_rule(ctx, c, f.q + ' erases', f, {'er': Call('db0::VObjectCache::erase')}, (), [({}, {'er': 'may'}, 'entries survive a cancelled operation')], follow_labelled=False)
    f = p.need('db0::VObjectCache::endAtomic')
    order(ctx, c, f.q, f, {'er': Call('db0::VObjectCache::erase'), 'clr': cl('m_volatile')}, [('-er', 'a completed operation loses entries')], ['clr'], follow_labelled=False)
    f = p.need('db0::GC0::cancelAtomic')
    L = {'rm': Call('db0::GC0::tryRemove', arg={1: lit(True)}), 'rx': Call('db0::GC0::tryRemove', pred=lambda ev: len(ev.args) < 2 or not lit(True)(ev.args[1])), 'clr': cl('m_volatile'), 'it': call_on(('begin', 'cbegin'), F('m_volatile')), 'if': call_on(('begin', 'cbegin'), F('m_flush_map')),
         'rev': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator()' and len(ev.args) > 1 and lit(True)(ev.args[-1]), call=is_fn('operator()'))}
    order(ctx, c, f.q, f, L, [('-rx', 'a cancelled object is dropped as if it existed'), ('it<clr', 'objects survive a cancelled operation')], ['clr', 'it', 'if'], follow_labelled=False)
    guard_rule(ctx, c, f.q + ' objects', f, L, (Flag('v', lambda t: show(t).endswith('operator*()')),), [({'v': True}, {'rm': 'may'}, 'objects survive a cancelled operation')], follow_labelled=False)
    f = p.need('db0::SlabManager::cancelAtomic')
    hit = Found('hit', F('m_slabs'))
    lv = Flag('lv', shows(r'second(\.lock\(\))?(\.operator bool\(\))?$'))
    L = {'clf': cl('m_atomic_deferred_free_ops'), 'ins': call_on(('insert', 'emplace'), F('m_deferred_free_ops')), 'it': call_on(('begin', 'cbegin'), F('m_volatile_slabs')), 'er': call_on('erase', F('m_slabs')),
         'cln': Assign('db0::SlabItem::m_is_dirty', value=lit(False)), 'clv': cl('m_volatile_slabs'), 'act': Custom(lambda ev: (ev.kind == 'asg' and fld('m_active_slab')(ev.lhs)) or (ev.kind == 'call' and ev.recv is not None and ev.sym.name in ('operator=', 'reset', 'clear') and fld('m_active_slab')(ev.recv)), call=is_fn('operator=', 'reset', 'clear'), field=lambda q: q.endswith('m_active_slab')),
         'nx': CallRx(r'operator\+\+$')}
    order(ctx, c, f.q, f, L, [('-ins', 'frees of a cancelled operation are kept'), ('it<clv', 'new slabs survive a cancelled operation'), ('cln<er', 'a dropped slab still writes its capacity back'), ('nx~cln', '')], ['clf', 'clv', 'act', 'it'], (hit, lv), {'hit': True, 'lv': True}, follow_labelled=False)
    guard_rule(ctx, c, f.q + ' slabs', f, L, (hit,), [({'hit': True}, {'er': 'may'}, 'new slabs survive a cancelled operation')], follow_labelled=False)
    f = p.need('db0::SlabManager::endAtomic')
    emp = Flag('emp', shows(r'm_atomic_deferred_free_ops\.empty\(\)$'))
    order(ctx, c, f.q, f, dict(L, itf=call_on(('begin', 'cbegin'), F('m_atomic_deferred_free_ops'))), [('itf<clf', 'memory freed in the operation is never released'), ('-er', 'a completed operation loses slabs')], ['itf', 'clv', 'clf'], (emp,), {'emp': False}, follow_labelled=False)
    guard_rule(ctx, c, f.q + ' frees', f, {'ins': L['ins']}, (emp,), [({'emp': False}, {'ins': 'may'}, 'memory freed in the operation is never released')], follow_labelled=False)
    f = p.need('db0::MetaAllocator::commit')
    guard_rule(ctx, c, f.q, f, {'fl': any_call('db0::MetaAllocator::flush', 'db0::SlabManager::flush', 'db0::MetaAllocator::RealmsVector::flush')}, (ATOMIC,), [({'atomic': True}, {'fl': 'never'}, 'pending frees are applied inside an atomic operation'), ({'atomic': False}, {'fl': 'must'}, 'pending frees are never applied')], follow_labelled=False)


def any_call(*q):
    return Call(list(q))


@R('cancel-order', 'cancelling reverts the in-memory objects (roll back, detach handlers, pool, catalogue, object cache) before the pages are dropped; the allocator is '
   'detached before the prefix leaves the operation', 4)
def _(ctx, p, c):
    f = p.need('db0::Fixture::cancelAtomic')
    L = {'rb': Call('db0::Fixture::rollback'), 'gc': Call('db0::GC0::cancelAtomic'), 'h': call_on(('begin', 'cbegin'), F('m_detach_handlers')), 'voc': call_on('detach', F('m_v_object_cache')), 'sp': call_on('detach', F('m_string_pool')),
         'oc': call_on('detach', F('m_object_catalogue')), 'vc': Call('db0::VObjectCache::cancelAtomic'), 'mem': Call('db0::Memspace::cancelAtomic'), 'wrong': Call(['db0::Memspace::endAtomic', 'db0::VObjectCache::endAtomic', 'db0::GC0::endAtomic'])}
    order(ctx, c, f.q, f, L, [('%s<mem' % k, '%s still holds content of the cancelled operation' % k) for k in ('rb', 'gc', 'h', 'voc', 'sp', 'oc', 'vc')] + [('-wrong', 'a component completes'), ('voc<vc', 'dropped entries are never detached')], list(set(L) - {'wrong'}), follow_labelled=False)
    La = {'rb': L['rb'], 'al': Call('db0::MetaAllocator::cancelAtomic')}
    order(ctx, c, f.q + ' allocator', f, La, [('rb<al', 'memory released by the roll back was allocated inside the cancelled operation: released after the allocator has left it, it is freed again by the next commit')], ['rb', 'al'], follow_labelled=False)
    f = p.need('db0::object_model::TagIndex::rollback')
    L = {'s': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'reset' and 'm_batch_op_short' in show(ev.recv), call=is_fn('reset')), 'l': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'reset' and 'm_batch_op_long' in show(ev.recv), call=is_fn('reset')),
         't': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'reset' and 'm_batch_op_types' in show(ev.recv), call=is_fn('reset')), 'inc': call_on('clear', F('m_inc_refed_tags')), 'unref': CallRx(r'unRefByAddr$'),
         'it': call_on(('begin', 'cbegin'), F('m_inc_refed_tags')), 'oc': call_on('clear', F('m_object_cache')), 'ac': call_on('clear', F('m_active_cache')), 'pc': call_on('clear', F('m_active_pre_cache'))}
    order(ctx, c, f.q, f, L, [('it<inc', 'the references taken by the tags are never given back')], ['inc', 'oc', 'ac', 'pc'], follow_labelled=False)
    guard_rule(ctx, c, f.q + ' pending updates', f, L, (Flag('S', shows(r'm_batch_op_short')), Flag('L', shows(r'm_batch_op_long')), Flag('T', shows(r'm_batch_op_types'))),
               [({'S': True}, {'s': 'must'}, 'tag updates of the cancelled operation are applied later'), ({'L': True}, {'l': 'must'}, 'tag updates of the cancelled operation are applied later'), ({'T': True}, {'t': 'must'}, 'tag updates of the cancelled operation are applied later')], follow_labelled=False)
    f = p.need('db0::Fixture::rollback')
    L = {'h': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator()', call=is_fn('operator()')), 'it': call_on(('begin', 'cbegin', 'size'), F('m_rollback_handlers')), 'ot': call_on(('begin', 'cbegin', 'size'), F('m_close_handlers'))}
    order(ctx, c, f.q, f, L, [('-ot', 'pending changes of the cancelled operation are applied')], ['it'], follow_labelled=False)
    guard_rule(ctx, c, f.q + ' handlers', f, L, (), [({}, {'h': 'may'}, 'pending changes of the cancelled operation survive')], follow_labelled=False)
    for ph in ('endAtomic', 'cancelAtomic'):
        f = p.need('db0::Memspace::' + ph)
        order(ctx, c, f.q, f, {'det': Call('db0::Allocator::detach'), 'px': Call('db0::Prefix::' + ph)}, [('det<px', 'the allocator keeps content of the operation')], ['px', 'det'], follow_labelled=False)
    f = p.need('db0::Fixture::detach')
    L = {'h': call_on(('begin', 'cbegin'), F('m_close_handlers')), 'd': call_on(('begin', 'cbegin'), F('m_detach_handlers')), 'gc': call_on('detach', calls('getGC0')), 'voc': call_on('detach', F('m_v_object_cache')), 'sp': call_on('detach', F('m_string_pool')), 'oc': call_on('detach', F('m_object_catalogue')), 'mem': Call('db0::Memspace::detach')}
    order(ctx, c, f.q, f, L, [('h<%s' % k, 'detached before pending changes were applied') for k in ('d', 'gc', 'voc', 'sp', 'oc', 'mem')] , list(set(L) - {'gc'}), follow_labelled=False)


@R('exclusive', 'an atomic operation and a commit by the autocommit thread exclude each other: the thread takes the atomic lock before it commits, and the operation '
   'takes it before it begins', 2)
def _(ctx, p, c):
    f = p.need('db0::AutoCommitThread::prepareContext')
    L = {'cm': Custom(lambda ev: ev.kind == 'call' and 'm_commit_mutex' in show(('t',) + tuple(ev.args)) if False else (ev.kind == 'call' and any('m_commit_mutex' in show(a) for a in ev.args)), call=lambda s: 'lock' in s.q), 'lk': Call('db0::LockedContext::lockUnique'), 'at': Call('db0::AtomicContext::lock')}
    order(ctx, c, f.q, f, L, (), ['lk', 'at'], follow_labelled=False)
    f = p.need('db0::python::PyAPI_beginAtomic')
    L = {'lk': Call('db0::AtomicContext::lock'), 'beg': CallRx(r'^db0::python::(PyAPI_tryBeginAtomic|runSafe)$')}
    order(ctx, c, f.q, f, L, [('lk<beg', 'the operation begins without the atomic lock')], (), follow_labelled=False)
    guard_rule(ctx, c, f.q + ' locks', f, L, (), [({}, {'lk': 'may', 'beg': 'may'}, 'the operation begins without the atomic lock')], follow_labelled=False)
