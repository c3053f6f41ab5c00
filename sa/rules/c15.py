"""C15 the cache never loses or forgets a modification"""
from ..q import *
from ..report import Rules

R = Rules()
check = R.check
MEM = 'db0::'
acc = lambda n: shows(r'm_access_mode\.operator\[\]\((AccessOptions::)?%s\)$' % n)
NF = Flag('nf', acc('no_flush'))
NDC = Flag('ndc', acc('no_dirty_cache'))
APPEND = Call('db0::DirtyCache::append')
ISLOCKED = Call('db0::ROWO_Mutex::WriteOnlyLock::isLocked')
LOCKED = [Flag('locked', calls('db0::ROWO_Mutex::WriteOnlyLock::isLocked')), Flag('dirtyflag', shows(r'ROWO_Mutex::__ref\(.*\)\.get\(\)$'))]
FULL = Enum('fm', param(idx=0), ['full', 'diff'])


@R('register', 'marking a page or range modified puts it into the set of pages to be flushed, exactly when it was clean and takes part in flushing', 8)
def _(ctx, p, c):
    f = p.need('db0::ResourceLock::setDirty', 0)
    first = Flag('first', calls('atomicCheckAndSetFlags'))
    L = {'app': APPEND, 'set': Call('db0::atomicCheckAndSetFlags')}
    at = (NF, NDC, first)
    order(ctx, c, 'clean page', f, L, ['set<app'], ['app'], at, {'first': True, 'nf': False, 'ndc': False}, follow_labelled=False)
    for v, why in (({'first': False}, 'a page already registered is registered twice'), ({'first': True, 'nf': True}, 'an uncommitted atomic page is queued for flushing'),
                   ({'first': True, 'nf': False, 'ndc': True}, 'a page outside the flush set is registered')):
        guard_rule(ctx, c, 'not registered when %s' % v, f, L, at, [(v, {'app': 'never', 'set': 'must'}, why)], follow_labelled=False)
    f = p.need('db0::ResourceLock::resetNoFlush')
    dirty = Flag('dirty', calls('isDirty'))
    L = {'app': APPEND}
    order(ctx, c, 'page becoming part of the transaction', f, L, [], ['app'], (NF, NDC, dirty), {'nf': True, 'ndc': False, 'dirty': True}, follow_labelled=False)
    guard_rule(ctx, c, 'page already taking part', f, L, (NF, NDC, dirty), [({'nf': False}, {'app': 'never'}, 'registered twice'), ({'nf': True, 'ndc': False, 'dirty': False}, {'app': 'never'}, 'a clean page is registered')], follow_labelled=False)
    # the byte-range form registers as well
    f = p.need('db0::ResourceLock::setDirty', 2)
    L = {'ins': Call('db0::DiffRange::insert'), 'dirty': Call('db0::ResourceLock::setDirty', pred=lambda ev: len(ev.args) == 0)}
    order(ctx, c, 'modified byte range', f, L, [('ins>dirty', 'a recorded byte range does not mark the page')], (), follow_labelled=False)
    f = p.need('db0::MemLock::modify', 0)
    order(ctx, c, f.q, f, {'d': Call('db0::ResourceLock::setDirty')}, [], ['d'], follow_labelled=False)


@R('write-access', 'a pointer for modification is handed out only after the range was mapped for writing, marked modified and the object '
   'registered for the commit; nothing of an older mapping is kept', 1)
def _(ctx, p, c):
    fs = p.fns_q('db0::v_ptr::modify')
    done = set()
    held = Flag('held', shows(r'ROWO_Mutex::__ref\(.*\)\.get\(\)$'))
    lk = Flag('lk', calls('isLocked'))
    nf = lambda s: s.name in ('assureInitialized', 'getSize')
    wr = lambda t: 'write' in show(t) and 'read' in show(t)
    for f in fs:
        if len(f.params) != 0 or f.line in done:
            continue
        done.add(f.line)
        L = {'rel': Call('db0::MemLock::release'), 'map': [Call('db0::Prefix::mapRange', arg={2: wr})], 'mark': Call('db0::MemLock::modify'), 'coll': Call('db0::Memspace::collectModified'),
             'set': call_on('commit_set', anything)}
        order(ctx, c, f.q, f, L, [('rel<map', 'the range is remapped while the old mapping is still held'), ('map<mark', 'marked before being mapped for writing'),
                                  ('mark<set', 'write access is recorded although the range was not marked modified'), ('coll<set', 'the object is not registered for the commit')],
              (), (held, lk), {'lk': True}, follow_labelled=False, no_follow=nf)
        order(ctx, c, f.q + ' first modification', f, L, [], ['map', 'mark', 'coll', 'set'], (held, lk), {'held': False, 'lk': True}, follow_labelled=False, loop_once=True, no_follow=nf)


def sink(cls):
    return {'write': Call('db0::BaseStorage::write'), 'diff': Call('db0::BaseStorage::tryWriteDiffs'), 'gd': Call(['db0::ResourceLock::getDiffs', 'db0::WideLock::getDiffs']), 'cow': Call('db0::ResourceLock::getCowPtr'),
            'reset': call_on('commit_reset', anything), 'res': Call('db0::WideLock::resLockFlush'), 'clr': Call('db0::DiffRange::clear')}


@R('flush-page', 'a page is marked clean only after its whole content, or every changed part of it, was handed to storage under the state it '
   'belongs to; when that is not possible it stays modified and the caller is told', 12)
def _(ctx, p, c):
    empty = Flag('empty', shows(r'^%?\w*diffs\w*\.empty\(\)$'))
    cow = Flag('cow', calls('db0::ResourceLock::getCowPtr'))
    ovf = Flag('ovf', calls('db0::DiffRange::isOverflow'))
    for cls in ('DP_Lock', 'WideLock'):
        f = p.need('db0::%s::_tryFlush' % cls)
        L = sink(cls)
        at = (NF, FULL, empty, cow, ovf, *LOCKED)
        base = {'nf': False, 'locked': True, 'ovf': False}
        order(ctx, c, cls + ' full', f, L, [('write<reset', 'marked clean without having been written'), ('-diff', 'a full flush writes diffs')], (), at, dict(base, fm='full'), follow_labelled=False)
        order(ctx, c, cls + ' full writes', f, dict(L, got=ISLOCKED), [('got>write', 'not written'), ('got>reset', 'not marked clean'), ('got>clr', 'the recorded byte ranges are kept')], (), at, dict(base, fm='full'), follow_labelled=False)
        for r, v, why in (({'gd': False, 'cow': True}, {}, 'without a computable difference'), ({}, {'cow': False}, 'without an original to compare with')):
            if cls == 'WideLock' and 'gd' in r:
                continue
            order(ctx, c, '%s %s' % (cls, why), f, L, [('-reset', 'marked clean without having been written')], (), at, dict(base, fm='diff', **v), 
                  lambda seen, o: 'reported as flushed' if o.kind == 'ret' and o.ret is True and 'cow' in seen else None, rets=r, follow_labelled=False)
        guard_rule(ctx, c, cls + ' uncommitted atomic page', f, L, at, [({'nf': True}, {'write': 'never', 'diff': 'never'}, 'content of an unfinished atomic operation reaches storage')], follow_labelled=False)
        st = fld('m_state_num')
        for lab in ('write', 'diff'):
            bad = {'bad': Call('db0::BaseStorage::' + {'write': 'write', 'diff': 'tryWriteDiffs'}[lab], pred=lambda ev: not st(ev.args[1]))}
            order(ctx, c, '%s %s under its own state' % (cls, lab), f, bad, [('-bad', 'written under another state')], (), at, dict(base), follow_labelled=False)
    f = p.need('db0::DP_Lock::_tryFlush')
    L = sink('DP_Lock')
    at = (NF, FULL, empty, cow, ovf, *LOCKED)
    order(ctx, c, 'DP_Lock diff', f, L, [('diff<reset', 'marked clean without having been written')], (), at, {'nf': False, 'locked': True, 'fm': 'diff', 'empty': False, 'cow': True}, rets={'gd': True, 'diff': True}, follow_labelled=False)
    order(ctx, c, 'DP_Lock diff refused by storage', f, L, [('-reset', 'marked clean although storage refused the diff')], (), at, {'nf': False, 'locked': True, 'fm': 'diff', 'empty': False, 'cow': True},
          lambda seen, o: 'a refused diff is reported as flushed' if o.kind == 'ret' and 'diff' in seen and o.ret is not False else None, rets={'gd': True, 'diff': False}, follow_labelled=False)
    L = dict(sink('DP_Lock'), mut=[Call(['db0::BaseStorage::tryFindMutation', 'db0::BaseStorage::findMutation'], arg={1: fld('m_state_num')})])
    has = Flag('has', calls('tryFindMutation'))
    same = Ord('same', shows(r'mutation|findMutation\('), fld('m_state_num'))
    at = (NF, FULL, empty, cow, ovf, has, same, *LOCKED)
    base = {'nf': False, 'locked': True, 'fm': 'diff', 'empty': True, 'cow': True}
    order(ctx, c, 'DP_Lock unchanged page', f, L, [('mut|diff|write<reset', 'marked clean without asking whether another version was already written in this transaction')], (), at, dict(base), rets={'gd': True}, follow_labelled=False)
    order(ctx, c, 'DP_Lock page reverted in the same transaction', f, L, [('diff|write<reset', 'marked clean although storage holds other content for this state')], (), at, dict(base, has=True, same='='),
          lambda seen, o: 'storage holds other content for this state' if o.kind == 'ret' and 'gd' in seen and o.ret is not False and not (seen & {'diff', 'write'}) else None, rets={'gd': True}, follow_labelled=False)


@R('baseline', 'differences are computed against the content of the previous state: the original is taken from the freshly read page, or from the page content at '
   'the moment the page starts to belong to a new state, before it can change', 6)
def _(ctx, p, c):
    cpo = memcopy(lambda t: 'm_cow_data' in show(t), lambda t: 'm_data' in show(t))
    f = p.need('db0::DP_Lock::updateStateNum')
    vol = Flag('vol', any_of(param('is_volatile'), param(idx=1)))
    L = {'cp': cpo, 'rs': call_on('resize', F('m_cow_data')), 'd': Call('db0::ResourceLock::setDirty'), 'cl': Assign('db0::ResourceLock::m_cow_lock'), 'st': Assign('db0::DP_Lock::m_state_num'), 'nf': call_on('set', F('m_access_mode'))}
    order(ctx, c, f.q + ' new transaction', f, L, [('rs<cp', ''), ('cp<d', 'modified before the original was kept')], ['cp', 'cl'], (vol,), {'vol': False}, follow_labelled=False)
    order(ctx, c, f.q + ' atomic operation', f, L, [('-cp', 'the original of the running transaction is replaced'), ('-cl', 'the original of the running transaction is replaced'), ('nf<d', 'content of an unfinished atomic operation is queued for flushing')], ['nf', 'd'], (vol,), {'vol': True}, follow_labelled=False)
    rd = Flag('rd', shows(r'access_mode\[.*read.*\]|access_mode\.operator\[\]\(.*read'))
    nc = Flag('nc', shows(r'access_mode.*no_cow'))
    cr = Flag('cr', shows(r'access_mode.*create'))
    cl = Flag('cl', shows(r'm_cow_lock'))
    res = Flag('res', shows(r'm_res_lock'))
    for q, n in (('db0::DP_Lock::DP_Lock', 7), ('db0::WideLock::WideLock', 8)):
        f = p.need(q, n)
        L = {'rd': Call('db0::BaseStorage::read', arg={1: param('read_state_num')}), 'cp': cpo, 'rr': memcopy(lambda t: 'm_data' in show(t) and 'cow' not in show(t), lambda t: 'res_lock' in show(t))}
        v = {'rd': True, 'nc': False, 'cr': False, 'cl': False}
        at = (rd, nc, cr, cl, res)
        order(ctx, c, f.q + ' read for modification', f, L, [('rd<cp', 'the original is taken before the page was read')] + ([('rr<cp', 'the original lacks the partial last page')] if 'Wide' in q else []), ['rd', 'cp'] + (['rr'] if 'Wide' in q else []), at, dict(v, res=True), follow_labelled=False)
        order(ctx, c, f.q + ' whole range', f, L, [('rd<cp', 'the original is taken before the page was read')], ['rd', 'cp'], at, dict(v, res=False), follow_labelled=False)
        guard_rule(ctx, c, f.q + ' not read', f, L, at, [({'rd': False}, {'rd': 'never', 'cp': 'never'}, 'an original is made up')], follow_labelled=False)


@R('flush-range', 'flushing a range of several pages writes every one of its pages (so that all carry the same state and are announced together) '
   'and hands the partial last page to its own lock, before the range is marked clean', 6)
def _(ctx, p, c):
    f = p.need('db0::WideLock::_tryFlush')
    cow = Flag('cow', calls('db0::ResourceLock::getCowPtr'))
    ovf = Flag('ovf', calls('db0::DiffRange::isOverflow'))
    resl = Flag('resl', F('m_res_lock'))
    at = (NF, FULL, cow, ovf, resl, *LOCKED)
    base = {'nf': False, 'locked': True, 'ovf': False, 'cow': True}
    L = sink('WideLock')
    resets = ['gd~cow', 'gd~diff', 'gd~write']
    for ok in (True, False):
        rules = resets + [('cow|diff|write<gd', 'a page of the range is not written'), ('diff|write<reset', 'the last page of the range is not written')]
        if not ok:
            rules = ['gd~cow', 'gd~diff', 'gd~write', 'diff~write', ('cow|write<gd', 'a page whose diff was refused is not written'), ('write<reset', 'a page whose diff was refused is not written')]
        order(ctx, c, 'every page (diff %s)' % ('accepted' if ok else 'refused'), f, L, rules, (), at, dict(base, fm='diff', resl=False), rets={'gd': True, 'diff': ok}, follow_labelled=False)
    order(ctx, c, 'partial last page', f, L, [('res<reset', 'the partial last page is forgotten')], (), at, dict(base, resl=True), follow_labelled=False)
    f = p.need('db0::WideLock::flushResidual')
    order(ctx, c, f.q, f, dict(L, got=ISLOCKED), [('got>res', 'the partial last page is not handed over'), ('-reset', 'a range is marked clean although only its last page was handed over')], [], (NF, resl, *LOCKED), {'nf': False, 'resl': True, 'locked': True}, follow_labelled=False)
    f = p.need('db0::WideLock::resLockFlush')
    order(ctx, c, f.q, f, {'d': Call('db0::ResourceLock::setDirty', recv=F('m_res_lock')), 'cp': memcopy(lambda t: 'm_res_lock' in show(t), lambda t: 'm_data' in show(t))}, [], ['d', 'cp'], follow_labelled=False)
    f = p.need('db0::WideLock::WideLock', 7) if any(len(x.params) == 7 for x in p.fns_q('db0::WideLock::WideLock')) else max(p.fns_q('db0::WideLock::WideLock'), key=lambda x: len(x.params))
    rd = Flag('rd', lambda t: 'operator[]' in show(t) and show(t).endswith('(read)') or show(t).endswith('(AccessOptions::read)'))
    rp = Flag('rp', any_of(F('m_res_lock'), param('res_lock')))
    L2 = {'rd': Call('db0::BaseStorage::read'), 'res': memcopy(None, lambda t: 'res_lock' in show(t))}
    order(ctx, c, 'reading a range with a partial last page', f, L2, [], ['rd', 'res'], (rd, rp), {'rd': True, 'rp': True}, follow_labelled=False)


@R('flush-boundary', 'an object spanning two pages is copied into both of them, and both are marked modified, before it is marked clean; '
   'this also happens when it leaves the cache', 5)
def _(ctx, p, c):
    f = p.need('db0::BoundaryLock::flushBoundary')
    L = {}
    for s in ('lhs', 'rhs'):
        L['d' + s] = Call('db0::ResourceLock::setDirty', recv=F('m_' + s))
        L['c' + s] = memcopy(lambda t, s=s: 'm_%s' % s in show(t).split(',')[0], lambda t: 'm_data' in show(t))
    L['reset'] = call_on('commit_reset', anything)
    order(ctx, c, f.q, f, L, [('%s<reset' % x, 'marked clean before %s' % w) for x, w in (('dlhs', 'the first page was marked'), ('drhs', 'the second page was marked'), ('clhs', 'the first page was updated'), ('crhs', 'the second page was updated'))],
          (), LOCKED, {'locked': True}, follow_labelled=False)
    order(ctx, c, f.q + ' completes', f, dict(L, got=ISLOCKED), ['got>reset', 'got>clhs', 'got>crhs'], [], LOCKED, {'locked': True}, follow_labelled=False)
    fb = {'fb': Call('db0::BoundaryLock::flushBoundary')}
    order(ctx, c, 'end of a boundary lock', p.need('db0::BoundaryLock::~BoundaryLock'), fb, [], ['fb'], follow_labelled=False)
    f = p.need('db0::BoundaryLock::_tryFlush')
    order(ctx, c, f.q, f, dict(fb, fl=Call('db0::ResourceLock::tryFlush')), ['fb<fl'], ['fb'], (FULL,), {'fm': 'full'}, follow_labelled=False)
    # reading builds the object from both pages
    f = max(p.fns_q('db0::BoundaryLock::BoundaryLock'), key=lambda x: sum('lhs' in str(a) for a in x.params) + (len(x.params) == 7) * 10)
    rd = Flag('rd', lambda t: show(t).endswith('(read)') or show(t).endswith('(AccessOptions::read)'))
    L2 = {'l': memcopy(None, lambda t: 'lhs' in show(t)), 'r': memcopy(None, lambda t: 'rhs' in show(t))}
    order(ctx, c, 'reading across a page boundary', f, L2, [], ['l', 'r'], (rd,), {'rd': True}, follow_labelled=False)


@R('flush-set', 'a page leaves the set of pages to be flushed only after it was flushed; pages still in use are not flushed early', 6)
def _(ctx, p, c):
    er = call_on('erase', F('m_locks')); cl = call_on('clear', F('m_locks'))
    tf = Call('db0::ResourceLock::tryFlush'); fl = Call('db0::ResourceLock::flush')
    f = p.need('db0::DirtyCache::tryFlush')
    L = {'try': tf, 'erase': er, 'clear': cl}
    guard_rule(ctx, c, f.q, f, L, (), [({}, {'erase': 'never', 'clear': 'never'}, 'a page that could not be flushed is dropped', {'try': False}), ({}, {'erase': 'may'}, 'flushed pages are never removed', {'try': True})], follow_labelled=False)
    f = p.need('db0::DirtyCache::flush', 0)
    it = Flag('more', shows(r'm_locks\.end\(\)'))
    L = {'fl': fl, 'clear': cl, 'erase': er}
    got, outs, q = reach(ctx, f, L, (), {}, follow_labelled=False)
    order(ctx, c, f.q, f, dict(L, deref=call_on('operator*', anything)), ['deref~fl', ('-erase', 'pages are removed one by one')], ['clear'], follow_labelled=False)
    order(ctx, c, f.q + ' every page', f, dict(L, deref=call_on('operator++', lambda t: not fld('m_dirty_meter_ptr')(t))), [('deref~fl', ''), ('fl<deref', 'a page is skipped')], (), follow_labelled=False)
    f = p.need('db0::DirtyCache::flush', 1)
    uc = Ord('uc', shows(r'use_count\(\)$'), lit(2))
    L = {'fl': fl, 'erase': er, 'clear': cl, 'next': call_on('operator++', anything)}
    order(ctx, c, f.q + ' by size', f, L, [('next~fl', ''), ('erase~fl', ''), ('fl<erase', 'a page is dropped without being flushed'), ('-clear', 'all pages are dropped')], (), (uc,), {}, follow_labelled=False)
    guard_rule(ctx, c, f.q + ' pages in use', f, L, (uc,), [({'uc': '>'}, {'fl': 'never', 'erase': 'never'}, 'a page in use is flushed early'), ({'uc': '='}, {'fl': 'may'}, 'idle pages are never flushed')], follow_labelled=False)
    f = p.need('db0::DirtyCache::flushDirty')
    rs = Flag('rs', calls('db0::ResourceLock::resetDirtyFlag'))
    L = {'rs': Call('db0::ResourceLock::resetDirtyFlag'), 'sink': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator()', call=lambda s: s.name == 'operator()'), 'clear': cl}
    order(ctx, c, f.q, f, L, ['rs~sink'], ['clear'], (rs,), {}, follow_labelled=False)
    order(ctx, c, f.q + ' each modified page', f, L, [('rs>sink', 'a modified page is marked clean without being passed on'), ('rs~sink', '')], (), (rs,), {'rs': True}, follow_labelled=False)


@R('evict', 'only pages nobody uses and that are not modified are dropped from memory', 3)
def _(ctx, p, c):
    f = [x for x in p.fns_q('db0::CacheRecycler::adjustSize') if len(x.params) == 3][0]
    uc = Ord('uc', shows(r'use_count\(\)$'), lit(1))
    dirty = Flag('dirty', calls('isDirty'))
    L = {'erase': call_on(('erase', 'pop_front', 'pop_back', 'clear'), anything)}
    guard_rule(ctx, c, f.q, f, L, (uc, dirty), [({'uc': '>', 'dirty': False}, {'erase': 'never'}, 'a page in use is dropped'), ({'uc': '=', 'dirty': True}, {'erase': 'never'}, 'a modified page is dropped'),
                                               ({'uc': '=', 'dirty': False}, {'erase': 'may'}, 'nothing is ever dropped')], follow_labelled=False)
    f = p.need('db0::ResourceLock::moveFrom')
    L = {'d': Call('db0::ResourceLock::setDirty', recv=lambda t: t in (None, ('this',))), 'cp': memcopy(lambda t: 'm_data' in show(t), lambda t: 'other' in show(t)), 'drop': Call('db0::ResourceLock::discard')}
    order(ctx, c, f.q, f, L, [('cp<drop', 'the source is discarded before its content was taken over'), ('d<drop', 'the target is not marked modified')], ['cp', 'd', 'drop'], follow_labelled=False)
    for cls in ('DP_Lock',):
        f = p.need('db0::%s::updateStateNum' % cls)
        L = {'st': Assign('db0::%s::m_state_num' % cls), 'd': Call('db0::ResourceLock::setDirty')}
        order(ctx, c, f.q, f, L, [('st<d', 'marked modified under the old state')], ['st', 'd'], follow_labelled=False)


@R('expire', 'the page index forgets only entries whose page is gone from memory, and never the newest one of the running state', 2)
def _(ctx, p, c):
    done = set()
    for f in p.fns_q('db0::PageMap::clearExpired'):
        if f.line in done:
            continue
        done.add(f.line)
        ex = Flag('ex', calls('expired'))
        L = {'erase': call_on('erase', F('m_cache')), 'clear': call_on('clear', F('m_cache'))}
        guard_rule(ctx, c, f.q, f, L, (ex,), [({'ex': False}, {'erase': 'never', 'clear': 'never'}, 'an entry whose page is alive is dropped'), ({'ex': True}, {'erase': 'may'}, 'nothing is ever dropped')], follow_labelled=False)
    for n, k in (('db0::PageMap::replace', None),):
        done = set()
        for f in p.fns_q(n):
            if f.line in done:
                continue
            done.add(f.line)
            alive = Flag('alive', shows(r'\.second(\.lock\(\))?$'))
            found = Found('found', F('m_cache'))
            L = {'erase': call_on('erase', F('m_cache')), 'ins': [Call('db0::PageMap::insert')], 'asg': Custom(lambda ev: False)}
            guard_rule(ctx, c, f.q, f, L, (alive, found), [({'alive': True, 'found': True}, {'erase': 'never', 'ins': 'never'}, 'a live page of the state is replaced'),
                                                          ({'alive': False, 'found': True}, {'ins': 'must'}, 'the new page is not recorded'), ({'found': False}, {'ins': 'must'}, 'the new page is not recorded')], follow_labelled=False)
