"""C03 past states are never overwritten; snapshots stay what they were"""
from ..q import *
from ..report import Rules

R = Rules()
check = R.check
W = Flag('w', shows(r'operator\[\]\((AccessOptions::)?write\)$'))
RD = Flag('r', shows(r'operator\[\]\((AccessOptions::)?read\)$'))
NF = Flag('nf', shows(r'operator\[\]\((AccessOptions::)?no_flush\)$'))
loc = lambda t: isinstance(t, tuple) and t and t[0] in ('local', 'param')
EXT = Not('ext', 'db0::ExtSpace::operator!')


@R('page-overwrite', 'a full page is overwritten in place exactly when the page version found for the write has the very state being '
   'written; otherwise the page is appended at a new place and registered under the new state', 8)
def _(ctx, p, c):
    f = p.need('db0::BDevStorage::write')
    L = {'write': Call('db0::Page_IO::write'), 'append': Call('db0::Diff_IO::append'), 'reg': Call('db0::SparseIndexBase::emplace'),
         'look': Call('db0::SparseIndexBase::lookup'), 'rel': Call('db0::ExtSpace::assignRelative'), 'abs': Call('db0::ExtSpace::getAbsolute')}
    found = Flag('found', shows(r'lookup\(.*\)\.operator bool\(\)$'))
    st = Ord('st', lambda t: bool(last_field(t)) and last_field(t).endswith('Item::m_state_num'), param(idx=1))
    at = (found, st, EXT)
    for e in (True, False):
        for fo, s in ((False, '<'), (True, '<'), (True, '>')):
            order(ctx, c, 'found=%s stored%sstate ext=%s' % (fo, s, e), f, L,
                  [('-write', 'a page of another state is overwritten in place'), ('append<reg', 'a page is registered before it was written'),
                   ('append>reg', 'an appended page is not registered')] + ([('rel<reg', 'an absolute position is registered')] if e else [('-rel', 'a position is translated without extension space')]),
                  ['append', 'reg'], at, {'found': fo, 'st': s, 'ext': e}, follow_labelled=False)
        order(ctx, c, 'same state ext=%s' % e, f, L, [('-append', 'a second version of the same state is appended'), ('-reg', 'a version is registered twice'), ('look<write', 'written without looking up')] +
              ([('abs<write', 'a relative position is used for writing')] if e else [('-abs', 'a position is translated without extension space')]),
              ['write'], at, {'found': True, 'st': '=', 'ext': e}, follow_labelled=False)


@R('page-key', 'the page version looked up, overwritten and registered is the one of the page number and state being written', 3)
def _(ctx, p, c):
    f = p.need('db0::BDevStorage::write')
    look = [e.args for e in collect(ctx, f, 'db0::SparseIndexBase::lookup')]; reg = [e.args for e in collect(ctx, f, 'db0::SparseIndexBase::emplace')]
    ctx.check(bool(look) and all(param(idx=1)(a[1]) for a in look), c, 'lookup at the written state', 'the lookup does not use the state being written', f.where)
    ctx.check(bool(reg) and all(param(idx=1)(a[1]) for a in reg), c, 'registered under the written state', 'the registration does not use the state being written', f.where)
    ctx.check(bool(look) and bool(reg) and all(a[0] == b[0] for a in look for b in reg), c, 'same page number', 'the page looked up is not the page registered', f.where)
    f = p.need('db0::BDevStorage::tryWriteDiffs')
    ins = [e.args for e in collect(ctx, f, 'db0::DiffIndex::insert')]
    ctx.check(bool(ins) and all(param(idx=1)(a[1]) for a in ins), c, 'diff registered under the written state', 'the diff registration does not use the state being written', f.where)


@R('diff-append', 'a diff is appended only on top of a base of another state and within the chain limit, is registered under its page and state, '
   'and otherwise nothing is written and the caller is told so', 5)
def _(ctx, p, c):
    f = p.need('db0::BDevStorage::tryWriteDiffs')
    L = {'append': Call('db0::Diff_IO::appendDiff'), 'reg': Call('db0::DiffIndex::insert'), 'rel': Call('db0::ExtSpace::assignRelative')}
    base = Ord('base', calls('firstStateNum'), param(idx=1))
    left = Flag('left', calls('leftLessThan'))
    at = (base, left, EXT)
    for b, l in (('=', True), ('=', False), ('<', False)):
        order(ctx, c, 'base%sstate room=%s' % (b, l), f, L, [('-append', 'a diff is written on top of the same state or beyond the chain limit'), ('-reg', 'a diff is registered without being written')],
              (), at, {'base': b, 'left': l}, lambda seen, o: 'an unwritten diff is reported as written' if o.kind == 'ret' and o.ret is not False else None, follow_labelled=False)
    for e in (True, False):
        order(ctx, c, 'allowed ext=%s' % e, f, L, [('append<reg', 'registered before written'), ('append>reg', 'a written diff is not registered')] +
              ([('rel<reg', 'an absolute position is registered')] if e else []), ['append', 'reg'], at, {'base': '<', 'left': True, 'ext': e},
              lambda seen, o: 'a written diff is reported as not written' if o.kind == 'ret' and o.ret is not True else None, follow_labelled=False)


@R('page-read', 'a page is read as its newest full version not beyond the requested state (zero when there is none), with every later diff up '
   'to that state applied in order; a page that does not exist is an error for a reading access and zero for a creating one', 7)
def _(ctx, p, c):
    f = p.need('db0::BDevStorage::_read')
    L = {'q': Call('db0::SparseIndexQuery::SparseIndexQuery', arg={3: param(idx=1)}), 'read': Call('db0::Page_IO::read'), 'zero': Call('memset'), 'apply': Call('db0::Diff_IO::applyFrom'),
         'next': Call('db0::SparseIndexQuery::next'), 'first': Call('db0::SparseIndexQuery::first'), 'abs': Call('db0::ExtSpace::getAbsolute')}
    empty = Flag('empty', calls('db0::SparseIndexQuery::empty'))
    base = Flag('base', calls('db0::SparseIndexQuery::first'))
    nxt = Flag('next', calls('db0::SparseIndexQuery::next'))
    at = (empty, base, EXT, RD, W)
    for e in (True, False):
        order(ctx, c, 'full version ext=%s' % e, f, L, [('q<read', 'read without looking up the requested state'), ('read<apply', 'a diff is applied before its base was read'), ('-zero', 'an existing page is zeroed')] +
              ([('abs<read', 'a relative position is used for reading')] if e else [('-abs', 'a position is translated without extension space')]),
              ['read'], at, {'empty': False, 'ext': e, 'w': False}, rets={'first': True}, loop_once=True, follow_labelled=False)
    order(ctx, c, 'no full version', f, L, [('zero<apply', 'a diff is applied to an uninitialised page'), ('-read', 'a page without a full version is read from disk')],
          ['zero'], at, {'empty': False, 'w': False}, rets={'first': False}, loop_once=True, follow_labelled=False)
    order(ctx, c, 'each diff is applied', f, L, [('next~apply', ''), ('next~q', ''), ('q|apply<next', 'a diff of the version chain is skipped')], ['next'], (empty, base, EXT, W), {'empty': False, 'w': False},
          follow_labelled=False)
    order(ctx, c, 'diff position', f, L, [('abs~abs', ''), ('next~abs', ''), ('abs<apply', 'a relative position is used for a diff')], (), (empty, EXT, W), {'empty': False, 'w': False, 'ext': True}, rets={'first': False},
          loop_once=True, follow_labelled=False)
    guard_rule(ctx, c, 'missing page', f, dict(L, ret=Ret()), at, [({'empty': True, 'r': True, 'w': False}, {'read': 'never', 'apply': 'never', 'zero': 'never'}, 'a missing page is read as data'),
                                                     ({'empty': True, 'r': False, 'w': False}, {'zero': 'may', 'read': 'never'}, 'a new page is not initialised')], follow_labelled=False)
    guard_rule(ctx, c, 'write access to a read-only file', f, L, at + (MODE,), [({'w': True, 'mode': 'READ_ONLY'}, {'q': 'never', 'read': 'never'}, 'a page of a read-only file is handed out for writing')], follow_labelled=False)


@R('version-choice', 'the version chain of a page at a state starts at the newest full version at or before that state, continues with the '
   'first later diff, and stops before anything beyond that state', 7)
def _(ctx, p, c):
    f = p.need('db0::SparseIndexQuery::SparseIndexQuery')
    plus1 = lambda t: isinstance(t, tuple) and t[0] == 'op' and t[1] == '+' and fld('m_state_num')(t[2]) and lit(1)(t[3])
    L = {'look': Call('db0::SparseIndexBase::lookup', arg={1: param(idx=3)}), 'after': Call('db0::DiffIndex::findUpper', arg={1: plus1}), 'first': Call('db0::DiffIndex::findUpper', arg={1: lit(1)}),
         'any': Call('db0::DiffIndex::findUpper')}
    full = Flag('full', shows(r'm_full_dp\.operator bool\(\)$'))
    st = Ord('st', shows(r'm_full_dp\.m_state_num$'), any_of(param(idx=3), fld('m_query_state_num')))
    order(ctx, c, 'older full version', f, L, [('-first', 'diffs older than the full version are considered')], ['after', 'look'], (full, st), {'full': True, 'st': '<'}, follow_labelled=False)
    order(ctx, c, 'no full version', f, L, [('-after', 'the diff search starts from a missing version')], ['first', 'look'], (full, st), {'full': False, 'st': '<'}, follow_labelled=False)
    diff = Flag('diff', shows(r'm_diff_dp\.operator bool\(\)$'))
    dst = Ord('dst', shows(r'm_diff_dp\.m_state_num$'), fld('m_query_state_num'))
    E = {'none': Assign('db0::SparseIndexQuery::m_non_empty', '=', value=lit(False))}
    for d, s in ((False, '<'), (True, '>')):
        order(ctx, c, 'empty: diff=%s diff%sstate' % (d, s), f, E, [], ['none'], (full, st, diff, dst), {'full': False, 'diff': d, 'dst': s, 'st': '<'}, follow_labelled=False)
    for s in '<=':
        order(ctx, c, 'not empty: diff%sstate' % s, f, E, [('-none', 'an existing page is reported missing')], [], (full, st, diff, dst), {'full': False, 'diff': True, 'dst': s, 'st': '<'}, follow_labelled=False)
    order(ctx, c, 'not empty: full version', f, E, [('-none', 'an existing page is reported missing')], [], (full, st, diff, dst), {'full': True, 'diff': False, 'dst': '<', 'st': '<'}, follow_labelled=False)
    f = p.need('db0::SparseIndexQuery::next')
    at_end = Ord('end', lambda t: fld('m_state_num')(t) and show(t).count('.') == 1, fld('m_query_state_num'))
    it = Flag('it', shows(r'm_diff_it\.operator bool\(\)$'))
    itn = Flag('itn', calls('db0::DI_Item::ConstIterator::next'))
    outst = Ord('out', param(idx=0), fld('m_query_state_num'))

    def no(seen, o):
        return 'a version beyond the requested state is returned' if o.kind == 'ret' and o.ret is not False else None
    for s in '=>':
        order(ctx, c, 'chain end, current%srequested' % s, f, {}, [], (), (at_end,), {'end': s}, no)
    order(ctx, c, 'no more diffs', f, {}, [], (), (at_end, diff), {'end': '<', 'diff': False}, no)
    order(ctx, c, 'diff block beyond', f, {}, [], (), (at_end, diff, dst), {'end': '<', 'diff': True, 'dst': '>'}, no)
    order(ctx, c, 'diff beyond inside a block', f, {}, [], (), (at_end, diff, dst, it, itn, outst), {'end': '<', 'diff': True, 'dst': '<', 'it': True, 'itn': True, 'out': '>'}, no, loop_once=True)


@R('cow', 'a page or range of an older state is copied, never changed in place, when it is mapped for modification; an entry of the requested '
   'state is used as it is', 12)
def _(ctx, p, c):
    same = Ord('same', lambda t: loc(t), param('state_num'))
    for q, find, copy, create in (('db0::PrefixImpl::mapPage', ['db0::PrefixCache::findPage'], 'db0::PrefixCache::insertCopy', 'db0::PrefixCache::createPage'),
                                  ('db0::PrefixImpl::mapWideRange', ['db0::PrefixCache::findRange'], 'db0::PrefixCache::insertWideCopy', 'db0::PrefixCache::createRange')):
        f = p.need(q)
        si = f_param(f, 'state_num')
        same = Ord('same', loc, param(idx=si))
        L = {'find': Call(find), 'copy': Call(copy), 'create': Call(create)}
        hit = Flag('hit', shows(r'^%\w+(\.second)?(\.operator bool\(\))?$'))
        al = Flag('al', calls('isPageAligned'))
        at = (W, RD, NF, same, hit, al)
        for s in '<>':
            guard_rule(ctx, c, '%s modify, cached%sstate' % (q, s), f, L, at, [({'w': True, 'r': True, 'hit': True, 'same': s}, {'copy': 'must', 'create': 'never'}, 'an older version is modified in place')], follow_labelled=False)
            guard_rule(ctx, c, '%s overwrite, cached%sstate' % (q, s), f, L, at, [({'w': True, 'r': False, 'hit': True, 'same': s}, {'create': 'must'}, 'an older version is overwritten in place')], follow_labelled=False)
        for r in (True, False):
            guard_rule(ctx, c, '%s same state read=%s' % (q, r), f, L, at, [({'w': True, 'r': r, 'hit': True, 'same': '='}, {'create': 'never', 'copy': 'never'}, 'changes of the running transaction are replaced')], follow_labelled=False)
        guard_rule(ctx, c, '%s read only' % q, f, L, at, [({'w': False, 'hit': True, 'same': '<'}, {'create': 'never', 'copy': 'never'}, 'reading creates a new version')], follow_labelled=False)
        guard_rule(ctx, c, '%s read only, not cached' % q, f, dict(L, rd=Call(create, arg={(2 if 'Page' in create else 3): lit(0)})), at,
                   [({'w': False, 'hit': False, 'same': '<'}, {'rd': 'must', 'copy': 'never'}, 'reading creates a writable version')], follow_labelled=False)
    f = p.need('db0::PrefixImpl::mapBoundaryRange')
    L = {'copy': Call('db0::PrefixCache::insertCopy'), 'lhs': Call('db0::PrefixImpl::mapPage')}
    same = Ord('same', loc, param(idx=f_param(f, 'state_num')))
    for s in '<>':
        guard_rule(ctx, c, 'boundary modify, cached%sstate' % s, f, L, (W, RD, same), [({'w': True, 'same': s}, {'copy': 'must'}, 'an older version is modified in place')], follow_labelled=False)
    guard_rule(ctx, c, 'boundary same state', f, L, (W, RD, same), [({'w': True, 'same': '='}, {'copy': 'never'}, 'changes of the running transaction are replaced')], follow_labelled=False)
    guard_rule(ctx, c, 'boundary read only', f, L, (W, RD, same), [({'w': False, 'same': '<'}, {'copy': 'never'}, 'reading creates a new version')], follow_labelled=False)


def f_param(f, name):
    for i, n in enumerate(f.params):
        if n == name:
            return i
    # the state number is the only parameter of its type
    r = [i for i, t in enumerate(f.sym.pt) if t in ('unsigned int', 'StateNumType')]
    if len(r) != 1:
        raise AnalysisError('state parameter of %s not identified' % f.q)
    return r[0]


@R('in-place-upgrade', 'a cached page or range of an older state is turned into one of the new state only when it may be reused and nobody but the '
   'recycler holds it; it then leaves the old state\'s map, is re-registered under the new state and becomes dirty; never for a change that may be cancelled', 12)
def _(ctx, p, c):
    for q, rd, st in (('db0::PrefixCache::findPage', 3, 1), ('db0::PrefixCache::findRange', 6, 4)):
        f = p.need(q)
        L = {'upd': Call(['db0::DP_Lock::updateStateNum', 'db0::WideLock::updateStateNum']), 'erase': Call('db0::PageMap::erase'), 'ins': Call('db0::PageMap::insert'),
             'dirty': Call('db0::ResourceLock::setDirty'), 'vol': any_store('m_volatile_locks', 'm_volatile_wide_locks')}
        same = Ord('same', param(idx=rd), param(idx=st))
        reuse = Flag('reuse', calls('db0::ResourceLock::allowReuse'))
        cnt = Ord('cnt', shows(r'use_count\(\)$'), anything)
        ref = Flag('ref', shows(r'find\(.*\)$'))
        miss = Flag('miss', lambda t: isinstance(t, tuple) and t[0] == 'op' and t[1] == '==' and (shows('m_missing')(t[2]) or shows('m_missing')(t[3])))
        # a lookup that hit, with a live entry of the requested range
        at = (W, RD, NF, same, reuse, cnt, miss)
        for w, s, r, k in ((False, '<', True, '='), (True, '=', True, '='), (True, '<', False, '='), (True, '<', True, '>')):
            order(ctx, c, '%s refused: write=%s cached%sstate reuse=%s holders%s' % (q, w, s, r, k), f, L,
                  [('-upd', 'an entry that is still in use, or must not change, is moved to another state'), ('-erase', 'an entry is dropped from its state'), ('-dirty', 'an entry of a past state is marked dirty')],
                  (), at, {'w': w, 'same': s, 'reuse': r, 'cnt': k, 'miss': False}, follow_labelled=False)
        up = {'w': True, 'same': '<', 'reuse': True, 'cnt': '=', 'miss': False}
        order(ctx, c, '%s refused: volatile' % q, f, L, [('-upd', 'an atomic operation moves a committed entry to its own state, so cancelling it forgets the committed content'), ('-erase', 'an entry is dropped from its state')],
              (), at, dict(up, nf=True), follow_labelled=False)
        order(ctx, c, '%s upgraded' % q, f, L, [('erase<upd', 'the old state keeps an entry that changes'), ('upd<ins', 'registered before its state was updated'), ('upd>ins', 'an upgraded entry is not registered'),
                                                ('upd>dirty', 'an upgraded entry is not marked dirty'), ('-vol', 'a lasting change is registered as volatile')], (), at, dict(up, nf=False), follow_labelled=False)
        guard_rule(ctx, c, '%s upgrade happens' % q, f, L, at, [(dict(up, nf=False), {'upd': 'may'}, 'an unused entry is never reused')])
    f = p.need('db0::ResourceLock::allowReuse')
    fl = lambda n: Flag(n, lambda t, n=n: n in show(t) and not show(t).startswith('('))


def any_store(*names):
    return Custom(lambda ev: any(store(n).match(ev) for n in names), call=lambda s: s.name in ('push_back', 'emplace_back', 'insert', 'emplace'))


@R('snapshot-state', 'a snapshot can be taken only of a finalised state: in the writing process strictly before the running one, in a reader up to '
   'the state it has loaded; without a requested state the newest such state is used; a snapshot of nothing is refused', 8)
def _(ctx, p, c):
    f = p.need('db0::PrefixImpl::getSnapshot')
    req = Flag('req', lambda t: param(idx=0)(t))
    low = Ord('low', param(idx=0), lit(1))
    high = Ord('high', param(idx=0), fld('m_head_state_num'))
    hl = Ord('head', any_of(fld('m_head_state_num'), loc), lit(1))
    L = {'view': Call('db0::PrefixViewImpl::PrefixViewImpl')}
    at = (req, low, high, hl, MODE)
    for m, lo, hi, okk in (('READ_WRITE', '=', '<', 1), ('READ_WRITE', '>', '<', 1), ('READ_WRITE', '>', '=', 0), ('READ_WRITE', '>', '>', 0), ('READ_WRITE', '<', '<', 0), ('READ_ONLY', '<', '<', 0),
                           ('READ_ONLY', '>', '=', 1), ('READ_ONLY', '=', '=', 1), ('READ_ONLY', '>', '<', 1), ('READ_ONLY', '>', '>', 0)):
        guard_rule(ctx, c, '%s requested%s1 requested%shead' % (m, lo, hi), f, L, at,
                   [({'req': True, 'low': lo, 'high': hi, 'mode': m, 'head': '>'}, {'view': 'may' if okk else 'never'}, 'a valid state is refused' if okk else 'an unavailable or unfinished state is served')], force_follow=lambda s: s.lam)
    for s in '=<':
        guard_rule(ctx, c, 'no state yet %s' % s, f, L, at, [({'req': False, 'mode': 'READ_WRITE', 'head': s}, {'view': 'never'}, 'a snapshot of an unfinished state is served')])
    dec = Custom(lambda ev: ev.kind == 'asg' and (ev.op in ('--', '-=') or ev.op == '=' and shows(r'm_head_state_num - 1|- 1\)')(ev.rhs)) and loc(ev.lhs))
    order(ctx, c, 'default of a writer is the state before', f, dict(L, dec=dec), [('dec<view', 'the running transaction is served as a snapshot')], ['view'], at, {'req': False, 'mode': 'READ_WRITE', 'head': '>'})
    order(ctx, c, 'default of a reader is its state', f, dict(L, dec=dec), [('-dec', 'a reader\'s newest state is not served')], ['view'], at, {'req': False, 'mode': 'READ_ONLY', 'head': '>'})


@R('snapshot-page', 'a snapshot shares a page or range with the writing process only when it is exactly the version the snapshot needs and after '
   'freezing it against reuse; otherwise it loads its own read-only copy of that version', 8)
def _(ctx, p, c):
    for q, find, create, ins, ci in (('db0::PrefixViewImpl::mapPage', 'db0::PrefixCache::findPage', 'db0::PrefixCache::createPage', 'db0::SnapshotCache::insert', (1, 2)),
                                     ('db0::PrefixViewImpl::mapWideRange', 'db0::PrefixCache::findRange', 'db0::PrefixCache::createRange', 'db0::SnapshotCache::insertWide', (2, 3))):
        f = p.need(q)
        own = Flag('own', shows(r'm_cache\.find(Page|Range)\('))
        L = {'freeze': Call('db0::ResourceLock::freeze'), 'share': Call(ins), 'head': Call(find, recv=F('m_head_cache')),
             'own': Call(find, recv=F('m_cache'), arg={(1 if 'Page' in find else 4): F('m_state_num')}), 'create': Call(create)}
        hit = Flag('hit', shows(r'^%\w+(\.second)?(\.operator bool\(\))?$'))
        ver = Ord('ver', loc, loc)
        al = Flag('al', calls('isPageAligned'))
        order(ctx, c, q + ' freeze before sharing', f, L, [('freeze<share', 'a page is shared with the writer without freezing it'), ('own<head', 'the own cache is not consulted first')], ['own'], (), {}, follow_labelled=False)
        for s in '<>':
            order(ctx, c, q + ' version%swanted' % s, f, L, [('-share', 'another version is served to the snapshot'), ('-freeze', 'a version that is not used is frozen')], ['create|own'], (ver,), {'ver': s}, follow_labelled=False)
        ro = [e for e in collect(ctx, f, create)]
        ctx.check(bool(ro) and all(lit(0)(e.args[ci[1]]) for e in ro), c, q + ' own copies are read-only', 'a snapshot creates a writable version', f.where)
    f = p.need('db0::PrefixViewImpl::mapBoundaryRange')
    e = collect(ctx, f, 'db0::PrefixCache::findBoundaryRange')
    ctx.check(bool(e) and all(F('m_state_num')(x.args[3]) and 'write' not in show(x.args[4]) for x in e), c, 'boundary ranges are read at the snapshot state', 'a boundary range of another state or for writing is used', f.where)
    f = p.need('db0::PrefixViewImpl::mapRange', 3)
    guard_rule(ctx, c, 'writing access to a snapshot', f, {'m': Call(['db0::PrefixViewImpl::mapPage', 'db0::PrefixViewImpl::mapWideRange', 'db0::PrefixViewImpl::mapBoundaryRange'])}, (W,),
               [({'w': True}, {'m': 'never'}, 'a snapshot hands out memory for writing')])


@R('state-bound-lookup', 'the page cache never returns an entry of a state beyond the requested one or of another page', 6)
def _(ctx, p, c):
    n = 0
    for cls in ('DP_Lock', 'WideLock', 'BoundaryLock'):
        fs = [f for f in p.fns_q('db0::PageMap::findImpl') if f.sym.cls and cls in f.sym.cls]
        if not fs:
            continue
        f = fs[0]
        pg = Flag('pg', lambda t: isinstance(t, tuple) and t[0] == 'op' and t[1] == '==' and 'first.first' in show(t))
        st = Ord('st', shows(r'first\.second$'), param(idx=1))
        some = Flag('some', lambda t: False)

        def none(seen, o):
            return None
        for a, s in ((False, '<'), (False, '='), (True, '>')):
            n += 1
            r, outs, q = reach(ctx, f, {'ret': RetRx(r'end\(\)'), 'hit': RetRx(r'^(?!.*end\(\))')}, (pg, st), {'pg': a, 'st': s})
            ctx.check('hit' not in r and 'ret' in r, c, '%s page match=%s state%srequested' % (cls, a, s), 'an entry of another page or a later state is returned', f.where)
        r, outs, q = reach(ctx, f, {'ret': RetRx(r'end\(\)'), 'hit': RetRx(r'^(?!.*end\(\))')}, (pg, st), {'pg': True, 'st': '='})
        ctx.check('hit' in r, c, '%s exact' % cls, 'a matching entry is not found', f.where)


def RetRx(rx):
    return Custom(lambda ev: ev.kind == 'ret' and ev.term is not None and re.search(rx, show(ev.term)) is not None)


@R('fresh-place', 'appended pages go to places never used before: a full block is left for a newly allocated one, every append moves the position, '
   'and a new block starts at the end of everything in the file', 4)
def _(ctx, p, c):
    full = Ord('full', F('m_page_count'), F('m_block_capacity'))
    f = p.need('db0::Page_IO::append', 2, ['.*', 'bool'])
    L = {'alloc': Call('db0::Page_IO::allocateNextBlock'), 'write': Call('db0::CFile::write'), 'move': Assign('db0::Page_IO::m_page_count', None, None)}
    L['move'] = Custom(lambda ev: ev.kind == 'asg' and F('m_page_count')(ev.lhs) and ev.op in ('++', '+='), field=lambda q: q.endswith('Page_IO::m_page_count'))
    order(ctx, c, 'append to a full block', f, L, [('alloc<write', 'the page after the end of a block is overwritten')], ['alloc', 'write', 'move'], (full,), {'full': '='}, follow_labelled=False)
    order(ctx, c, 'append', f, L, [('write>move', 'the next page overwrites this one')], ['write'], (full,), {'full': '<'}, follow_labelled=False)
    f = p.need('db0::Page_IO::append', 2, ['.*', 'unsigned'])
    L['move'] = [L['move'], Call('db0::Page_IO::moveBy')]
    order(ctx, c, 'append many', f, L, [('write>move', 'the next page overwrites this one')], [], (full,), {'full': '<'}, follow_labelled=False)
    f = p.need('db0::Page_IO::allocateNextBlock')
    af = lambda q: q.endswith('Page_IO::m_address')
    L = {'tail': Custom(lambda ev: ev.kind == 'asg' and F('m_address')(ev.lhs) and ev.op == '=' and 'm_tail_function' in show(ev.rhs) and 'max(' in show(ev.rhs), field=af),
         'step': Custom(lambda ev: ev.kind == 'asg' and F('m_address')(ev.lhs) and ev.op == '+=' and F('m_block_size')(ev.rhs), field=af),
         'addr': Custom(lambda ev: ev.kind == 'asg' and F('m_address')(ev.lhs), field=af),
         'zero': Custom(lambda ev: ev.kind == 'asg' and F('m_page_count')(ev.lhs) and lit(0)(ev.rhs), field=lambda q: q.endswith('Page_IO::m_page_count'))}
    blk = Flag('blk', F('m_block_num'))
    st = Ord('st', F('m_block_num'), shows('m_step_size'))
    for b, s in ((False, '<'), (True, '='), (True, '>')):
        order(ctx, c, 'new step at the tail %s %s' % (b, s), f, L, [('-step', 'a new step is placed over existing data')], ['tail', 'zero'], (blk, st), {'blk': b, 'st': s})
    order(ctx, c, 'next block of the step', f, L, [], ['step|tail', 'zero'], (blk, st), {'blk': True, 'st': '<'})


@R('index-bookkeeping', 'every page version added to an index updates its header (newest state, next storage page) and is named in the change-log', 4)
def _(ctx, p, c):
    for f in p.fns_q('db0::SparseIndexBase::insert')[:2]:
        L = {'ins': Custom(lambda ev: ev.kind == 'call' and F('m_index')(ev.recv) and ev.sym.name == 'insert', call=lambda s: s.name == 'insert'),
             'log': call_on(('push_back', 'emplace_back'), F('m_change_log_ptr')),
             'max': store('m_max_state_num'), 'hdr': Custom(lambda ev: ev.kind == 'asg' and last_field(ev.lhs) and last_field(ev.lhs).endswith('o_sparse_index_header::m_max_state_num'), field=lambda q: q.endswith('o_sparse_index_header::m_max_state_num')),
             'next': Custom(lambda ev: ev.kind == 'asg' and last_field(ev.lhs) and last_field(ev.lhs).endswith('o_sparse_index_header::m_next_page_num'), field=lambda q: q.endswith('o_sparse_index_header::m_next_page_num'))}
        cl = Flag('cl', F('m_change_log_ptr'))
        mx = Ord('mx', F('m_state_num'), F('m_max_state_num'))
        nx = Ord('nx', F('m_storage_page_num'), F('m_next_page_num'))
        nm = 'si' if 'SI_Item' in (f.sym.cls or '') else 'di'
        order(ctx, c, nm + ' newest', f, L, [], ['ins', 'log', 'hdr'], (cl, mx), {'cl': True, 'mx': '>'})
        order(ctx, c, nm + ' older', f, L, [('-hdr', 'the newest state goes backwards')], ['ins', 'log'], (cl, mx), {'cl': True, 'mx': '<'})
        for s in '=>':
            order(ctx, c, nm + ' next page %s' % s, f, L, [], ['ins', 'next'], (cl, nx), {'cl': True, 'nx': s})
