"""C06 a reader moves from one published state to the next, completely"""
from ..q import *
from ..report import Rules

R = Rules()
check = R.check
B = 'db0::BDevStorage::'
EXT = NegCall('ext', 'db0::ExtSpace::operator!', 'm_ext_space')
calls_any = lambda *n: any_of(*[calls(x) for x in n])
CONS = Flag('cons', lambda t: isinstance(t, tuple) and t and (t[0] == 'l' and 'consist' in str(t) or calls('db0::DRAM_IOStream::completeApplyChanges')(t)))


@R('sequence', 'a refresh applies the index changes of one published state completely, checks that they lead to that very state, and only then '
   'follows the page change-log; metadata and the pending mark follow last', 11)
def _(ctx, p, c):
    f = p.need(B + 'completeRefresh')
    L = {'pos': Call('db0::BlockIOStream::getStreamPos', recv=F('m_dram_changelog_io')), 'dpos': Call('db0::BlockIOStream::getStreamPos', recv=F('m_dp_changelog_io')),
         'begin': Call('db0::DRAM_IOStream::beginApplyChanges', recv=F('m_dram_io')), 'apply': Call('db0::DRAM_IOStream::completeApplyChanges', recv=F('m_dram_io')),
         'pair': Call('db0::SparsePair::refresh'), 'dpref': Call('db0::BlockIOStream::refresh', recv=F('m_dp_changelog_io')), 'dramref': Call('db0::BlockIOStream::refresh', recv=F('m_dram_changelog_io')),
         'read': Call('db0::ChangeLogIOStream::Reader::readChangeLogChunk'), 'upd': Call('std::function::operator()'), 'meta': Call('db0::BlockIOStream::refresh', recv=F('m_meta_io')),
         'done': Assign('db0::BDevStorage::m_refresh_pending', value=lit(False)), 'again': Call(B + 'beginRefresh'),
         'xbegin': Call('db0::DRAM_IOStream::beginApplyChanges', recv=F('m_ext_dram_io')), 'xapply': Call('db0::DRAM_IOStream::completeApplyChanges', recv=F('m_ext_dram_io')),
         'xref': Call('db0::BlockIOStream::refresh', recv=F('m_ext_dram_changelog_io')), 'xspace': Call('db0::ExtSpace::refresh'),
         'mod': Call('db0::CFile::getLastModifiedTime')}
    at = (EXT, CONS)
    state = Flag('more', shows(r'^this\.m_dram_io\.beginApplyChanges\('))
    kw = dict(follow_labelled=False, loop_once=True)
    order(ctx, c, 'order', f, L, [('pos<begin', 'the change-log position is not saved before it is read'), ('dpos<begin', 'the page change-log position is not saved'), ('begin<apply', 'index pages are applied before they were all read'),
                                  ('apply<pair', 'the page index is re-read before the new index pages were applied'), ('pair<upd', 'cached pages are dropped before the page index is refreshed'),
                                  ('dpref<read', 'the page change-log is read before looking for new blocks')], (), at, {'ext': False}, **kw)
    order(ctx, c, 'order with extension space', f, L, [('xref<xbegin', 'the extension change-log is not refreshed before use'), ('begin<xbegin', 'the extension is read before the main index'), ('xbegin<apply', 'the main index is applied before the extension pages were read'),
                                                       ('xapply<xspace', 'the extension space is re-read before its pages were applied')], (), at + (state,), {'ext': True, 'more': True, 'cons': True}, **kw)
    order(ctx, c, 'complete', f, L, ['apply<done', 'meta<done'], (), (CONS, EXT, state), {'more': True, 'ext': False},
          lambda seen, o: 'a refresh ends without its pending mark being cleared' if o.kind == 'ret' and 'meta' in seen and 'done' not in seen else None, **kw)
    order(ctx, c, 'pages announced', f, L, [], (), at + (state, Flag('cb', any_of(param(idx=0), lambda t: 'on_page_updated' in show(t) and 'operator bool' in show(t)))), {'ext': False, 'more': True, 'cons': True, 'cb': True},
          lambda seen, o: 'cached pages are kept although the page index moved on' if o.kind == 'ret' and 'done' in seen and not {'dpref', 'read'} <= seen else None, **kw)
    guard_rule(ctx, c, 'inconsistent index is not used', f, L, at + (state,), [({'more': True, 'cons': False, 'ext': e}, {'pair': 'never', 'upd': 'never', 'done': 'never', 'dramref': 'may'}, 'an index whose pages do not belong together is used') for e in (False,)],
               **kw)
    guard_rule(ctx, c, 'nothing new', f, L, at + (state,), [({'more': False}, {'pair': 'never', 'upd': 'never', 'apply': 'never'}, 'the index is refreshed although nothing was published')], **kw)
    guard_rule(ctx, c, 'nothing new: pending mark', f, dict(L), at + (state,), [({'more': False}, {'done': 'must', '_exit': lambda o: 'a mark survives and the file is never looked at again' if o.kind == 'ret' and 'done' not in o.state[0] else None}, 'the pending mark survives a refresh that found nothing, so the file is never looked at again')], **kw)
    same = Ord('same', any_of(shows(r'^this\.m_dram_io\.beginApplyChanges\('), lambda t: t and t[0] == 'l'), shows(r'getMaxStateNum\(\)$'))
    guard_rule(ctx, c, 'unexpected state', f, L, at + (state, same), [({'more': True, 'cons': True, 'ext': False, 'same': v}, {'upd': 'never', 'done': 'never', 'dpref': 'never'}, 'an index that leads to another state than announced is used') for v in '<>'], **kw)
    st = Ord('st', shows(r'readChangeLogChunk\(\)\.m_state_num$'), shows(r'getMaxStateNum\(\)$'))
    guard_rule(ctx, c, 'pages of unpublished states', f, L, at + (state, st), [({'more': True, 'cons': True, 'ext': False, 'st': '>'}, {'upd': 'never'}, 'pages of a state that is not published yet are announced')], follow_labelled=False, loop_once=False)
    guard_rule(ctx, c, 'pages of the published state', f, L, at + (state, st), [({'more': True, 'cons': True, 'ext': False, 'st': '='}, {'upd': 'may'}, 'changed pages are not announced')], **kw)
    chunk_st = shows(r'm_state_num$|updated_state_num')
    bad = {'bad': Call('std::function::operator()', pred=lambda ev: len(ev.args) == 2 and not (ev.args[1] and (ev.args[1][0] == 'l' or chunk_st(ev.args[1]))))}
    order(ctx, c, 'announced state', f, bad, [('-bad', 'a page is announced under another state than the one that changed it')], (), at, {'ext': False}, **kw)


@R('revert', 'when reading fails half-way the change-log positions are put back, so that the same changes are read again later', 3)
def _(ctx, p, c):
    f = p.need(B + 'completeRefresh')
    L = {'begin': Call('db0::DRAM_IOStream::beginApplyChanges', recv=F('m_dram_io')), 'done': Assign('db0::BDevStorage::m_refresh_pending', value=lit(False)),
         'rb': Call('db0::BlockIOStream::setStreamPos', recv=F('m_dram_changelog_io')), 'rdp': Call('db0::BlockIOStream::setStreamPos', recv=F('m_dp_changelog_io')),
         'apply': Call('db0::DRAM_IOStream::completeApplyChanges', recv=F('m_dram_io'))}
    got = {}
    for thrower in ('db0::DRAM_IOStream::beginApplyChanges', 'db0::ChangeLogIOStream::Reader::readChangeLogChunk', 'db0::SparsePair::refresh'):
        # a failing step leads to the positions being restored (or the failure is passed on)
        th = lambda s, n=thrower: s.q == n
        q = Seq(dict(L, fail=Call(thrower)), (), atoms=(EXT,), val={'ext': False}, throws=th, follow_labelled=False, loop_once=True)
        outs, viol = run_seq(ctx, f, q)
        bad = [o for o in outs if o.kind == 'ret' and 'fail' in o.state[0] and 'done' not in o.state[0] and 'apply' in o.state[0] and not {'rb', 'rdp'} <= o.state[0]]
        sees = any(o.kind == 'ret' and {'rb', 'rdp'} <= o.state[0] for o in outs) or thrower.endswith('SparsePair::refresh') and any(o.kind != 'ret' for o in outs)
        if bad or not sees:
            ctx.fail(c, thrower, 'a failure in %s leaves the change-log position where it is and the changes are never read again' % thrower.rpartition('::')[2], f.where)
        else:
            ctx.ok(c, thrower, f.where)


@R('begin', 'a refresh starts only on a read-only file and remembers that new blocks were found until it completed', 3)
def _(ctx, p, c):
    f = p.need(B + 'beginRefresh')
    pend = Flag('pend', fld('m_refresh_pending'))
    L = {'ref': Call('db0::BlockIOStream::refresh', recv=F('m_dram_changelog_io')), 'set': Assign('db0::BDevStorage::m_refresh_pending')}
    guard_rule(ctx, c, 'not pending', f, L, (MODE, pend), [(dict(RO, pend=False), {'ref': 'must', 'set': 'must'}, 'new blocks are not looked for')], follow_labelled=False)
    guard_rule(ctx, c, 'pending', f, L, (MODE, pend), [(dict(RO, pend=True), {'ref': 'never', 'set': 'never', '_exit': lambda o: None if o.kind != 'ret' or o.ret is not False else 'reports nothing to do'}, 'a pending refresh is forgotten')], follow_labelled=False)
    guard_rule(ctx, c, 'writer', f, L, (MODE,), [(RW, {'ref': 'never', '_exit': lambda o: 'returns normally' if o.kind == 'ret' else None}, 'a writer refreshes from the file')], follow_labelled=False)


@R('cache', 'the reader drops every cached version of a changed page, forgets combined pages, and moves its state only to what storage published', 6)
def _(ctx, p, c):
    f = p.need('db0::PrefixImpl::completeRefresh')
    L = {'bm': Call('db0::PrefixCache::beginRefresh'), 'st': Call('db0::BaseStorage::completeRefresh'), 'head': Assign('db0::PrefixImpl::m_head_state_num'),
         'badhead': Assign('db0::PrefixImpl::m_head_state_num', value=lambda t: not shows(r'getMaxStateNum\(\)$')(t))}
    order(ctx, c, f.q, f, L, [('bm<st', 'combined pages survive'), ('st<head', 'the state moves before the refresh'), ('-badhead', 'the state is set to something storage did not publish')], ['bm', 'st'], follow_labelled=False)
    guard_rule(ctx, c, 'successful refresh', f, L, (), [({}, {'head': 'may'}, 'the reader never moves to the new state')], follow_labelled=False)
    lam = [p.fn(u) for u in p.meta[f.usr][2]]
    ok = any(any(e[0] == 'call' and e[2][0] in ('c', 'n') and e[2][1].q == 'db0::PrefixCache::markAsMissing' for e in l.events()) for l in lam if l)
    ctx.check(ok, c, 'changed pages', 'changed pages reported by storage are not dropped from the cache', f.where)
    f = p.need('db0::PrefixCache::beginRefresh')
    order(ctx, c, f.q, f, {'clr': call_on('clear', F('m_boundary_map'))}, [], ['clr'], follow_labelled=False)
    f = p.need('db0::PrefixCache::markAsMissing')
    for m in ('m_dp_map', 'm_wide_map'):
        ex = Flag('ex', lambda t, m=m: calls('exists')(t) and F(m)(t[2]))
        ins = {'ins': Call('db0::PageMap::insert', recv=F(m), arg={0: param(idx=1)}), 'bad': Call('db0::PageMap::insert', recv=F(m), arg={1: lambda t: 'missing' not in show(t)})}
        ins['any'] = Call(['db0::PageMap::insert', 'db0::PageMap::exists'], recv=F(m), pred=lambda ev: len(ev.args) > 1 and not (param(idx=1)(ev.args[0]) and param(idx=0)(ev.args[1 if ev.sym.name == 'exists' else 2])))
        order(ctx, c, '%s %s page' % (f.q, m), f, ins, [('-any', 'another page, or another state, is marked instead of the changed one')], (), follow_labelled=False)
        guard_rule(ctx, c, '%s %s' % (f.q, m), f, ins, (ex,), [({'ex': True}, {'ins': 'must', 'bad': 'never'}, 'an outdated page stays in the cache')], follow_labelled=False)


@R('lookup-missing', 'a page marked as changed is read from the file again, never served from an older cached version', 2)
def _(ctx, p, c):
    for fn, m, miss in (('db0::PrefixCache::findPage', 'm_dp_map', 'm_missing_dp_lock_ptr'), ('db0::PrefixCache::findRange', 'm_wide_map', 'm_missing_wide_lock_ptr')):
        f = p.need(fn)
        isM = Ord('miss', lambda t, x=miss: not fld(x)(t) and not contains(fld(x))(t), lambda t, x=miss: contains(fld(x))(t))
        nul = lambda o: None if o.kind != 'ret' or o.ret in (None, UNK_) or o.ret is False else None
        got, outs, q = reach(ctx, f, {'hit': Call('db0::CacheRecycler::update'), 'ret0': Ret(lambda t: show(t) in ('shared_ptr{}', 'None', 'nullptr', 'shared_ptr{None}', 'shared_ptr{nullptr}', 'pair{false,None}', 'pair{true,None}', 'pair{false,shared_ptr{}}', 'pair{true,shared_ptr{}}'))}, (isM,), {'miss': '='}, follow_labelled=False)
        bad = [o for o in outs if o.kind == 'ret' and 'ret0' not in o.state[0]]
        ctx.check(not bad and outs, c, fn, 'an entry standing for a changed page is served as a page', f.where)


UNK_ = object()


@R('fixture', 'refreshing a prefix drops every cached object, buffer and index of it before its state moves, under the locks that keep closing and committing away', 7)
def _(ctx, p, c):
    f = p.need('db0::Fixture::refresh')
    L = {'begin': Call('db0::Memspace::beginRefresh'), 'lang': Call('db0::LangCacheView::clear', arg={0: lit(False)}), 'gc': Call('db0::GC0::detachAll'), 'hand': Call('std::function::operator()'), 'vo': Call('db0::VObjectCache::detach'),
         'sp': CallRx(r'::detach$', recv=F('m_string_pool')), 'oc': CallRx(r'::detach$', recv=F('m_object_catalogue')), 'mem': Call('db0::Memspace::detach'), 'done': Call('db0::Memspace::completeRefresh'),
         'gcv': CallRx(r'::detach$', recv=lambda t: 'getGC0' in show(t) or contains(fld('m_gc0_ptr'))(t))}
    gc = Flag('gc', F('m_gc0_ptr'))
    ml = ['lang', 'gc', 'vo', 'sp', 'oc', 'mem', 'gcv']
    order(ctx, c, 'nothing is kept', f, L, [('%s<done' % x, '%s is not detached before the state moves' % x) for x in ml], ['done'], (gc,), {'gc': True}, rets={'begin': True}, follow_labelled=False)
    guard_rule(ctx, c, 'detach handlers', f, L, (), [({}, {'hand': 'may'}, 'registered components are not detached')], follow_labelled=False)
    guard_rule(ctx, c, 'nothing new', f, L, (), [({}, {'done': 'never', 'lang': 'never', '_exit': lambda o: 'reports a refresh' if o.kind == 'ret' and o.ret is not False else None}, 'caches are dropped although nothing changed', {'begin': False})], follow_labelled=False)
    f = p.need('db0::Fixture::onRefresh')
    closed = Flag('closed', calls('isClosed'))
    lock = lambda m: Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ('unique_lock', 'lock_guard', 'scoped_lock') and any(fld(m)(a) for a in ev.args), call=lambda s: s.name in ('unique_lock', 'lock_guard', 'scoped_lock'))
    L = {'cl': lock('m_close_mutex'), 'cm': lock('m_commit_mutex'), 'ref': Call('db0::Fixture::refresh'), 'isc': Call('db0::Memspace::isClosed'), 'col': Call('db0::Fixture::collectStateReachedCallbacks')}
    order(ctx, c, f.q, f, L, [('cl<isc', 'closing is not excluded'), ('cm<ref', 'committing is not excluded'), ('isc<ref', 'a closed prefix is refreshed'), ('ref<col', 'waiting readers are notified before the state moved')], (), (closed,), {'closed': False}, follow_labelled=False)
    guard_rule(ctx, c, f.q + ' closed', f, L, (closed,), [({'closed': True}, {'ref': 'never', 'col': 'never'}, 'a closed prefix is refreshed')], follow_labelled=False)
    f = p.need('db0::Fixture::refreshIfUpdated')
    up = Flag('up', fld('m_updated'))
    guard_rule(ctx, c, f.q, f, {'ref': Call('db0::Fixture::refresh')}, (MODE, up), [(dict(RW, up=True), {'ref': 'never'}, 'a prefix opened for writing is refreshed'), (dict(RO, up=True), {'ref': 'may'}, 'an updated reader is never refreshed')], follow_labelled=False)
    f = p.need('db0::Workspace::refresh')
    guard_rule(ctx, c, f.q, f, {'ref': Call(['db0::Fixture::refresh', 'db0::Fixture::refreshIfUpdated', 'db0::Fixture::onRefresh'])}, (MODE,), [(RW, {'ref': 'never'}, 'a prefix opened for writing is refreshed'), (RO, {'ref': 'may'}, 'readers are never refreshed')], follow_labelled=False)


@R('components', 'each index component re-reads its root after the refresh: nothing computed from the previous state remains', 10)
def _(ctx, p, c):
    f = p.need('db0::SparsePair::refresh')
    order(ctx, c, f.q, f, {'a': Call('db0::SparseIndexBase::refresh', recv=F('m_sparse_index')), 'b': Call(['db0::DiffIndex::refresh', 'db0::SparseIndexBase::refresh'], recv=F('m_diff_index'))}, [], ['a', 'b'], follow_labelled=False)
    for cls in ('SparseIndex', 'DiffIndex'):
        pass
    done = set()
    for f in p.fns_q('db0::SparseIndexBase::refresh'):
        if f.line in done:
            continue
        done.add(f.line)
        L = {'det': CallRx(r'::detach$'), 'n': Assign('db0::SparseIndexBase::m_next_page_num'), 's': Assign('db0::SparseIndexBase::m_max_state_num')}
        order(ctx, c, f.q, f, L, [('det<n', 'read from the outdated root'), ('det<s', 'read from the outdated root')], ['det', 'n', 's'], follow_labelled=False)
    f = p.need('db0::REL_Index::refresh')
    flds = sorted({e[2][2] if False else None for e in ()}) or ['m_last_storage_page_num', 'm_rel_page_num', 'm_max_rel_page_num']
    asg = {x for x in p.meta[f.usr][1]}
    L = {'det': CallRx(r'::detach$')}
    for i, n in enumerate(sorted(x for x in asg if x.startswith('db0::REL_Index::m_'))):
        L['f%d' % i] = Assign(n)
    order(ctx, c, f.q, f, L, [('det<' + k, 'read from the outdated root') for k in L if k != 'det'], ['det'] , follow_labelled=False)
    ctx.check(len(L) >= 4, c, f.q + ' fields', 'only %d cached fields are re-read after a refresh' % (len(L) - 1), f.where)
    f = p.need('db0::ExtSpace::refresh')
    order(ctx, c, f.q, f, {'root': CallRx(r'::detach$'), 'rel': Call('db0::REL_Index::refresh')}, [('root<rel', 'the relative index is re-read before the root')], (), follow_labelled=False)
    guard_rule(ctx, c, f.q + ' relative index', f, {'rel': Call('db0::REL_Index::refresh')}, (), [({}, {'rel': 'may'}, 'the relative index is never re-read')], follow_labelled=False)
    f = p.need('db0::BlockIOStream::refresh')
    eos = Flag('eos', fld('m_eos'))
    L = {'f': Call('db0::CFile::refresh'), 'sz': Call('db0::CFile::size'), 'rd': CallRx(r'BlockIOStream::readBlock$|CFile::read$'), 'eos': Assign('db0::BlockIOStream::m_eos', value=lit(False))}
    order(ctx, c, f.q, f, L, [('f<sz', 'the file size known from before is used'), ('f<rd', 'the block is read with the file size known from before')], (), (MODE, eos), dict(RO, eos=True), follow_labelled=False)
    guard_rule(ctx, c, f.q + ' outcome', f, L, (MODE, eos), [(dict(RO, eos=True), {'eos': 'may'}, 'new blocks are never seen'), (dict(RO, eos=False), {'_exit': lambda o: 'data still unread is not reported' if o.kind == 'ret' and o.ret is False else None}, 'unread data')], follow_labelled=False)
    nx = Flag('nx', calls('hasNext'))
    inr = Ord('range', shows(r'm_file\.size\(\)$'), shows(r'm_next_block_address'))
    inb = Ord('inb', shows(r'm_file\.size\(\)$'), shows(r'\(this\.m_address \+ this\.m_block_size\)'))
    for a in '>=':
        guard_rule(ctx, c, f.q + ' next block ' + a, f, L, (MODE, eos, nx, inr, inb), [(dict(RO, eos=True, nx=True, range=a, inb='>'), {'eos': 'must', '_exit': lambda o: 'nothing new is reported although another block follows' if o.kind == 'ret' and o.ret is not True else None}, 'a block added after the last one read is never noticed')], follow_labelled=False)


@R('thread', 'the refresh thread reacts to every change of the file and refreshes under the API lock; callbacks run after it is released', 5)
def _(ctx, p, c):
    f = p.need('db0::RefreshThread::tryRefresh')
    L = {'lock': CallRx(r'lockApi$|lockPyApi$'), 'ens': CallRx(r'ensureLocked$'), 'ref': Call('db0::Fixture::onRefresh')}
    order(ctx, c, f.q, f, L, [('lock|ens<ref', 'refreshed without the API lock')], ['ref'], follow_labelled=False)
    f = p.need('db0::RefreshThread::onUpdate')
    px = Flag('px', any_of(calls('getPrefixPtr'), lambda t: 'getPrefixPtr' in show(t) and 'operator bool' in show(t)))
    chg = Ord('chg', shows(r'getLastUpdated\(\)$'), shows(r'last_updated$'))
    L = {'try': Call('db0::RefreshThread::tryRefresh'), 'get': CallRx(r'::getLastUpdated$'), 'set': Custom(lambda ev: ev.kind == 'asg' and show(ev.lhs).endswith('.last_updated'), field=lambda q: q.endswith('::last_updated'))}
    for v in '<>':
        order(ctx, c, f.q + ' file changed ' + v, f, L, [('get<try', 'the time of the last change is read after the refresh, a change in between is lost'), ('try!get', 'the time of the last change is read after the refresh, a change in between is lost'),
              ('try<set', 'a change is marked as seen before it was read')], ['try', 'set'], (px, chg), {'px': True, 'chg': v}, follow_labelled=False)
    guard_rule(ctx, c, f.q + ' closed', f, L, (px,), [({'px': False}, {'try': 'never'}, 'a closed prefix is refreshed')], follow_labelled=False)
    f = p.need('db0::FixtureThread::run')
    lk = Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'unique_lock', call=lambda s: s.name == 'unique_lock')
    L = {'pre': Call('db0::FixtureThread::prepareContext'), 'upd': Call('db0::FixtureThread::onUpdate'), 'close': Call('db0::FixtureThread::closeContext')}
    order(ctx, c, f.q, f, L, [('pre<upd', 'a prefix is processed without its context'), ('pre>close', 'the context (and its locks) is not released')], (), loop_once=True, follow_labelled=False)
