"""C01 commit durability order"""
from ..q import *

FL = 'db0::BlockIOStream::flush'


def check(ctx):
    p = ctx.prog
    # ---- storage flush
    ctx.rule('flush-order', 'On every path of BDevStorage::flush that returns true: page data, change-logs, DRAM pages (and the '
             'extension streams when present) are flushed, then fsync, then the DRAM change-log is flushed, then fsync, then the '
             'sparse pair is marked committed; nothing is written after the publishing flush', 2)
    f = p.need('db0::BDevStorage::flush')
    labels = {
        'meta.append': Call('db0::MetaIOStream::checkAndAppend'),
        'meta.flush': Call(FL, F('m_meta_io')),
        'page.flush': Call('db0::Diff_IO::flush'),
        'extract': Call('db0::SparsePair::extractChangeLog', arg={0: F('m_dp_changelog_io')}),
        'dram.flush': Call('db0::DRAM_IOStream::flushUpdates', F('m_dram_io'), {1: F('m_dram_changelog_io')}),
        'dp.flush': Call(FL, F('m_dp_changelog_io')),
        'ext.commit': Call('db0::ExtSpace::commit', F('m_ext_space')),
        'ext.flush': Call('db0::DRAM_IOStream::flushUpdates', F('m_ext_dram_io'), {1: F('m_ext_dram_changelog_io')}),
        'extcl.flush': Call(FL, F('m_ext_dram_changelog_io')),
        'rel': Call('db0::ExtSpace::assignRelative'),
        'fsync': Call('db0::CFile::fsync'),
        'publish': Call(FL, F('m_dram_changelog_io')),
        'commit': Call('db0::SparsePair::commit'),
    }
    data = ['meta.flush', 'page.flush', 'dram.flush', 'dp.flush']
    writes = data + ['ext.flush', 'extcl.flush', 'meta.append', 'extract', 'ext.commit', 'rel']
    rules = [(d + '<publish', 'the commit is published before %s' % d) for d in data]
    rules += [('fsync<publish', 'the commit is published although data written since the last fsync is not durable'),
              ('extract<dp.flush', 'the data-page change-log is flushed before it is extracted'),
              ('page.flush<extract', 'the change-log is extracted before the pages it names are flushed'),
              ('publish<commit', 'modifications are marked committed before the publishing flush'),
              ('meta.append<meta.flush', 'metadata flushed before the checkpoint is appended'),
              ('publish>fsync', 'success is reported without an fsync after the publishing flush'),
              ('publish>commit', 'published modifications stay in the change set'),
              ('publish!' + '|'.join(writes), 'data is written after the commit was published'),
              ('|'.join(writes) + '~fsync', '')]
    ext_rules = [(d + '<publish', 'the commit is published before %s' % d) for d in ('ext.flush', 'extcl.flush')] + \
                [('ext.commit<ext.flush', 'the extension space is flushed before it is committed'),
                 ('ext.flush<extcl.flush', 'the extension change-log is flushed before the extension pages'),
                 ('rel<extract', 'the end page is recorded without conversion to a relative number'),
                 ('rel<ext.commit', 'the extension space is committed before the last relative page is assigned')]
    ext = (Flag('ext', any_of(F('m_ext_space'), F('m_ext_dram_io'))), NegCall('ext', 'db0::ExtSpace::operator!', 'm_ext_space'))
    size = Ord('pending', calls('db0::SparsePair::getChangeLogSize'), lit(0))

    def exits(seen, o):
        if o.kind == 'ret' and o.ret is not True:
            return 'a published flush does not report true'
    for e in (False, True):
        order(ctx, 'flush-order', 'BDevStorage::flush ext=%s' % e, f, labels, rules + (ext_rules if e else []), ['publish'],
              ext + (size, MODE), {'ext': e, 'pending': '>', 'mode': 'READ_WRITE'}, exits)
    ctx.rule('flush-nop', 'BDevStorage::flush reports false, and writes nothing, exactly when no modification is pending; a read-only '
             'storage refuses', 2)

    def exits0(seen, o):
        if o.kind == 'ret' and o.ret is not False:
            return 'flush without pending modifications does not report false'
    order(ctx, 'flush-nop', 'nothing pending', f, labels, [('-' + x, '%s although nothing is pending' % x) for x in writes + ['publish', 'commit']],
          (), ext + (size, MODE), {'pending': '=', 'mode': 'READ_WRITE'}, exits0)
    guard_rule(ctx, 'flush-nop', 'read-only', f, labels, (MODE,), [(RO, {'publish': 'throws'}, 'a read-only storage is flushed')])

    # ---- DRAM pages before their change-log
    ctx.rule('dram-order', 'DRAM_IOStream::flushUpdates flushes its own blocks before it appends the change-log that names them, '
             'appends exactly once on every path, and records the address of every page it wrote in that change-log', 3)
    f = p.need('db0::DRAM_IOStream::flushUpdates')
    cl = Call('db0::ChangeLogIOStream::appendChangeLog')
    push = CallRx(r'^std::vector::(push_back|emplace_back)$')
    L = {'write': Call(['db0::BlockIOStream::writeToChunk', 'db0::BlockIOStream::appendToChunk', 'db0::BlockIOStream::addChunk'], THIS),
         'dirty': Call('db0::DRAM_Prefix::flushDirty'),
         'flush': Call(FL, THIS), 'append': cl}
    order(ctx, 'dram-order', 'flush before change-log', f, L,
          [('flush<append', 'the change-log is appended before the DRAM blocks were flushed'), ('write~flush', ''), ('dirty~flush', ''),
           ('dirty<append', 'the change-log is appended before the dirty pages are written'),
           ('append!write', 'DRAM data written after the change-log was appended'),
           ('append!append', 'change-log appended twice')], ['append', 'dirty'], (MODE,), RW)
    lams = [u for u in p.meta[f.usr][2] if any(p.syms[c].q == 'db0::BlockIOStream::writeToChunk' for c in p.callees(u))]
    if not lams:
        # the page writer is not a lambda (helper or member function): any callee that writes chunks
        lams = [u for u in p.fnloc if p.syms[u].clsq == 'db0::DRAM_IOStream' and u != f.usr and
                any(p.syms[c].q == 'db0::BlockIOStream::writeToChunk' for c in p.callees(u)) and
                any(p.syms[c].q == 'db0::BlockIOStream::addChunk' for c in p.callees(u))]
    ctx.rule('dram-reuse', 'while DRAM_IOStream::flushUpdates writes the modified pages it never makes the location of a published page version '
             'reusable: replaced locations are released only after the last page of the flush was written', 2)
    free = {'free': Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ('insert', 'emplace') and ev.recv is not None and F('m_reusable_chunks')(ev.recv),
                           call=lambda s: s.name in ('insert', 'emplace'))}
    for u in lams[:1]:
        order(ctx, 'dram-reuse', 'page writer', p.fn(u), free, [('-free', 'a page location is made reusable while pages of the same flush are still being written')])
    order(ctx, 'dram-reuse', 'release after the pages were written', f, dict(L, **free),
          [('dirty<free', 'page locations are made reusable before the pages were written'), ('free!dirty|write', 'pages are written after replaced locations became reusable')], (), (MODE,), RW)
    for u in lams[:1]:
        g = p.fn(u)
        W = {'over': Call('db0::BlockIOStream::writeToChunk'), 'add': Call('db0::BlockIOStream::addChunk'),
             'app': Call('db0::BlockIOStream::appendToChunk'), 'push': push,
             'hash': Call('db0::o_dram_chunk_header::setHash'),
             'copy': CallRx(r'^(std::)?memcpy$'),
             'map': Custom(lambda ev: ev.kind in ('call', 'asg') and 'm_page_map' in show(ev.recv if ev.kind == 'call' else ev.lhs),
                           call=lambda s: s.name in ('operator[]', 'insert_or_assign', 'emplace', 'insert') and 'unordered_map' in s.clsq)}
        order(ctx, 'dram-order', 'every written page is named in the change-log', g, W,
              [('over>push', 'an overwritten block is not recorded in the change-log'),
               ('app>push', 'an appended block is not recorded in the change-log'),
               ('over>map', 'the page map keeps the old location'), ('app>map', 'the page map keeps the old location')],
              ['over|app'])
        order(ctx, 'dram-order', 'page content is hashed before it is written', g, W,
              [('hash<over', 'block written without its checksum'), ('hash<app', 'block written without its checksum'),
               ('copy<over', 'reused block written without the page content')], ['hash'])

    # ---- stream / file level
    ctx.rule('block-flush', 'BlockIOStream::flush writes a modified block, and clears the modified mark only after the write; a block '
             'that is not modified is not written', 3)
    f = p.need(FL)
    mod = Flag('modified', F('m_modified'))
    fw = Call('db0::CFile::write')
    L = {'write': fw, 'clear': Assign('db0::BlockIOStream::m_modified', value=lit(False))}
    order(ctx, 'block-flush', 'modified', f, L, [('write<clear', 'the modified mark is cleared before the block is written')],
          ['write', 'clear'], (mod,), {'modified': True})
    order(ctx, 'block-flush', 'clean', f, L, ['-write'], (), (mod,), {'modified': False})
    f = p.need('db0::BlockIOStream::getNextBlock')
    order(ctx, 'block-flush', 'block change', f,
          {'write': fw, 'reset': [CallRx(r'^(std::)?memset$'), Call('db0::BlockIOStream::readBlock')], 'move': Assign('db0::BlockIOStream::m_address')},
          [('write<reset', 'the buffer of a modified block is reused before the block is written'),
           ('write<move', 'the stream moves off a modified block before it is written')], (), (mod,), {'modified': True}, eh='explicit')
    f = p.need('db0::BlockIOStream::write')
    order(ctx, 'block-flush', 'every buffered byte marks the block modified', f,
          {'copy': CallRx(r'^(std::)?memcpy$'), 'mark': Assign('db0::BlockIOStream::m_modified', value=lit(True)), 'wr': fw},
          [('copy>mark', 'data is copied into the block without marking it modified')], ['copy'], (mod,), {'modified': False})
    f = p.need('db0::BlockIOStream::setStreamPos', 2)
    order(ctx, 'block-flush', 'repositioning', f,
          {'write': fw, 'read': Call('db0::BlockIOStream::readBlock')}, [('write<read', 'repositioning drops a modified block')], (), (mod,), {'modified': True})

    ctx.rule('fsync', 'CFile::fsync hands user-space buffers to the kernel before fsync(2) and reaches fsync(2) on every path of a '
             'writable file; reading flushes buffered writes first', 3)
    f = p.need('db0::CFile::fsync')
    L = {'fflush': CallRx(r'^(std::)?fflush$'), 'fsync': CallRx(r'^fsync$|^fdatasync$')}
    order(ctx, 'fsync', 'CFile::fsync', f, L, [('fflush<fsync', 'fsync before the user-space buffer is written')], ['fflush', 'fsync'], (MODE,), RW)
    f = p.need('db0::CFile::read')
    dirty = Flag('dirty', F('m_dirty'))
    order(ctx, 'fsync', 'CFile::read', f, {'fflush': L['fflush'], 'fread': CallRx(r'^(std::)?fread$')},
          [('fflush<fread', 'a read does not see data buffered for writing')], ['fread'], (dirty,), {'dirty': True})
    f = p.need('db0::CFile::write')
    order(ctx, 'fsync', 'CFile::write marks the file dirty', f,
          {'fwrite': CallRx(r'^(std::)?fwrite$'), 'mark': Assign('db0::CFile::m_dirty', value=lit(True))},
          [('fwrite>mark', 'written data is not marked as buffered')], ['fwrite'], (dirty,), {'dirty': False})

    ctx.rule('diff-flush', 'Buffered diff blocks are written by Diff_IO::flush, and before any full page is appended or overwritten', 4)
    dp = Call(['db0::DiffWriter::flush', 'db0::DiffWriter::flushDP'])
    has = Flag('writer', F('m_writer'))
    f = p.need('db0::Diff_IO::flush')
    order(ctx, 'diff-flush', 'Diff_IO::flush', f, {'flush': Call('db0::DiffWriter::flush')}, (), ['flush'], (has,), {'writer': True})
    for q, nx in (('db0::Diff_IO::write', 'db0::Page_IO::write'), ('db0::Diff_IO::append', 'db0::Page_IO::append')):
        order(ctx, 'diff-flush', q, p.need(q), {'flush': Call('db0::DiffWriter::flush'), 'page': Call(nx)},
              [('flush<page', 'a full page is written while diff blocks are still buffered')], ['page'], (has,), {'writer': True})
    f = p.need('db0::DiffWriter::flushDP')
    order(ctx, 'diff-flush', 'DiffWriter::flushDP', f,
          {'out': Call('db0::Page_IO::append', arg={0: F('m_begin')}), 'zero': Assign('db0::o_diff_header::m_size'),
           'reset': Assign('db0::DiffWriter::m_current')},
          [('out<zero', 'the block count is cleared before the page is written'), ('out<reset', 'the write position is reset before the page is written')],
          ['out', 'zero', 'reset'], (Flag('empty', calls('db0::DiffWriter::empty')),), {'empty': False})

    # ---- prefix level
    ctx.rule('prefix-commit', 'PrefixImpl::commit writes the cache, then flushes the storage, and advances the head state exactly when '
             'the storage reports a published transaction', 2)
    f = p.need('db0::PrefixImpl::commit')
    L = {'cache': Call('db0::PrefixCache::commit'), 'flush': Call('db0::BaseStorage::flush'), 'head': Assign('db0::PrefixImpl::m_head_state_num')}
    for r in (True, False):
        order(ctx, 'prefix-commit', 'storage reports %s' % r, f, L,
              [('cache<flush', 'storage flushed before the cached pages are written'), ('flush<head', 'head state advanced before the flush')] +
              ([] if r else [('-head', 'the head state advances although nothing was published')]),
              ['cache', 'flush'] + (['head'] if r else []), (), None, None, {'flush': r})

    ctx.rule('cache-commit', 'PrefixCache::commit copies boundary areas into their pages, then writes all multi-page locks, then all '
             'single-page locks; both dirty caches are completely flushed on every path', 1)
    f = p.need('db0::PrefixCache::commit')
    DC = 'db0::DirtyCache::flush'
    none = lambda ev: len(ev.args) == 0
    L = {'boundary': Call('db0::BoundaryLock::flushBoundary'),
         'wide': Call(DC, F('m_dirty_wide_cache'), pred=none), 'dp': Call(DC, F('m_dirty_dp_cache'), pred=none),
         'try.wide': Call('db0::DirtyCache::tryFlush', F('m_dirty_wide_cache')),
         'try.dp': Call('db0::DirtyCache::tryFlush', F('m_dirty_dp_cache')),
         'bclear': CallRx(r'^db0::PageMap::clear$', F('m_boundary_map'))}
    order(ctx, 'cache-commit', 'PrefixCache::commit', f, L,
          [('boundary<wide', 'multi-page locks written before boundary data is copied in'), ('boundary<dp', 'pages written before boundary data is copied in'),
           ('boundary<try.wide', 'multi-page locks written before boundary data is copied in'), ('boundary<try.dp', 'pages written before boundary data is copied in'),
           ('wide<dp', 'pages written before the residual parts of multi-page locks are copied in'),
           ('wide<try.dp', 'pages written before the residual parts of multi-page locks are copied in'),
           ('boundary<bclear', 'boundary locks dropped before they are written back'),
           ('dp!wide|boundary|try.wide', 'cached data is moved into pages after the pages were written')],
          ['boundary', 'wide', 'dp'], (Flag('alive', F('std::pair::second')),), {'alive': True})

    # ---- fixture level
    ctx.rule('fixture-commit', 'Fixture::tryCommit: close handlers, then modified objects, then string pool / catalogue / object cache, '
             'then the memory space is committed last', 1)
    f = p.need('db0::Fixture::tryCommit')
    L = {'begin': Call('db0::GC0::beginCommit'),
         'handlers': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator()' and 'm_close_handlers' in repr(ev.recv)
                            or ev.kind == 'rd' and last_field(ev.term) == 'db0::Fixture::m_close_handlers',
                            field=lambda q: q == 'db0::Fixture::m_close_handlers'),
         'objects': Call('db0::GC0::CommitContext::commitAllOf'),
         'pool': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'commit' and fld('m_string_pool')(ev.recv),
                        call=lambda s: s.name == 'commit'),
         'catalogue': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'commit' and fld('m_object_catalogue')(ev.recv),
                             call=lambda s: s.name == 'commit'),
         'vcache': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'commit' and fld('m_v_object_cache')(ev.recv),
                          call=lambda s: s.name == 'commit'),
         'memspace': Call('db0::Memspace::commit')}
    gc = Flag('gc', F('m_gc0_ptr'))
    pre = Flag('prefix', calls('db0::Memspace::getPrefixPtr'))
    order(ctx, 'fixture-commit', 'Fixture::tryCommit', f, L,
          [('begin<objects', 'objects committed outside a commit context'), ('handlers<objects', 'objects committed before the close handlers ran'),
           ('memspace!objects|pool|catalogue|vcache|handlers', 'modifications are made after the memory space was committed')],
          ['handlers', 'objects', 'pool', 'catalogue', 'vcache', 'memspace'], (gc, pre), {'gc': True, 'prefix': True}, None, {'begin': True})
