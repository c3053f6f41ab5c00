"""C02 only complete, published data is ever used"""
from ..q import *

S = lambda t: last_field(t) in ('db0::o_dram_chunk_header::m_state_num',) or bool(last_field(t) and last_field(t).endswith('chunk_header::m_state_num'))


def check(ctx):
    p = ctx.prog
    valid = Flag('valid', calls('db0::isDRAM_ChunkValid'))
    # ---------------- DRAM page load
    ctx.rule('dram-load', 'DRAM_IOStream::load applies a page exactly when its chunk is valid and its state number does not exceed the last '
             'published one, erases the others only in read/write mode, and reads the whole change-log before the first page', 7)
    f = p.need('db0::DRAM_IOStream::load')
    maxs = any_of(param(idx=1), shows(r'getLastChangeLogChunk\(\)\.m_state_num$'))
    age = Ord('age', S, maxs)
    L = {'apply': Call('db0::DRAM_IOStream::updateDRAMPage', THIS), 'erase': Call(['db0::DRAM_IOStream::trashDRAMPage', 'db0::BlockIOStream::writeToChunk'], THIS),
         'page': Call('db0::BlockIOStream::readChunk', THIS), 'cl': Call('db0::ChangeLogIOStream::readChangeLogChunk'),
         'last': Call('db0::ChangeLogIOStream::getLastChangeLogChunk'), 'alloc': Call('db0::DRAM_Allocator::update')}
    at = (valid, age, MODE)
    for v, s in ((False, '<'), (False, '='), (False, '>'), (True, '>')):
        guard_rule(ctx, 'dram-load', 'valid=%s state%smax' % (v, s), f, L, at,
                   [({'valid': v, 'age': s, 'mode': 'READ_WRITE'}, {'apply': 'never'}, 'an invalid or unpublished page is loaded'),
                    ({'valid': v, 'age': s, 'mode': 'READ_ONLY'}, {'apply': 'never', 'erase': 'never'}, 'an invalid or unpublished page is loaded, or erased by a reader')])
    for s in '<=':
        guard_rule(ctx, 'dram-load', 'published page, state%smax' % s, f, L, at,
                   [({'valid': True, 'age': s, 'mode': m}, {'apply': 'may', 'erase': 'never'}, 'a published page is not loaded or erased') for m in MODE.values])
    order(ctx, 'dram-load', 'change-log exhausted first', f, L,
          [('cl<page', 'pages read before the change-log'), ('page!cl', 'the change-log is read again after a page was read'),
           ('cl<last', 'the synchronisation point is taken before the change-log was read'), ('last<page', 'pages read without a synchronisation point')])

    ctx.rule('dram-apply', 'DRAM_IOStream::updateDRAMPage changes the page exactly when the chunk header is not null, its state number is not '
             'beyond the requested state, and no newer version of that page is already loaded; freed blocks are collected in read/write mode only', 8)
    f = p.need('db0::DRAM_IOStream::updateDRAMPage', 5)
    null = Not('header', 'db0::o_dram_chunk_header::operator!')
    age = Ord('age', S, param(idx=3))
    known = Found('known', F('m_page_map'))
    ver = Ord('ver', S, lambda t: last_field(t) == 'db0::DRAM_PageInfo::m_state_num')
    L = {'apply': Call('db0::DRAM_Prefix::update'), 'map': store('m_page_map'),
         'free': call_on(('insert', 'emplace'), F('m_reusable_chunks')),
         'unfree': call_on(('erase',), F('m_reusable_chunks'))}
    at = (null, age, known, ver, MODE)

    def case(h, a, k, v, mode='READ_WRITE'):
        return {'header': h, 'age': a, 'known': k, 'ver': v, 'mode': mode}
    deny = [(False, '<', False, '='), (True, '>', False, '='), (True, '>', True, '>'), (True, '<', True, '<'), (True, '=', True, '<')]
    for d in deny:
        guard_rule(ctx, 'dram-apply', 'header=%s state%smax known=%s version%sloaded' % d, f, L, at,
                   [(case(*d, mode=m), dict(apply='never', map='never', **({'free': 'never'} if m == 'READ_ONLY' else {'free': 'must'})),
                     'a stale, null or future page version is applied (or its block is not collected / collected by a reader)') for m in MODE.values])
    allow = [(True, '<', False, '='), (True, '=', False, '='), (True, '=', True, '='), (True, '<', True, '>'), (True, '<', True, '='), (True, '=', True, '>')]
    for d in allow:
        guard_rule(ctx, 'dram-apply', 'header=%s state%smax known=%s version%sloaded' % d, f, L, at,
                   [(case(*d), dict(apply='must', map='must', **({'free': 'must'} if d[2] else {})), 'a current page version is not applied / its old block is not collected'),
                    (case(*d, mode='READ_ONLY'), {'apply': 'must', 'map': 'must', 'free': 'never'}, 'a current page version is not applied')])

    ctx.rule('dram-copy', 'the content of a chunk is copied into the page exactly when the page version was accepted', 2)
    f = p.need('db0::DRAM_IOStream::updateDRAMPage', 6)
    acc = Flag('accepted', calls('db0::DRAM_IOStream::updateDRAMPage'))
    for v in (True, False):
        order(ctx, 'dram-copy', 'accepted=%s' % v, f, {'upd': Call('db0::DRAM_IOStream::updateDRAMPage'), 'copy': memcopy()},
              ['upd<copy'] + ([] if v else ['-copy']), ['copy'] if v else [], (acc,), {'accepted': v})

    ctx.rule('refresh-apply', 'DRAM_IOStream::completeApplyChanges skips every chunk that fails validation, and then reports an inconsistent result', 3)
    f = p.need('db0::DRAM_IOStream::completeApplyChanges')
    L = {'apply': Call('db0::DRAM_IOStream::updateDRAMPage'), 'clear': call_on('clear', F('m_read_ahead_chunks'))}
    order(ctx, 'refresh-apply', 'invalid chunk', f, L, [('-apply', 'an invalid chunk is applied')], ['clear'], (valid,), {'valid': False},
          exits=lambda seen, o: 'a skipped chunk is reported as consistent' if o.kind == 'ret' and o.ret is not False else None)
    order(ctx, 'refresh-apply', 'valid chunk', f, L, [('apply<clear', 'chunks dropped before they are applied')], ['apply', 'clear'], (valid,), {'valid': True},
          exits=lambda seen, o: 'a valid chunk is always reported as inconsistent' if o.kind == 'ret' and o.ret is False else None)
    order(ctx, 'refresh-apply', 'result combines every chunk', f,
          {'apply': L['apply'], 'acc': Custom(lambda ev: ev.kind == 'asg' and isinstance(ev.lhs, tuple) and ev.lhs[0] == 'local' and
                                              (ev.op == '&=' or ev.op == '=') and ev.rhs != ('i', False) and ev.rhs != ('i', True))},
          [('apply>acc', 'the result of applying a page is dropped')], (), (valid,), {'valid': True})

    ctx.rule('chunk-valid', 'a DRAM chunk is valid only with a non-null header and a matching checksum; a short buffer is refused', 4)
    f = p.need('db0::isDRAM_ChunkValid', 4)
    hsh = Ord('hash', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].endswith('::calculateHash'), lambda t: last_field(t) and last_field(t).endswith('::m_hash'))
    ln = Ord('len', shows(r'data_begin \+|\$data_begin.*dram_page_size'), param(idx=3))

    def ret(want):
        return lambda o: None if o.kind != 'ret' or o.ret is want else 'returns %r' % (o.ret,)
    for h, x, want in ((True, '=', True), (True, '<', False), (True, '>', False), (False, '=', False)):
        guard_rule(ctx, 'chunk-valid', 'header=%s hash%sstored' % (h, x), f, {}, (null, hsh, ln),
                   [({'header': h, 'hash': x, 'len': '='}, {'_exit': ret(want), 'x': 'returns'}, 'wrong verdict')])
    guard_rule(ctx, 'chunk-valid', 'short buffer', f, {'r': Ret()}, (null, hsh, ln), [({'header': True, 'hash': '=', 'len': '>'}, {'r': 'throws'}, 'a short chunk is accepted')])
    f = p.need('db0::isDRAM_ChunkValid', 2)
    order(ctx, 'chunk-valid', 'vector form delegates', f, {'v': Call('db0::isDRAM_ChunkValid')}, (), ['v'], follow_labelled=False)

    ctx.rule('read-ahead', 'fetchDRAM_IOChanges restores the change-log position and drops everything it read when reading fails, and reads each '
             'page named by the change-log every time it is named', 2)
    f = p.need('db0::fetchDRAM_IOChanges')
    L = {'save': Call('db0::BlockIOStream::getStreamPos'), 'restore': Call('db0::BlockIOStream::setStreamPos'), 'drop': call_on('clear', param(idx=2)),
         'read': Call('db0::BlockIOStream::readFromChunk'), 'cl': Call('db0::ChangeLogIOStream::readChangeLogChunk')}

    def exits(seen, o):
        if o.kind == 'exc' and 'caught' in seen and not ('restore' in seen and 'drop' in seen):
            return 'a failed read leaves the stream advanced or partial pages behind'
        if o.kind == 'ret' and 'caught' in seen:
            return 'a failed read is not reported'
        if o.kind == 'ret' and ('restore' in seen or 'drop' in seen):
            return 'a successful read is rolled back'
    LL = dict(L, caught=Custom(lambda ev: ev.kind == 'catch'))
    order(ctx, 'read-ahead', 'rollback', f, LL, ['save<cl'], (), (), {}, exits, throws=lambda s: s.name in ('readFromChunk', 'readChangeLogChunk'))
    order(ctx, 'read-ahead', 'every named page is read', f,
          dict(L, entry=Custom(lambda ev: (ev.kind == 'asg' or ev.kind == 'call' and ev.sym.name == 'operator=') and
                               last_field((ev.rhs if ev.kind == 'asg' else ev.args[0])) and last_field(ev.rhs if ev.kind == 'asg' else ev.args[0]).endswith('::m_state_num'),
                               call=lambda s: s.name == 'operator=')),
          [('entry>read', 'a change-log entry is passed over without reading its pages')], ['cl'])

    ctx.rule('copy-filter', 'chunks that fail validation are never written to a copy', 4)
    for q in ('db0::flushDRAM_IOChanges', 'db0::appendDRAM_IOChunks'):
        f = p.need(q)
        L = {'write': Call(['db0::BlockIOStream::writeToChunk', 'db0::BlockIOStream::appendToChunk'])}
        order(ctx, 'copy-filter', q + ' invalid', f, L, [('-write', 'an invalid chunk is copied')], (), (valid,), {'valid': False})
        order(ctx, 'copy-filter', q + ' valid', f, L, [], ['write'], (valid,), {'valid': True})

    # ---------------- checksummed blocks
    ctx.rule('block-checksum', 'a checksummed block whose checksum does not match is rejected without reaching the caller\'s buffer', 4)
    f = p.need('db0::BlockIOStream::readBlock')
    cs = Flag('cs', F('m_checksums_enabled'))
    sumo = Ord('sum', shows(r'checksum\(.*\).*\^|calculateHeaderChecksum\(\).*\^|\^.*checksum'), fld('m_block_checksum'))
    L = {'read': Call('db0::CFile::read'), 'direct': Call('db0::CFile::read', arg={2: param(idx=1)}), 'copy': memcopy(dst=param(idx=1))}
    for s in '<>':
        order(ctx, 'block-checksum', 'mismatch %s' % s, f, L, [('-copy', 'a corrupt block is copied out'), ('-direct', 'a corrupt block is read into the caller\'s buffer')],
              ['read'], (cs, sumo), {'cs': True, 'sum': s}, lambda seen, o: 'a corrupt block is reported as good' if o.kind == 'ret' and o.ret is not False else None)
    order(ctx, 'block-checksum', 'match', f, L, ['read<copy', '-direct'], ['copy'], (cs, sumo), {'cs': True, 'sum': '='},
          lambda seen, o: 'a good block is rejected' if o.kind == 'ret' and o.ret is not True else None)
    order(ctx, 'block-checksum', 'no checksums', f, L, [], ['direct'], (cs,), {'cs': False},
          lambda seen, o: 'a good block is rejected' if o.kind == 'ret' and o.ret is not True else None)

    ctx.rule('block-sum', 'the stored checksum covers block content and header, and is computed right before each block is written', 2)
    f = p.need('db0::BlockIOStream::flushModified')
    L = {'sum': Assign('db0::o_block_io_cs_block_header::m_block_checksum', value=lambda t: 'calculateHeaderChecksum' in show(t) and 'checksum(' in show(t).replace('calculateHeaderChecksum(', '')),
         'write': Call('db0::CFile::write')}
    order(ctx, 'block-sum', 'flushModified', f, L, [('sum<write', 'a block is written with a stale checksum')], ['sum', 'write'],
          (cs, Flag('modified', F('m_modified'))), {'cs': True, 'modified': True})
    f = p.need('db0::BlockIOStream::readBlock')
    t = set()
    for b in f.blocks.values():
        for e in b.ev:
            if e[0] == 'call' and e[2][0] == 'c':
                t.add(e[2][1].q)
    ctx.check('db0::checksum' in t and 'db0::o_block_io_cs_block_header::calculateHeaderChecksum' in t or
              any('hecksum' in p.syms[c].q for u in p.meta[f.usr][0] for c in p.callees(u)), 'block-sum', 'readBlock computes the same sum',
              'the verified checksum omits block content or header', f.where)

    ctx.rule('block-next', 'advancing a stream for reading fails, without moving it, when the next block is out of range or rejected; the position '
             'changes only after the block was accepted', 3)
    f = p.need('db0::BlockIOStream::getNextBlock')
    wr = Flag('write', param(idx=0))
    mod = Flag('modified', F('m_modified'))
    good = Flag('good', calls('db0::BlockIOStream::readBlock'))
    rng = Flag('nx', calls('hasNext'))
    inr = Ord('range', shows(r'm_file\.size\(\)'), shows(r'm_next_block_address'))
    L = {'move': [Assign('db0::BlockIOStream::m_address'), Assign('db0::BlockIOStream::m_block_pos'), Assign('db0::BlockIOStream::m_block_num')],
         'read': Call('db0::BlockIOStream::readBlock'), 'zero': CallRx(r'^(std::)?memset$')}
    rf = lambda seen, o: 'a missing or corrupt block is reported as read' if o.kind == 'ret' and o.ret is not False else None
    order(ctx, 'block-next', 'corrupt next block', f, L, [('-move', 'the stream moves onto a rejected block'), '-zero'], (), (wr, mod, good, rng, inr),
          {'write': False, 'modified': False, 'good': False, 'nx': True, 'range': '='}, rf, {'read': False})
    order(ctx, 'block-next', 'next block beyond end of file', f, L, [('-move', 'the stream moves beyond the end of the file'), ('-read', 'a truncated block is read')], (),
          (wr, mod, good, rng, inr), {'write': False, 'modified': False, 'nx': True, 'range': '<'}, rf)
    order(ctx, 'block-next', 'no next block', f, L, ['-move', '-read'], (), (wr, mod, rng), {'write': False, 'modified': False, 'nx': False}, rf)

    ctx.rule('chunk-end', 'a chunk with an invalid header, or that cannot be read completely, ends the stream and yields no data', 4)
    f = p.need('db0::BlockIOStream::readChunk', 3)
    eos = Flag('eos', F('m_eos'))
    pk = Flag('peek', calls('db0::BlockIOStream::peek'))
    ok = Flag('ok', calls('isValid'))
    rd = Flag('rd', calls('db0::BlockIOStream::read'))
    L = {'read': Call('db0::BlockIOStream::read'), 'peek': Call('db0::BlockIOStream::peek'), 'eos': Assign('db0::BlockIOStream::m_eos', value=lit(True))}
    z = lambda seen, o: 'data is reported for an unreadable chunk' if o.kind == 'ret' and o.ret not in (0,) else None
    at = (eos, pk, ok, rd)
    order(ctx, 'chunk-end', 'at end of stream', f, L, ['-read', '-peek'], (), at, {'eos': True}, z)
    order(ctx, 'chunk-end', 'no header', f, L, ['-read'], ['eos'], at, {'eos': False, 'peek': False}, z, {'peek': False})
    order(ctx, 'chunk-end', 'invalid header', f, L, ['-read'], ['eos'], at, {'eos': False, 'peek': True, 'ok': False}, z, {'peek': True})
    order(ctx, 'chunk-end', 'incomplete chunk', f, L, [], ['eos', 'read'], at, {'eos': False, 'peek': True, 'ok': True}, z, {'peek': True, 'read': False})

    ctx.rule('chunk-tail', 'a chunk that cannot be read completely is rolled back: the stream is positioned at its begin again, and a read/write '
             'stream erases the remnants and the link to the block that was never completely written before anything else can be appended', 5)
    nx = Flag('nx', calls('hasNext'))
    L = {'read': Call('db0::BlockIOStream::read'), 'peek': Call('db0::BlockIOStream::peek'), 'skip': Call('db0::BlockIOStream::skip'), 'back': Assign('db0::BlockIOStream::m_block_pos'),
         'unlink': Assign('db0::o_block_io_block_header::m_next_block_address', value=lit(0)), 'zero': CallRx(r'^(std::)?memset$'),
         'mark': Assign('db0::BlockIOStream::m_modified', value=lit(True)), 'write': Call(['db0::BlockIOStream::flush', 'db0::BlockIOStream::flushModified'])}
    at2 = at + (nx, MODE)
    for nm, base, rets, first in (('no complete header', {'eos': False, 'peek': False}, {'peek': False}, 'peek'),
                                  ('incomplete chunk', {'eos': False, 'peek': True, 'ok': True}, {'peek': True, 'read': False}, 'read')):
        rules = [('%s>back' % first, 'the stream stays behind the begin of an incomplete chunk')]
        drop = [('unlink>write', 'the dangling link is removed in memory only'), ('mark>write', 'the erased remnants are not written'),
                ('unlink|zero<mark', 'the block is marked before it is changed'), ('zero<write', 'the remnants of an incomplete chunk are not erased')]
        order(ctx, 'chunk-tail', nm + ', writer', f, L, rules + drop, ['unlink', 'mark', 'write', 'zero'], at2, dict(base, nx=True, mode='READ_WRITE'), z, rets, follow_labelled=False)
        order(ctx, 'chunk-tail', nm + ', reader', f, L, rules + ['-unlink', '-mark', '-zero'], (), at2, dict(base, nx=True, mode='READ_ONLY'), z, rets, follow_labelled=False)
    # all the blocks were read but the last one is linked to a block which was never written
    got = {'eos': False, 'peek': True, 'ok': True, 'nx': True}
    got = {'peek': True, 'ok': True, 'rd': True, 'nx': True}
    guard_rule(ctx, 'chunk-tail', 'complete chunk before a missing block', f, L, (pk, ok, rd, nx, MODE),
               [(dict(got, mode='READ_WRITE'), {'unlink': 'may'}, 'a link to a block that was never written survives behind the last complete chunk', {'peek': True, 'read': True}),
                (dict(got, mode='READ_ONLY'), {'unlink': 'never'}, 'a reader changes a block', {'peek': True, 'read': True})], follow_labelled=False)

    ctx.rule('last-chunk', 'the last item reported by a stream is never the target buffer of the next read: an incomplete chunk cannot overwrite it', 3)
    n = 0
    for cls in ('db0::ChangeLogIOStream', 'db0::MetaIOStream'):
        for u in sorted(p.fnloc):
            sy = p.syms[u]
            if sy.clsq != cls or not any(p.syms[c].q in ('db0::BlockIOStream::readChunk', cls + '::readChunk', cls + '::readChangeLogChunk') for c in p.callees(u)):
                continue
            g = p.fn(u)
            order(ctx, 'last-chunk', '%s/%d' % (sy.q, len(g.params)), g, {'alias': Call(['db0::BlockIOStream::readChunk'] +
                  ([cls + '::readChunk', cls + '::readChangeLogChunk'] if cls.endswith('LogIOStream') else []), arg={0: F('m_buffer')})},
                  [('-alias', 'a chunk is read into the buffer that holds the last item, which an incomplete chunk overwrites')])

    ctx.rule('block-first', 'opening a stream reuses its first block only when it is complete and passes its checksum; otherwise the block starts empty', 3)
    f = p.need('db0::BlockIOStream::BlockIOStream', 6)
    L = {'zero': CallRx(r'^(std::)?memset$'), 'eos': Assign('db0::BlockIOStream::m_eos', value=lit(True)), 'read': Call('db0::BlockIOStream::readBlock')}
    fit = Ord('fit', shows(r'm_block_size|block_size'), shows(r'm_file\.size\(\)|\$file\.size\(\)'))
    pad = Ord('pad', shows(r'% 8'), lit(0))
    acc = Flag('racc', calls('db0::CFile::getAccessType'))
    at = (fit, pad)
    order(ctx, 'block-first', 'truncated', f, L, [('-read', 'a truncated block is read')], ['zero', 'eos'], at, {'fit': '>', 'pad': '='})
    order(ctx, 'block-first', 'corrupt', f, L, [], ['read', 'zero', 'eos'], at, {'fit': '=', 'pad': '='}, rets={'read': False})
    order(ctx, 'block-first', 'complete', f, L, ['-zero', '-eos'], ['read'], at, {'fit': '=', 'pad': '='}, rets={'read': True})

    # ---------------- opening
    ctx.rule('open-consistent', 'a storage whose page index is ahead of its data-page change-log, or with a foreign magic number, cannot be opened', 4)
    f = p.need('db0::BDevStorage::BDevStorage', cls='BDevStorage')
    nl = Flag('noload', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].endswith('::test') and 'NO_LOAD' in show(t))
    st = Ord('ahead', calls('getMaxStateNum'), shows(r'm_dp_changelog_io\.getLastChangeLogChunk\(\)\.m_state_num'))
    hasl = Flag('hascl', shows(r'^this\.m_dp_changelog_io\.getLastChangeLogChunk\(\)$'))
    L = {'x': Throw()}
    at = (nl, st, hasl, MODE)
    for s, e in (('>', 'throws'), ('=', 'returns'), ('<', 'returns')):
        ok_ = guard_rule_local(ctx, 'open-consistent', 'index%schange-log' % s, f, L, at, {'noload': False, 'hascl': True, 'ahead': s, 'mode': 'READ_ONLY'}, e)
    guard_rule(ctx, 'open-consistent', 'no-load open for writing', f, L, at, [({'noload': True, 'mode': 'READ_WRITE'}, {'x': 'throws'}, 'opened for writing without its index')])
    f = p.need('db0::BDevStorage::readConfig')
    mg = Ord('magic', fld('m_magic'), shows(r'DB0_MAGIC'))
    for s, e in (('<', 'throws'), ('>', 'throws'), ('=', 'returns')):
        guard_rule(ctx, 'open-consistent', 'magic %s' % s, f, {'r': Ret()}, (mg,), [({'magic': s}, {'r': e}, 'foreign file accepted or dbzero file refused')])

    ctx.rule('open-sync', 'opening loads the page index through its change-log, synchronises the extension index to the state of the page index when '
             'writing, and refreshes a read-only storage', 4)
    f = p.need('db0::BDevStorage::init', 3)
    order(ctx, 'open-sync', 'page index loaded', f, {'load': Call('db0::DRAM_IOStream::load', arg={1: anything})}, [], ['load'],
          (Flag('nl', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].endswith('operator[]') and 'NO_LOAD' in show(t)), nl), {'nl': False, 'noload': False})
    f = p.need('db0::BDevStorage::initExt')
    order(ctx, 'open-sync', 'extension index bounded by the page index', f, {'load': Call('db0::DRAM_IOStream::load', arg={1: param(idx=3)}), 'any': Call('db0::DRAM_IOStream::load')},
          ['load<any'] if False else [], ['load'],
          (Flag('nl', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].endswith('operator[]') and 'NO_LOAD' in show(t)), nl, Flag('has', param(idx=0))),
          {'nl': False, 'noload': False, 'has': True})
    f = p.need('db0::BDevStorage::getMaxExtStateNum')
    order(ctx, 'open-sync', 'bound used when writing', f, {'max': Call(['db0::BDevStorage::getMaxStateNum', 'db0::SparsePair::getMaxStateNum'])}, [], ['max'], (MODE,), RW)
    f = p.need('db0::BDevStorage::BDevStorage', cls='BDevStorage')
    order(ctx, 'open-sync', 'read-only storage is refreshed', f, {'refresh': Call(['db0::BaseStorage::refresh', 'db0::BaseStorage::beginRefresh']), 'check': Call('db0::SparsePair::getMaxStateNum', pred=lambda ev: ev.env.depth == 0)},
          ['refresh<check'], ['refresh'], (nl, MODE), {'noload': False, 'mode': 'READ_ONLY'})

    # ---------------- diff blocks
    ctx.rule('diff-exact', 'a diff is applied only from the block recorded for exactly that page and state; a missing block is an error; a block cut by '
             'the page end is completed from the next page before it is applied', 5)
    f = p.need('db0::DiffReader::apply')
    key = Ord('key', shows(r'read\('), param(idx=1))
    fit = Ord('fit', shows(r'm_current \+|m_current.*safeSizeOf'), fld('m_end'))
    L = {'apply': Call('db0::o_diff_buffer::apply')}
    for k in '<>':
        order(ctx, 'diff-exact', 'other page or state (%s)' % k, f, L, [('-apply', 'a diff of another page or state is applied')], (), (key, fit), {'key': k, 'fit': '='},
              lambda seen, o: 'success reported without applying the diff' if o.kind == 'ret' and o.ret is not False else None)
    order(ctx, 'diff-exact', 'match', f, L, [], [], (key, fit), {'key': '=', 'fit': '='},
          lambda seen, o: 'the diff is not applied' if o.kind == 'ret' and (o.ret is True) != ('apply' in seen) else None)
    order(ctx, 'diff-exact', 'incomplete', f, dict(L, under=Custom(lambda ev: ev.kind == 'asg' and ev.lhs == ('param', 2, f.params[2]) and ev.rhs == ('i', True))),
          [('-apply', 'an incomplete diff is applied')], [], (key, fit, Ord('n', fld('m_size'), lit(0))), {'key': '=', 'fit': '>', 'n': '>'},
          lambda seen, o: None if o.kind != 'ret' or (o.ret is False and 'under' in seen) else 'an incomplete diff is not reported')
    f = p.need('db0::Diff_IO::applyFrom')
    ap = {'apply': Call('db0::DiffReader::apply'), 'next': Call('db0::DiffReader::loadNext')}
    order(ctx, 'diff-exact', 'missing block', f, ap, [('-next', 'a next page is loaded without need')], (), (Flag('under', shows('underflow')),), {'under': False},
          lambda seen, o: 'a missing diff is ignored' if o.kind == 'ret' else None, {'apply': False})


def guard_rule_local(ctx, clause, instance, f, L, at, val, expect):
    """like guard_rule, ignoring exceptions raised by callees: only the entry's own throws decide"""
    from ..engine import Engine
    q = Seq({'x': Throw()}, atoms=at, val=val, no_follow=lambda s: True).bind(ctx.prog)
    eng = Engine(ctx.prog, q)
    outs = eng.run(f)
    ctx.used(eng)
    rets = any(o.kind == 'ret' for o in outs)
    if expect == 'throws' and rets:
        ctx.fail(clause, instance, 'opens an inconsistent storage', f.where)
    elif expect == 'returns' and not rets:
        ctx.fail(clause, instance, 'refuses a consistent storage', f.where)
    else:
        ctx.ok(clause, instance, f.where)
