"""C07 I/O errors are reported"""
from ..q import *
from ..report import Rules

R = Rules()
check = R.check


class LibC:
    """outcome of a C library call: ok / failed, in whatever form the result is tested"""
    values = (True, False)

    def __init__(self, name, fn, ok, fail):
        self.name = name; self.m = calls(fn); self.ok = ok; self.bad = fail

    def _v(self, v):
        return self.ok if v else self.bad

    def eval(self, t, v):
        if not isinstance(t, tuple) or not t:
            return None
        if self.m(t):
            return bool(self._v(v))
        if t[0] == 'un' and t[1] == '!' and self.m(t[2]):
            return not self._v(v)
        if t[0] == 'op' and t[1] in NEG:
            op = t[1]
            if self.m(t[2]):
                k = t[3]
            elif self.m(t[3]):
                k = t[2]; op = SWAP[op]
            else:
                return None
            x = self._v(v)
            if k and k[0] == 'un' and k[1] == '-' and k[2][0] == 'i':
                n = -k[2][1]
            elif k and k[0] == 'i':
                n = int(k[1] or 0)
                if self.ok not in (0, 1) and n == 0:       # pointer
                    x = 1 if v else 0
            elif k and k[0] in ('null',):
                n = 0; x = 1 if v else 0
            else:
                n = 1; x = 1 if v else 0                   # a requested count
            call = t[2] if self.m(t[2]) else t[3]
            if self.name in ('w', 'r') and not v and call[3][2] != ('i', 1):
                x = 0.5                                    # a short count
            return {'==': x == n, '!=': x != n, '<': x < n, '>': x > n, '<=': x <= n, '>=': x >= n}[op]
        return None


W = LibC('w', 'fwrite', 1, 0)
RD = LibC('r', 'fread', 1, 0)
FL = LibC('fl', 'fflush', 0, -1)
SK = LibC('sk', 'fseek', 0, -1)
FS = LibC('fs', 'fsync', 0, -1)
CL = LibC('cl', 'fclose', 0, -1)
OP = LibC('op', 'fopen', 7, 0)
RM = LibC('rm', 'remove', 0, -1)
ST = LibC('st', 'stat', 0, -1)
ALL = [W, RD, FL, SK, FS, CL, OP, RM, ST]
GOOD = {a.name: True for a in ALL}
POS = 'db0::CFile::m_file_pos'
DIRTY = 'db0::CFile::m_dirty'
DF = Flag('dirty', F('m_dirty'))
AT = Ord('at', F('m_file_pos'), param(idx=0))
CT = lambda n: Custom(lambda ev: ev.kind == 'call' and ev.sym.name == n and not ev.sym.repo, call=lambda s: s.name == n and not s.repo)
FILE = Flag('file', F('m_file'))


def failed(f):
    return dict(GOOD, **{f: False})


@R('transfer-failure', 'a failed transfer, seek, flush, sync, open or close throws: the operation never returns as if it had succeeded', 12)
def _(ctx, p, c):
    lab = {'x': CT('fwrite'), 'y': CT('fread')}
    for q, n, what, extra, pt in (
            ('db0::CFile::write', None, 'w', {'mode': 'READ_WRITE'}, None), ('db0::CFile::write', None, 'sk', {'mode': 'READ_WRITE', 'at': '<'}, None),
            ('db0::CFile::write', None, 'fl', {'mode': 'READ_WRITE', 'at': '<', 'dirty': True}, None),
            ('db0::CFile::read', None, 'r', {}, None), ('db0::CFile::read', None, 'sk', {'at': '<'}, None), ('db0::CFile::read', None, 'fl', {'dirty': True}, None),
            ('db0::CFile::fsync', None, 'fs', {'mode': 'READ_WRITE'}, None), ('db0::CFile::fsync', None, 'fl', {'mode': 'READ_WRITE'}, None),
            ('db0::CFile::flush', 0, 'fl', {}, None), ('db0::CFile::close', None, 'cl', {'file': True}, None),
            ('db0::CFile::create', None, 'op', {}, None), ('db0::CFile::create', None, 'cl', {}, None),
            ('db0::openFile', None, 'op', {}, None), ('db0::getFileSize', None, 'sk', {}, None), ('db0::CFile::remove', None, 'rm', {}, None)):
        f = p.need(q, n) if n is not None else p.need(q)
        val = failed(what); val.update(extra)
        need = {'w': 'fwrite', 'r': 'fread', 'fl': 'fflush', 'sk': 'fseek', 'fs': 'fsync', 'cl': 'fclose', 'op': 'fopen', 'rm': 'remove'}[what]

        def swallowed(o, n=need):
            if o.kind == 'ret' and n in o.state[0]:
                return 'a failed %s is not reported' % n
        guard_rule(ctx, c, '%s: %s fails' % (q, need), f, {need: CT(need)}, ALL + [MODE, DF, AT, FILE],
                   [(val, {need: 'may', '_exit': swallowed}, 'I/O error lost')])
    # a second sync reports success although the data the first one failed to write is gone
    f = p.need('db0::CFile::fsync')
    v = failed('fs'); v.update(mode='READ_WRITE')
    order(ctx, c, f.q + ': no retry', f, {'fsync': CT('fsync')}, [('fsync!fsync', 'a failed sync is retried: the retry succeeds although data was lost')], ['fsync'], ALL + [MODE, DF, AT, FILE], v, kinds=('ret', 'throw'))
    f = p.need('db0::CFile::create')
    some = Flag('some', shows(r'\$data\.size\(\)'))
    def lost(o):
        if o.kind == 'ret' and 'fwrite' in o.state[0]:
            return 'a failed fwrite is not reported'
    guard_rule(ctx, c, 'db0::CFile::create: fwrite fails', f, {'fwrite': CT('fwrite')}, ALL + [some], [(failed('w'), {'fwrite': 'may', '_exit': lost}, 'I/O error lost')])
    guard_rule(ctx, c, 'db0::CFile::create: existing file', f, {'fwrite': CT('fwrite')}, ALL + [Flag('size', calls('db0::getFileSize')), Ord('n', calls('ftell'), lit(0))],
               [(dict(GOOD, size=True, n='>'), {'fwrite': 'throws'}, 'an existing file is written over')])


@R('state-after-failure', 'a failed operation leaves the file object truthful: unflushed data stays marked unflushed, nothing is counted as transferred, the remembered position '
   'is taken from the file again, and a file whose closing failed is not closed twice', 8)
def _(ctx, p, c):
    clr = Custom(lambda ev: Assign(DIRTY, value=lit(False)).match(ev), field=lambda q: q == DIRTY)
    f = p.need('db0::CFile::flush', 1)
    guard_rule(ctx, c, 'flush fails', f, {'clear': Assign(DIRTY, value=lit(False)), 'x': CT('fflush')}, ALL, [(failed('fl'), {'clear': 'never', 'x': 'throws'}, 'unflushed data is marked flushed')])
    guard_rule(ctx, c, 'flush succeeds', f, {'clear': Assign(DIRTY, value=lit(False)), 'x': CT('fflush')}, ALL, [(GOOD, {'clear': 'must', 'x': 'must'}, 'flush')])
    order(ctx, c, 'cleared after the flush', f, {'clear': Assign(DIRTY, value=lit(False)), 'x': CT('fflush')}, ['x<clear'], (), ALL, GOOD)
    f = p.need('db0::CFile::setFilePos')
    guard_rule(ctx, c, 'seek fails', f, {'pos': Assign(POS), 'x': CT('fseek')}, ALL + [AT, DF], [(dict(failed('sk'), at='<'), {'pos': 'never', 'x': 'throws'}, 'the position is believed to have changed')])
    for q, fn, what, cnt in (('write', 'fwrite', 'w', 'm_bytes_written'), ('read', 'fread', 'r', 'm_bytes_read')):
        f = p.need('db0::CFile::' + q)
        adv = Assign(POS, op=['+='])
        again = Assign(POS, value=calls('ftell'))
        L = {'x': CT(fn), 'count': Assign('db0::CFile::' + cnt), 'adv': adv, 'size': Assign('db0::CFile::m_file_size'), 'again': again, 'clear': CT('clearerr'), 'dirty': Assign(DIRTY, value=lit(True))}
        at = ALL + [MODE, DF, AT]
        v = dict(failed(what), mode='READ_WRITE', at='=', dirty=False)
        guard_rule(ctx, c, '%s fails: not counted' % q, f, L, at, [(v, {'adv': 'never', 'count': 'never', 'size': 'never', 'x': 'throws'}, 'a failed transfer is counted')])

        def stale(o):
            if o.kind == 'exc' and 'x' in o.state[0] and not ('again' in o.state[0] and 'clear' in o.state[0]):
                return 'the remembered position is stale after a failed transfer, a repeated access would not seek'
        guard_rule(ctx, c, '%s fails: position' % q, f, L, at, [(v, {'_exit': stale}, 'position after a failure')])
    f = p.need('db0::CFile::close')
    L = {'x': CT('fclose'), 'null': Assign('db0::CFile::m_file')}

    def twice(o):
        if o.kind == 'exc' and 'x' in o.state[0] and 'null' not in o.state[0]:
            return 'the closed file stays in use'
    guard_rule(ctx, c, 'close fails', f, L, ALL + [FILE], [(dict(failed('cl'), file=True), {'_exit': twice, 'x': 'throws'}, 'close fails')])


@R('position', 'data is transferred at the requested address: a different position is reached by a seek to exactly that address, buffered writes are flushed before a read or a seek, '
   'and the position, the file size and the unflushed mark follow every transfer', 7)
def _(ctx, p, c):
    SZ = 'db0::CFile::m_file_size'
    for q, fn in (('write', 'fwrite'), ('read', 'fread')):
        f = p.need('db0::CFile::' + q)
        L = {'seek': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'fseek' and param(idx=0)(ev.args[1]) and ev.args[2] == ('i', 0), call=lambda s: s.name == 'fseek'),
             'pos': Assign(POS, value=param(idx=0)), 'x': CT(fn), 'adv': Custom(lambda ev: ev.kind == 'asg' and last_field(ev.lhs) == POS and (
                 (ev.op == '+=' and param(idx=1)(ev.rhs)) or (ev.op == '=' and ev.rhs[0] == 'op' and ev.rhs[1] == '+' and any(param(idx=1)(x) for x in ev.rhs[2:]))), field=lambda q: q == POS),
             'dirty': Assign(DIRTY, value=lit(True)), 'size': Assign(SZ), 'flush': CT('fflush')}
        at = ALL + [MODE, DF, AT]
        rules = [('seek<x', 'transferred without a seek although the file is positioned elsewhere'), ('pos<x', 'the seek is not remembered'), ('x>adv', 'the position does not follow the transfer'), ('adv!x', 'position advanced first')]
        for d in (True, False):
            v = dict(GOOD, mode='READ_WRITE', at='<', dirty=d)
            order(ctx, c, '%s elsewhere dirty=%s' % (q, d), f, L, rules + ([('flush<seek', 'seek with unflushed data')] if d else []) + ([('x>size', 'the file size is not kept')] if q == 'write' else []), ['x', 'seek', 'adv'], at, v)
        guard_rule(ctx, c, '%s sequential' % q, f, L, at, [(dict(GOOD, mode='READ_WRITE', at='=', dirty=False), {'x': 'must', 'adv': 'must', **({'dirty': 'must', 'size': 'must'} if q == 'write' else {'dirty': 'never'})}, 'sequential access')])
    f = p.need('db0::CFile::read')
    order(ctx, c, 'read after a buffered write', f, {'flush': CT('fflush'), 'x': CT('fread')}, [('flush<x', 'data still buffered is not seen by a read')], ['flush', 'x'], ALL + [DF, AT], dict(GOOD, dirty=True, at='='))


SRC = re.compile(r'/src/dbzero/(core/(storage|memory|dram|vspace|collections|utils|threading)|workspace|object_model)/')
SWALLOW_OK = {
    'db0::BDevStorage::completeRefresh': 'a reader which meets a write in progress restores its stream positions and repeats the refresh',
    'db0::FixtureCatalog::tryAdd': 'a directory entry which is not a data file is left out of the catalogue',
    'db0::Workspace::tryGetFixtureEx': 'a prefix which does not exist is reported as a null fixture',
    'db0::object_model::Class::getSchema': 'a member without values is reported with an undefined type',
}


@R('no-swallow', 'no exception handler of the storage, memory, workspace and object layers ends the propagation of an error, except where the failure is turned into another documented result', 8)
def _(ctx, p, c):
    C = Custom(lambda ev: ev.kind == 'catch')
    n = 0
    for u, loc in sorted(p.fnloc.items()):
        s = p.syms[u]
        if not SRC.search('/' + p.meta[u][3]) or not p.has_catch(u):
            continue
        f = p.fn(u)
        if s.q in SWALLOW_OK:
            n += 1; ctx.ok(c, s.q + ' (allowed: %s)' % SWALLOW_OK[s.q], f.where); continue

        def swallow(o):
            if o.kind == 'ret' and 'catch' in o.state[0]:
                return 'an exception is caught and the function returns normally'
        guard_rule(ctx, c, s.q, f, {'catch': C}, [], [({}, {'_exit': swallow, 'catch': 'may'}, 'error swallowed')], throws=lambda s: not s.nothrow, no_follow=lambda s: True, loop_once=False)


@R('refresh-retry', 'a reader which fails in the middle of a refresh returns its change-log streams to where they were and repeats the refresh later', 2)
def _(ctx, p, c):
    f = p.need('db0::BDevStorage::completeRefresh')
    pos = lambda n: Call('db0::BlockIOStream::setStreamPos', recv=F(n), pred=lambda ev: ev.args and 'getStreamPos' not in ev.sym.name)
    L = {'catch': Custom(lambda ev: ev.kind == 'catch'), 'dram': pos('m_dram_changelog_io'), 'dp': pos('m_dp_changelog_io'), 'done': Assign('db0::BDevStorage::m_refresh_pending', value=lit(False))}
    io = lambda s: s.q in ('db0::DRAM_IOStream::beginApplyChanges', 'db0::DRAM_IOStream::completeApplyChanges') or (s.q == 'db0::BlockIOStream::refresh')

    def reverted(seen, o):
        if o.kind == 'ret' and 'catch' in seen and not ('dram' in seen and 'dp' in seen):
            return 'the change-log streams keep the position of the failed attempt'
    ext = (Flag('ext', F('m_ext_space')), NegCall('ext', 'db0::ExtSpace::operator!', 'm_ext_space'))
    for e in (True, False):
        LL = dict(L, **({'xp': pos('m_ext_dram_changelog_io')} if e else {}))

        def rv(seen, o, e=e):
            if o.kind == 'ret' and 'catch' in seen and e and 'xp' not in seen:
                return 'the extension change-log stream keeps the position of the failed attempt'
            return reverted(seen, o)
        order(ctx, c, 'failed refresh ext=%s' % e, f, LL, [('catch>dram', 'stream not restored'), ('catch>dp', 'stream not restored'), ('catch!done', 'a failed refresh is marked complete')],
              (), (MODE,) + ext, dict(RO, ext=e), rv, throws=io, no_follow=lambda s: s.q.startswith('db0::') and 'lambda' not in s.q and not s.lam, follow_labelled=False)


@R('open-failure', 'a failed open removes only a file it created itself, always removes that one, and closes the storage it had opened; a file that is not a dbzero file is refused', 5)
def _(ctx, p, c):
    created = Flag('created', shows(r'^%file_created$'))
    f = p.need('db0::BaseWorkspace::getMemspace')
    L = {'catch': Custom(lambda ev: ev.kind == 'catch'), 'drop': CallRx(r'::(PrefixCatalog|FixtureCatalog)::drop$')}
    nf = lambda s: s.name in ('openMemspace', 'getUUID', 'drop') or s.clsq not in ('db0::BaseWorkspace', 'db0::Workspace')
    opens = lambda s: not s.nothrow and s.q.startswith('db0::') and s.name != 'drop' and 'PrefixName' not in s.q

    for q, cls in (('db0::BaseWorkspace::getMemspace', None), ('db0::Workspace::tryGetFixtureEx', None)):
        f = p.need(q)

        def kept(o):
            if 'catch' in o.state[0] and 'drop' not in o.state[0]:
                return 'an incomplete file is left behind'
        guard_rule(ctx, c, q + ' created', f, L, [created], [({'created': True}, {'_exit': kept, 'drop': 'may'}, 'failed open')], throws=opens, no_follow=nf)
        guard_rule(ctx, c, q + ' existing', f, L, [created], [({'created': False}, {'drop': 'never', 'catch': 'may'}, 'a failed open removes an existing file')], throws=opens, no_follow=nf)
    f = p.need('db0::BaseWorkspace::openMemspace')
    L = {'catch': Custom(lambda ev: ev.kind == 'catch'), 'close': CallRx(r'::close$')}
    order(ctx, c, f.q, f, L, [('catch>close', 'the opened storage is not closed')], (), [], {}, kinds=('exc', 'ret'), throws=lambda s: s.name in ('formatPrefix', 'MetaAllocator', 'make_shared'), no_follow=nf)
    f = p.need('db0::BDevStorage::readConfig')
    magic = Ord('magic', F('m_magic'), anything)
    guard_rule(ctx, c, f.q, f, {'read': Call('db0::CFile::read')}, [magic], [({'magic': '<'}, {'read': 'throws'}, 'a file without the dbzero mark is accepted'), ({'magic': '='}, {'read': 'must', '_exit': lambda o: None}, 'refused')], follow_labelled=False)


@R('commit-failure', 'a commit whose flush fails does not advance the state: the head state is changed only after storage reported the flush, and the pending marks are taken back', 3)
def _(ctx, p, c):
    f = p.need('db0::PrefixImpl::commit')
    HEAD = 'db0::PrefixImpl::m_head_state_num'
    fl = Call('db0::BaseStorage::flush')
    L = {'flush': fl, 'head': Assign(HEAD), 'cache': Call('db0::PrefixCache::commit')}

    def adv(o):
        if o.kind == 'exc' and 'head' in o.state[0]:
            return 'the head state advances although the commit failed'
    guard_rule(ctx, c, f.q, f, L, [], [({}, {'_exit': adv, 'flush': 'may', 'head': 'may'}, 'failed commit')], throws=lambda s: s.name in ('flush', 'commit'), follow_labelled=False)
    order(ctx, c, f.q + ' order', f, L, [('flush<head', 'the head state advances before the flush'), ('cache<flush', 'storage is flushed before the cache')], (), (), None, follow_labelled=False)
    f = p.need('db0::Fixture::tryCommit')
    L = {'set': Assign('db0::Fixture::m_commit_pending', value=lit(True)), 'reset': Assign('db0::Fixture::m_commit_pending', value=lit(False)), 'c': Call('db0::Memspace::commit')}

    def pend(o):
        if o.kind == 'exc' and 'set' in o.state[0] and 'reset' not in o.state[0]:
            return 'a failed commit leaves the fixture marked as committing: later updates are never flushed'
    guard_rule(ctx, c, f.q, f, L, [], [({}, {'_exit': pend, 'c': 'may'}, 'failed commit')], throws=lambda s: not s.nothrow and s.q.startswith('db0::') and s.name != 'ProcessTimer',
               no_follow=lambda s: s.clsq != 'db0::Fixture')
