"""C14 composite objects forward commit and detach to every part that caches mapped data"""
import re
from ..q import *
from ..db import AnalysisError
from ..report import Rules

R = Rules()
check = R.check
WRAP = re.compile(r'^(?:std::)?(unique_ptr|shared_ptr|optional|weak_ptr|vector|list|deque|array|map|unordered_map)<(.*)>$')


def canon(t):
    return re.sub(r'\b(const|mutable|class|struct|volatile)\b ?', '', t).strip()


def targs(a):
    out, d, cur = [], 0, ''
    for ch in a:
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    return out + [cur.strip()]


def unwrap(t):
    """(element type, containers passed through)"""
    t = canon(t); w = []
    while True:
        m = re.match(r'^(.*\S) ?\[\d+\]$', t)
        if m:
            t = m.group(1); w.append('array'); continue
        m = WRAP.match(t)
        if not m:
            return t, w
        a = targs(m.group(2)); k = m.group(1)
        w.append(k)
        t = canon(a[1] if k in ('map', 'unordered_map') and len(a) > 1 else a[0])

# handles to objects that are registered, committed and detached on their own
SHARED = (('db0::object_model::Class', 'm_base_class_ptr'), ('db0::object_model::Class', 'm_type_cache'),
          ('db0::SlabItem', 'm_dirty_slabs'), ('db0::SlabAllocator', 'm_reserved_slabs'),   # held by SlabManager::m_slabs / m_active_slab as well
          ('db0::Allocator', 'm_allocator'))                                                # the owner of what m_allocator_ptr / m_bitset_allocator refers to
# never instantiated (used to view an object of unknown kind)
VIEWS = ('db0::object_model::ObjectAnyImpl',)


class Parts:
    def __init__(self, p):
        self.p = p; self.memo = {}; self.eff = {}

    def rec(self, t):
        return self.p.recs.get(t)

    def bases(self, r):
        return [canon(b if isinstance(b, str) else b[0]) for b in r['bases']]

    def own(self, t, n):
        r = self.rec(t)
        for m in r['methods'] if r else ():
            s = m[0]
            if s.name == n and len(s.pt) == 0 and not s.static:
                return s

    def method(self, t, n):
        """the method `n` a value of type t answers to (own or inherited)"""
        k = (t, n)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        s = self.own(t, n)
        if s is None and self.rec(t):
            for b in self.bases(self.rec(t)):
                s = self.method(b, n)
                if s:
                    break
        self.memo[k] = s
        return s

    def effective(self, s, seen=()):
        """does the method do anything (an empty body is exempt, an interface or unknown body is not)"""
        if s.usr in self.eff:
            return self.eff[s.usr]
        f = self.p.fn(s.usr)
        r = True
        if f is not None and not f.nocfg:
            r = any(e[0] in ('call', 'asg', 'throw') for b in f.blocks.values() for e in b.ev)
        elif s.virt:
            r = any(self.effective(o, seen + (s.usr,)) for o in self.p.overriders(s) if o.usr != s.usr and o.usr not in seen)
        self.eff[s.usr] = r
        return r

    def pure(self, s):
        return s.virt and self.p.fn(s.usr) is None

    def parts(self, t, n):
        r = self.rec(t); out = []
        for b in self.bases(r):
            s = self.method(b, n)
            if self.rec(b) and not self.own(b, n):
                # members of a base that leaves the operation to its derived classes
                out += [x for x in self.parts(b, n) if x[0] != 'base']
            if s and b not in PLUMBING and not self.pure(s) and self.effective(s):
                out.append(('base', b, s, []))
        for fl in r['fields']:
            raw = fl[1].rstrip()
            if raw.endswith(('&', '*')):
                continue
            ty, w = unwrap(raw)
            if ty in PLUMBING or (ty, fl[0]) in SHARED:
                continue
            s = self.method(ty, n)
            if s and self.effective(s):
                out.append((fl[0], ty, s, w))
        return out


# plumbing that is shared with, or owned by, the object that drives the operation itself
PLUMBING = ('db0::Memspace', 'db0::Fixture', 'db0::Workspace', 'db0::BaseWorkspace')


@R('forward', 'commit and detach of a composite reach the same operation of every base and member that caches mapped data', 60)
def _(ctx, p, c):
    P = Parts(p)
    done = set()
    for t in sorted(p.recs):
        r = p.recs[t]
        if '/src/dbzero/' not in r['file']:
            continue
        for n in ('detach', 'commit'):
            s = P.own(t, n)
            if s is None or p.fn(s.usr) is None or t in PLUMBING:
                continue
            f = p.fn(s.usr)
            parts = P.parts(t, n)
            if not parts:
                continue
            names = ('detach',) if n == 'detach' else ('commit', 'detach')
            for a, ty, ps, w in parts:
                key = (r['q'], n, a if a != 'base' else ty.split('<')[0])
                if key in done:
                    continue
                done.add(key)
                forward(ctx, p, c, f, n, names, a, ty, ps, w)


class Present(Flag):
    """the (optional) part exists"""
    def __init__(self, name, a, deep=False):
        Flag.__init__(self, name, lambda t: t is not None and (t[0] == 'fld' and fld(a)(t) or deep and t[0] == 'call' and t[1] == 'for::each' and fld(a)(t[2])
                                                               or deep and t[0] == 'fld' and contains(calls('for::each'))(t) and contains(fld(a))(t)))

    def eval(self, t, v):
        if isinstance(t, tuple) and t and t[0] == 'call' and t[1].endswith('::operator!') and self.m(t[2]):
            return not v
        return Flag.eval(self, t, v)


def forward(ctx, p, c, f, n, names, a, ty, ps, w):
    inst = '%s forwards to %s' % (f.q, a if a != 'base' else ty.split('<')[0])
    many = bool(set(w) - {'unique_ptr', 'optional'})
    if a == 'base':
        m = [Custom(lambda ev: ev.kind == 'call' and ev.sym.name in names and ev.sym.cls != f.sym.cls and ev.recv == ('this',), call=lambda s: s.name in names)]
    else:
        has = lambda t: t is not None and any(x[0] == 'fld' and fld(a)(x) for x in subterms(t))
        m = [Custom(lambda ev: ev.kind == 'call' and ev.sym.name in names and has(ev.recv), call=lambda s: s.name in names)]
        if n == 'detach' or many:
            # dropping the part (it is re-opened on demand) forgets what it cached
            m.append(Custom(lambda ev: (ev.kind == 'asg' and has(ev.lhs)) or (ev.kind == 'call' and ev.sym.name in ('clear', 'reset', 'operator=', 'destroy') and has(ev.recv)),
                            call=lambda s: s.name in ('clear', 'reset', 'operator=', 'destroy'), field=lambda q: q.endswith('::' + a)))
    if many:
        guard_rule(ctx, c, inst, f, {'x': m}, (Present('pres', a, True),), [({'pres': True}, {'x': 'must'}, 'not forwarded')])
    else:
        guard_rule(ctx, c, inst, f, {'x': m}, (Present('pres', a),), [({'pres': True}, {'x': 'must'}, 'not forwarded')])


@R('own-operation', 'a persistent class with parts of its own that cache mapped data defines commit and detach itself instead of inheriting them', 40)
def _(ctx, p, c):
    P = Parts(p)
    done = set()
    bases = {b for t in p.recs for b in P.bases(p.recs[t])}
    it = {t for t in p.recs if any(b.startswith('db0::object_model::BaseIterator') for b in P.bases(p.recs[t]))}
    for t in sorted(p.recs):
        r = p.recs[t]
        if '/src/dbzero/' not in r['file'] or t in it or t in PLUMBING or t in VIEWS:
            continue
        for n in ('detach', 'commit'):
            if (r['q'], n) in done or P.method(t, n) is None or (t in bases and not P.own(t, n)):
                continue
            done.add((r['q'], n))
            if P.own(t, n):
                ctx.ok(c, '%s %s' % (r['q'], n), '%s:%s' % (r['file'], r['line']))
                continue
            ps = [x[0] for x in P.parts(t, n) if x[0] != 'base']
            if ps:
                ctx.fail(c, '%s %s' % (r['q'], n), 'inherited, so %s is never reached' % ', '.join(ps), '%s:%s' % (r['file'], r['line']))
            elif P.parts(t, n):
                ctx.ok(c, '%s %s' % (r['q'], n), '%s:%s' % (r['file'], r['line']))


@R('leaf', 'committing or detaching the leaf object drops its mapping and clears the access flags, so that the next access maps the current content and the next '
   'modification is registered again', 2)
def _(ctx, p, c):
    f = p.need('db0::vtypeless::detach', 0)
    held = Flag('held', shows(r'ROWO_Mutex::__ref\(.*\)\.get\(\)$'))
    lk = Flag('lk', calls('isLocked'))
    L = {'drop': [store('m_mem_lock'), call_on('release', F('m_mem_lock'))], 'rs': call_on('commit_reset', anything)}
    order(ctx, c, f.q, f, L, [('drop<rs', 'flags cleared while the mapping is kept')], ['drop', 'rs'], (held, lk), {'held': True, 'lk': True}, follow_labelled=False, loop_once=True)
    f = p.need('db0::vtypeless::commit', 0)
    order(ctx, c, f.q, f, {'rs': [call_on('commit_reset', anything), Call('db0::atomicResetFlags')]}, [], ['rs'], (held, lk), {'held': True, 'lk': True}, loop_once=True)


GC = 'db0::GC0::'
OP = 'db0::GC_Ops::'
FX = 'db0::Fixture::'


def opcall(n, argm=None, obj=None):
    """call of the registered operation `n` of a type"""
    return Custom(lambda ev: ev.kind == 'icall' and fld(OP + n)(ev.recv) and (argm is None or argm(ev.args[0])), field=lambda q: q == OP + n)


def of(container):
    return lambda t: any(x[0] == 'call' and x[1] == 'for::each' and container(x[2]) for x in subterms(t))


@R('registry', 'every live object gets its commit, detach and flush through the operations of its own type: all objects of the list given (or all registered ones), '
   'none left out', 6)
def _(ctx, p, c):
    VM = F('m_vptr_map')
    f = p.need(GC + 'detachAll', 0)
    order(ctx, c, f.q, f, {'op': opcall('detach', of(VM))}, [], ['op'])
    f = p.need(GC + 'commitAll', 0)
    order(ctx, c, f.q, f, {'op': opcall('commit', of(VM))}, [], ['op'])
    known = Found('known', F('m_vptr_map'))
    flk = Found('known', F('m_flush_map'))
    f = p.need(GC + 'commitAllOf', 2)
    hr = Flag('hr', lambda t: fld(OP + 'hasRefs')(t))
    live = Flag('live', lambda t: isinstance(t, tuple) and t and t[0] == 'ci' and fld(OP + 'hasRefs')(t[1]))
    L = {'op': opcall('commit'), 'clr': call_on('clear', THIS), 'put': call_on('push_back', THIS), 'self': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'commit' and ev.recv == ('this',), call=lambda s: s.name == 'commit'),
         'sch': call_on('clear', F('m_scheduled_for_deletion')), 'col': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'insert' and any(x[0] == 'ci' and fld(OP + 'address')(x[1]) for a in ev.args for x in subterms(a)), call=lambda s: s.name == 'insert')}
    at = (known, hr, live)
    order(ctx, c, f.q, f, L, [('clr!clr', ''), ('put!clr', 'the list of unreferenced objects is emptied after it was filled'), ('self!put', 'an object joins the list after it was committed'), ('sch!put', 'scheduled objects are dropped from the schedule before they are stored')],
          ['op', 'clr', 'put', 'self', 'sch'], at, {'known': True}, follow_labelled=False)
    guard_rule(ctx, c, f.q + ' unreferenced', f, L, at, [({'known': True, 'hr': True, 'live': False}, {'col': 'must'}, 'an unreferenced object is not remembered'),
                                                          ({'known': True, 'hr': True, 'live': True}, {'col': 'never'}, 'a referenced object is put on the deletion list'),
                                                          ({'known': True, 'hr': False}, {'col': 'never'}, 'a type without reference counting is put on the deletion list')], follow_labelled=False)
    f = p.need(GC + 'flushAllOf', 2)
    L = {'op': opcall('flush'), 'take': Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ('push_back', 'emplace_back') and any(contains(F('m_flush_map'))(a) for a in ev.args), call=lambda s: s.name in ('push_back', 'emplace_back')),
         'rev': opcall('flush', None)}
    order(ctx, c, f.q, f, L, [], ['take', 'op'], (flk,), {'known': True}, follow_labelled=False)
    bad = Custom(lambda ev: ev.kind == 'icall' and fld(OP + 'flush')(ev.recv) and not lit(False)(ev.args[1]), field=lambda q: q == OP + 'flush')
    guard_rule(ctx, c, f.q + ' writes the buffered changes', f, {'bad': bad}, (flk,), [({'known': True}, {'bad': 'never'}, 'buffered changes are discarded instead of written')])
    f = p.need(GC + 'cancelAtomic', 0)
    bad = Custom(lambda ev: ev.kind == 'icall' and fld(OP + 'flush')(ev.recv) and not lit(True)(ev.args[1]), field=lambda q: q == OP + 'flush')
    L = {'bad': bad, 'op': opcall('flush', of(F('m_flush_map')))}
    guard_rule(ctx, c, f.q + ' discards the buffered changes', f, L, (), [({}, {'bad': 'never', 'op': 'must'}, 'buffered changes of a cancelled operation are kept')], follow_labelled=False)
    f = p.need(GC + 'beginAtomic', 0)
    order(ctx, c, f.q, f, {'op': opcall('commit', of(VM)), 'on': Assign(GC + 'm_atomic', value=lit(True))}, [('op<on', '')], ['op', 'on'])


def resolved(f, t):
    """the function a function-pointer expression denotes (raw tree)"""
    while isinstance(t, tuple) and t and t[0] in ('x', 'u'):
        t = t[2]
    return t[1] if isinstance(t, tuple) and t and t[0] == 'f' else None


def rawret(f):
    for b in f.blocks.values():
        for e in b.ev:
            if e[0] == 'ret':
                yield e[2]


SLOT = {'hasRefs': 'hasRefs', 'drop': 'destroy', 'detach': 'detach', 'commit': 'commit', 'address': 'getUniqueAddress'}


@R('table', 'the operation table of every persistent type names the operation of that very type in every slot, so that flushing, committing and detaching dispatch to the right class', 50)
def _(ctx, p, c):
    fields = [x[0] for x in p.recs['db0::GC_Ops']['fields']]
    tabs = p.fns_q('db0::ObjectBase::getGC_Ops')
    if len(tabs) < 5:
        raise AnalysisError('operation tables not found')
    for f in tabs:
        cls = re.sub(r'^ObjectBase<', '', f.sym.cls or '').split(',')[0].split('::')[-1] or f.usr
        for r in rawret(f):
            while isinstance(r, tuple) and r[0] == 'x':
                r = r[2]
            vals = r[1] if r[0] == 'init' else r[3] if r[0] == 'n' else None
            if vals is None or len(vals) != len(fields):
                raise AnalysisError('operation table of %s has an unknown form' % f.usr)
            for n, v in zip(fields, vals):
                if n not in SLOT:
                    continue
                s = resolved(f, v)
                g = p.fn(s.usr) if s else None
                if g is None:
                    ctx.fail(c, '%s %s' % (f.usr[-60:], n), 'the slot is empty', f.where); continue
                order(ctx, c, '%s %s' % (cls, n), g, {'op': call_on(SLOT[n], lambda t: t is not None and t[0] == 'param' and t[1] == 0)}, [], ['op'], follow_labelled=False)
    # a type that buffers changes until the flush has a flush operation in its table
    for f in p.fns_q('db0::GC0::registerSingleType'):
        L = {'push': call_on('push_back', F('m_ops')), 'id': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator=' and 'm_gc_ops_id' in show(ev.recv) and contains(calls('size'))(ev.args[0]), call=lambda s: s.name == 'operator='),
             'map': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator=' and 'm_ops_map' in show(ev.recv) and 'm_gc_ops_id' in show(ev.args[0]), call=lambda s: s.name == 'operator=')}
        order(ctx, c, 'registration %s' % f.usr[-30:], f, L, [('push!id', 'the position is taken after the table was stored'), 'id<map'], ['push', 'id', 'map'], follow_labelled=False)
    fl = Flag('fl', lambda t: fld(OP + 'flush')(t))
    at = Flag('at', fld('m_atomic'))
    for f in p.fns_q('db0::GC0::add'):
        L = {'map': store('m_vptr_map'), 'fm': store('m_flush_map'), 'vol': store('m_volatile')}
        guard_rule(ctx, c, 'tracking %s' % f.usr[-30:], f, L, (fl, at), [({'fl': True, 'at': True}, {'map': 'must', 'fm': 'must', 'vol': 'must'}, 'the object is not tracked'),
                                                          ({'fl': False, 'at': False}, {'map': 'must', 'fm': 'never', 'vol': 'never'}, 'the object is tracked wrongly')], follow_labelled=False)


@R('handlers', 'the shared indexes of a prefix (classes, enumerations, tags) take part in every flush, commit and detach, for new and for opened files', 6)
def _(ctx, p, c):
    f = p.need('db0::object_model::initializer::(lambda)::operator()', 4)
    new = Flag('new', any_of(param('is_new'), param(idx=1)))
    OM = 'db0::object_model::'
    want = {'addCloseHandler': [('tag index', 'TagIndex', 'commit'), ('class factory', 'ClassFactory', 'commit'), ('enum factory', 'EnumFactory', 'commit')],
            'addDetachHandler': [('tag index', 'TagIndex', 'detach'), ('class factory', 'ClassFactory', 'detach'), ('enum factory', 'EnumFactory', 'detach')],
            'addFlushHandler': [('class factory', 'ClassFactory', 'flush'), ('tag index', 'TagIndex', 'flush')]}
    L = {k: Call(FX + k) for k in want}
    for v in (True, False):
        order(ctx, c, 'handlers of a %s file' % ('new' if v else 'existing'), f, L, [], list(L), (new,), {'new': v}, follow_labelled=False)
    for ev in collect(ctx, f, *[FX + k for k in want], atoms=(new,)):
        k = ev.sym.name
        la = ev.args[0]
        g = p.fn(la[1].usr) if isinstance(la, tuple) and la[0] == 'lam' and la[1].usr in p.fnloc else None
        if g is None:
            raise AnalysisError('the handler given to %s at %s is not a lambda' % (k, ev.where))
        com = Flag('com', param(idx=0))
        order(ctx, c, '%s line %d' % (k, ev.line), g, {n: Call(OM + '%s::%s' % (cl, m)) for n, cl, m in want[k]}, [], [n for n, _, _ in want[k]],
              (com,), {'com': True} if k == 'addCloseHandler' else {}, follow_labelled=False)




@R('drive', 'a commit flushes what objects buffer, then commits every object and every shared structure, then the memory itself; a detach reaches every shared structure', 5)
def _(ctx, p, c):
    gc = Flag('gc', fld('m_gc0_ptr'))
    ctxf = Flag('ctx', lambda t: show(t) in ('$gc0_ctx', '$ctx') or t[:1] == ('local',) and t[3] in ('ctx', 'gc0_ctx') or calls('beginCommit')(t))
    parts = ('m_string_pool', 'm_object_catalogue', 'm_v_object_cache')
    f = p.need(FX + 'tryCommit')
    L = {'close': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator()' and of(F('m_close_handlers'))(ev.recv) and lit(True)(ev.args[0]), call=lambda s: s.name == 'operator()'),
         'mem': Call('db0::Memspace::commit'), 'gc': Call(GC + 'CommitContext::commitAllOf')}
    for x in parts:
        L[x] = call_on('commit', F(x))
    pfx = Flag('pfx', lambda t: calls('tryGetPrefix')(t) or calls('getPrefixPtr')(t))
    order(ctx, c, f.q, f, L, ['close<mem', 'close<gc'] + [x + '<mem' for x in parts + ('gc',)], [], (ctxf, pfx), {'ctx': True, 'pfx': True},
          lambda seen, o: ('committed without ' + ', '.join(sorted(set(L) - seen))) if o.kind == 'ret' and 'mem' in seen and not set(L) <= seen else None, follow_labelled=False)
    for q, n in (('detach', 0),):
        f = p.need(FX + q, n)
        L = {x: call_on('detach', F(x)) for x in parts}
        L['mem'] = Call('db0::Memspace::detach')
        L['h'] = Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator()' and of(F('m_detach_handlers'))(ev.recv), call=lambda s: s.name == 'operator()')
        L['gc'] = call_on('detach', lambda t: True)
        order(ctx, c, f.q, f, L, [], list(L), (gc,), {'gc': True}, follow_labelled=False)
    fh = Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator()' and of(F('m_flush_handlers'))(ev.recv), call=lambda s: s.name == 'operator()')
    upd = Flag('upd', shows(r'm_updated(\.operator bool\(\)|\.load\(.*\))?$'))
    closed = Flag('closed', lambda t: calls('isClosed')(t))
    ro = Enum('mode', MODE.m, MODE.values)
    for q, n in (('commit', 0), ('onAutoCommit', 0)):
        f = p.need(FX + q, n)
        L = {'all': Call(GC + 'flushAllOf', arg={0: calls('getForFlush')}), 'h': fh, 'lang': Call('db0::LangCacheView::clear'), 'try': Call(FX + 'tryCommit')}
        order(ctx, c, f.q, f, L, [('all<try', 'buffered changes of objects miss the commit'), ('h<try', 'buffered changes of the shared indexes miss the commit'), ('lang<try', 'objects released from the cache miss the commit'), 'try!all'],
              ['all', 'h', 'try', 'lang'], (gc, upd, closed), {'gc': True, 'upd': True, 'closed': False}, follow_labelled=False)
    guard_rule(ctx, c, 'autocommit without changes', p.need(FX + 'onAutoCommit', 0), {'try': Call(FX + 'tryCommit')}, (gc, upd, closed), [({'upd': False}, {'try': 'never'}, 'committed although nothing changed'),
               ({'upd': True, 'closed': True}, {'try': 'never'}, 'a closed file is committed')], follow_labelled=False)
    # registration for the commit
    f = p.need('db0::Memspace::collectModified')
    order(ctx, c, f.q, f, {'put': store('m_maybe_modified')}, [], ['put'])


@R('index', 'an index applies its buffered changes and commits the tree of whatever key type it currently has; a detached index forgets the tree it opened', 4)
def _(ctx, p, c):
    names = [x[0] for x in p.enums['db0::IndexDataType']['c']]
    dt = Enum('dt', fld('m_data_type'), names)
    have = Flag('have', fld('m_index'))
    f = p.need('db0::object_model::Index::commit', 0)
    L = {'fl': Call('db0::object_model::Index::_flush'), 'tree': CallRx(r'^db0::RangeTree::commit$'), 'self': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'commit' and ev.recv == ('this',), call=lambda s: s.name == 'commit')}
    for n in names:
        if n == 'Unknown':
            continue
        order(ctx, c, 'commit of a %s index' % n, f, L, [('fl<tree', 'committed before the buffered changes were applied'), ('tree!fl', '')], ['fl', 'tree', 'self'], (dt, have), {'dt': n, 'have': True}, follow_labelled=False)
    order(ctx, c, 'commit of an index that is not open', f, L, [], ['fl', 'self'], (dt, have), {'have': False}, follow_labelled=False)
    f = p.need('db0::object_model::Index::detach', 0)
    order(ctx, c, f.q, f, {'drop': store('m_index')}, [], ['drop'])
    f = p.need('db0::object_model::Index::getFlushFunction', 0)
    for r in rawret(f):
        g = p.fn(resolved(f, r).usr) if resolved(f, r) else None
        if g is None:
            ctx.fail(c, 'flush operation', 'an index has no flush operation', f.where); continue
        rv = Flag('rv', param(idx=1))
        L = {'fl': Call(['db0::object_model::Index::_flush']), 'rb': Call('db0::object_model::Index::rollback')}
        guard_rule(ctx, c, 'flush operation', g, L, (rv,), [({'rv': True}, {'rb': 'must', 'fl': 'never'}, 'a cancelled operation'), ({'rv': False}, {'fl': 'must', 'rb': 'never'}, 'a commit')], follow_labelled=False)
