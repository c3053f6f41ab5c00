"""C13 an object stays in the store exactly as long as something refers to it"""
import re
from ..q import *
from ..db import AnalysisError
from ..report import Rules

R = Rules()
check = R.check
OM = 'db0::object_model::'
NAME = lambda *n: (lambda s: s.name in n)
LTYPES = ('Object', 'ObjectImmutableImpl', 'List', 'Index', 'Set', 'WeakSet', 'Dict', 'Tuple', 'ByteArray')


def named(*n, arg=None, recv=None):
    """calls by plain name; other calls are transparent"""
    def m(ev):
        if ev.kind != 'call' or ev.sym.name not in n:
            return False
        if recv is not None and not recv(ev.recv):
            return False
        for i, a in (arg or {}).items():
            if i >= len(ev.args) or not a(ev.args[i]):
                return False
        return True
    return Custom(m, call=lambda s: s.name in n)


def last(t):
    """(field path of a term from its end)"""
    out = []
    while isinstance(t, tuple) and t and t[0] in ('fld',):
        out.append(t[2].rpartition('::')[2]); t = t[1]
    return out


def arg_has(rx):
    r = re.compile(rx)
    return lambda ev: any(r.search(show(a)) for a in ev.args)


def unref(rx=None, inst=None):
    def m(ev):
        return ev.kind == 'call' and ev.sym.name == 'unrefMember' and (rx is None or bool(rx(ev) if callable(rx) else re.search(rx, ' | '.join(show(a) for a in ev.args))))
    return Custom(m, call=lambda s: s.name == 'unrefMember')


# loop heads: the step to the next element
STEP = Custom(lambda ev: (ev.kind == 'asg' and ev.op in ('++', '+=') and isinstance(ev.lhs, tuple) and ev.lhs and ev.lhs[0] == 'local') or (ev.kind == 'call' and ev.sym.name == 'operator++'))


def jstep():
    return Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator++' and 'join' in ev.sym.q)


def spec_of(s):
    """the enumerator a specialisation is made for"""
    return s.ta.split(',')[0].rpartition('::')[2]


def table(p, q):
    """slot -> function, of a function that fills a dispatch table"""
    fs = p.fns_q(q)
    if not fs:
        raise AnalysisError('no %s in the current tree' % q)
    out = {}
    seen = set()
    st = list(fs)
    while st:
        f = st.pop()
        if f.usr in seen:
            continue
        seen.add(f.usr)
        for e in f.events():
            if e[0] == 'asg' and e[3] == '=' and isinstance(e[4], tuple):
                fn = e[4]
                while fn and fn[0] in ('x', 'u'):
                    fn = fn[2]
                sl = [x for x in walk(e[2]) if x and x[0] == 'e']
                if fn and fn[0] == 'f' and sl:
                    out[sl[0][1].rpartition('::')[2]] = (fn[1], '%s:%s' % (p.meta[f.usr][3], e[1]))
    return out, fs[0]


def walk(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from walk(x)


def mentions(t, name):
    """a term that refers to a function of that name"""
    return any(x[0] == 'f' and name.lower() in str(getattr(x[1], 'q', x[1])).lower() for x in walk(t))


INC = named('incRef')
DEC = named('decRef')
QUIET = NAME('moveTo', 'tryMake_DB0List', 'tryMake_DB0Set', 'tryMake_DB0Dict', 'tryMake_DB0Tuple', 'tryWeakProxy', 'tryGetExistingType', 'getOrCreateType', 'getTypeByAddr',
             'getEnumValue', 'migrateEnumValue', 'dropInstance', 'modifyExt', 'get', 'getLangCache')
COUNTED = ('DB0_LIST', 'DB0_INDEX', 'DB0_SET', 'DB0_WEAK_SET', 'DB0_DICT', 'DB0_TUPLE', 'DB0_BYTES_ARRAY', 'LIST', 'SET', 'DICT', 'TUPLE', 'MEMO_TYPE', 'MEMO_OBJECT', 'MEMO_IMMUTABLE_OBJECT')
PLAIN = ('NONE', 'INTEGER', 'FLOAT', 'STRING', 'DATETIME', 'DATETIME_TZ', 'DECIMAL', 'DATE', 'TIME', 'TIME_TZ', 'BYTES', 'OBJECT_ITERABLE', 'DB0_ENUM_VALUE', 'DB0_ENUM_VALUE_REPR', 'BOOLEAN', 'CALLABLE')
# storage class of each counted kind
STORED = {'DB0_LIST': 'DB0_LIST', 'DB0_INDEX': 'DB0_INDEX', 'DB0_SET': 'DB0_SET', 'DB0_WEAK_SET': 'DB0_WEAK_SET', 'DB0_DICT': 'DB0_DICT', 'DB0_TUPLE': 'DB0_TUPLE', 'DB0_BYTES_ARRAY': 'DB0_BYTES_ARRAY',
          'LIST': 'DB0_LIST', 'SET': 'DB0_SET', 'DICT': 'DB0_DICT', 'TUPLE': 'DB0_TUPLE', 'MEMO_TYPE': 'DB0_CLASS', 'MEMO_OBJECT': 'OBJECT_REF', 'MEMO_IMMUTABLE_OBJECT': 'OBJECT_REF'}


@R('taken', 'storing an object as a member takes exactly one reference to it (or stores a weak reference instead); storing a plain value takes none; a reference of the tag kind is never taken', 36)
def _(ctx, p, c):
    tab, f0 = table(p, OM + 'registerCreateMemberFunctions')
    weak = [s.usr for s in p.sym_q(OM + 'createMember') if spec_of(s) == 'DB0_WEAK_PROXY']
    for k in COUNTED + PLAIN + ('DB0_WEAK_PROXY',):
        if k not in tab:
            ctx.fail(c, 'kind ' + k, 'values of this kind cannot be stored as members', f0.where)
            continue
        s, wh = tab[k]
        if s.name == 'createMember' and '<' not in s.ta:
            ctx.check(spec_of(s) == k, c, 'slot ' + k, 'is served by the function for %s' % spec_of(s), wh)
        f = p.fn(s.usr)
        L = {'inc': INC, 'tag': named('incRef', arg={0: lambda t: t != ('i', False)}), 'weak': Custom(lambda ev, w=weak: ev.kind == 'call' and ev.sym.usr in w, call=lambda s2, w=weak: s2.usr in w), 'dec': DEC}
        if k in COUNTED:
            q = Count(L, counted=('inc', 'weak'), no_follow=QUIET, follow_labelled=False)
            outs, viol = run_seq(ctx, f, q)
            bad = set()
            for o in outs:
                if o.kind == 'ret':
                    n = times(o.state[0], 'inc') + times(o.state[0], 'weak')
                    if n != 1:
                        bad.add('a path takes %s references' % (n if n < 3 else 'more than two'))
            if q.hits['tag']:
                bad.add('the reference is counted as one of a tag')
            if q.hits['dec']:
                bad.add('a reference is released')
            if not outs:
                raise AnalysisError('no path through %s' % f.q)
            for b in sorted(bad):
                ctx.fail(c, 'kind ' + k, b, f.where)
            if not bad:
                ctx.ok(c, 'kind ' + k, f.where)
        else:
            counts(ctx, c, 'kind ' + k, f, {'inc': INC, 'dec': DEC}, [({}, {'inc': 0, 'dec': 0}, 'a value that is not counted')], no_follow=QUIET, follow_labelled=False)
    # the reference is taken on the object that is stored, in its own prefix: under a lock of that prefix
    for f in p.fns_q(OM + 'resolveForFixture'):
        name = 'resolveForFixture<%s>' % p.syms[f.usr].ta.rpartition('::')[2]
        L = {'inc': named('incRef', recv=param(idx=1)), 'other': named('incRef', recv=lambda t: not param(idx=1)(t)), 'lock': Custom(lambda ev: ev.kind in ('call', 'decl') and ('FixtureLock::FixtureLock' in getattr(getattr(ev, 'sym', None), 'q', '')), call=lambda s: s.q == 'db0::FixtureLock::FixtureLock'),
             'move': named('moveTo', recv=param(idx=1)), 'addr': Ret(lambda t: isinstance(t, tuple) and any(x[0] == 'call' and x[1].endswith('::getAddress') for x in walk(t)))}
        order(ctx, c, name, f, L, [('lock<inc', 'the reference is taken without locking the prefix of the object'), ('inc<addr', 'the address is stored without a reference'), ('-other', 'the reference is taken on another object'), ('inc!move', 'moved after the reference was taken (the reference stays on the old instance)')],
              no_follow=QUIET, follow_labelled=False)


@R('forwarded', 'counters of the header are reached whatever object is counted: each incRef, decRef and hasRefs passes on to the next one, with the same kind of reference', 30)
def _(ctx, p, c):
    for n in ('incRef', 'decRef', 'hasRefs'):
        for s in sorted(p.syms.values(), key=lambda s: (s.q, s.usr)):
            if s.name != n or not s.repo or s.usr not in p.meta or s.clsq == 'db0::o_object_header' or '_object *' in s.pt or s.clsq.endswith('ObjectInitializer'):
                continue
            f = p.fn(s.usr)
            inst = '%s%s' % (s.q, '' if s.cls == s.clsq else ' in ' + s.cls[:70])
            nxt = Custom(lambda ev, n=n, u=s.usr: ev.kind == 'call' and ev.sym.name == n and ev.sym.usr != u, call=lambda s2, n=n, u=s.usr: s2.name == n and s2.usr != u)
            L = {'next': nxt}
            if n == 'hasRefs' and not any(p.syms[u].name == n for u in p.callees(s.usr) if u in p.syms):
                answers(ctx, c, f, inst)      # reads the counters itself
                continue
            if n != 'hasRefs':
                L['kind'] = Custom(lambda ev, n=n, u=s.usr: ev.kind == 'call' and ev.sym.name == n and ev.sym.usr != u and not (ev.args and param(idx=0)(ev.args[0])), call=nxt._c)
            tests = {'kind': 0} if n != 'hasRefs' else {}
            counts(ctx, c, inst, f, L, [({}, dict(tests, next=1), '%s is not passed on exactly once' % n)], follow_labelled=False)
    answers(ctx, c, p.need('db0::o_object_header::hasRefs'), 'o_object_header::hasRefs')
    for n, d in (('incRef', '+'), ('decRef', '-')):
        f = p.need('db0::o_object_header::' + n)
        isf = Flag('is_tag', param(idx=0))
        L = {'first': named('setFirst'), 'second': named('setSecond'), 'other': named('set')}
        guard_rule(ctx, c, f.q, f, L, (isf,), [({'is_tag': True}, {'first': 'must', 'second': 'never'}, 'the wrong counter is changed'), ({'is_tag': False}, {'second': 'must', 'first': 'never'}, 'the wrong counter is changed')])


def answers(ctx, c, f, inst):
    """an object is referred to when either counter says so; references by tags of its type do not count"""
    def cnt(ends):
        # zero, or the number of tags that come with the type
        return lambda t: isinstance(t, tuple) and t[0] == 'op' and t[1] in ('!=', '>') and (t[3] == ('i', 0) or show(t[3]).endswith('m_num_type_tags')) and show(t[2]).endswith(ends)
    T = Flag('tags', cnt(('first', 'getFirst()')))
    O = Flag('objs', cnt(('second', 'getSecond()')))
    for a in (True, False):
        for b in (True, False):
            got, outs, q = reach(ctx, f, {'r': Ret()}, (T, O), {'tags': a, 'objs': b})
            vals = {truth(o.ret, {'tags': a, 'objs': b}, (T, O)) for o in outs if o.kind == 'ret'}
            ctx.check(vals == {a or b}, c, '%s tags=%s objects=%s' % (inst, a, b), 'answers %s' % sorted(map(str, vals)), f.where)


def truth(t, val, atoms):
    if t is None or isinstance(t, bool):
        return t
    if isinstance(t, tuple):
        if t[0] == 'i' and isinstance(t[1], bool):
            return t[1]
        for a in atoms:
            r = a.eval(t, val[a.name])
            if r is not None:
                return r
        if t[0] == 'op' and t[1] in ('||', '&&'):
            x, y = truth(t[2], val, atoms), truth(t[3], val, atoms)
            if t[1] == '||':
                return True if True in (x, y) else (False if (x, y) == (False, False) else None)
            return False if False in (x, y) else (True if (x, y) == (True, True) else None)
        if t[0] == 'un' and t[1] == '!':
            x = truth(t[2], val, atoms)
            return None if x is None else not x
    return None


@R('released', 'each storage class of a counted kind has a release function of its own that gives back exactly one reference, to the object at the stored address, loaded or not', 26)
def _(ctx, p, c):
    tab, f0 = table(p, OM + 'registerUnrefMemberFunctions')
    for k in sorted(set(STORED.values())):
        if k not in tab:
            ctx.fail(c, 'storage class ' + k, 'has no release function: references stored in members are never given back', f0.where)
            continue
        s, wh = tab[k]
        f = p.fn(s.usr)
        ctx.check(spec_of(s) == k, c, 'slot ' + k, 'is served by the function for %s' % spec_of(s), wh)
        tags = named('decRef', arg={0: lambda t: t != ('i', False)})
        counts(ctx, c, 'release of ' + k, f, {'dec': DEC, 'inc': INC, 'tag': tags}, [({}, {'dec': 1, 'inc': 0, 'tag': 0}, 'not exactly one object reference is given back')], no_follow=QUIET, follow_labelled=False)
    d = tab.get('DELETED')
    if d:
        counts(ctx, c, 'release of DELETED', p.fn(d[0].usr), {'dec': DEC}, [({}, {'dec': 0}, 'a deleted member is released again')], no_follow=QUIET, follow_labelled=False)
    for k, (s, wh) in sorted(tab.items()):
        ctx.check(k in set(STORED.values()) | {'DELETED'}, c, 'no release of plain values: ' + k, 'a storage class that takes no reference is released', wh)
    for q in ('unrefObjectBase', 'unrefMemoObject'):
        for f in p.fns_q(OM + q):
            T = p.syms[f.usr].ta.split(',')[0].rpartition('::')[2]
            name = '%s<%s>' % (q, T)
            alive = Flag('refs', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] == 'hasRefs')
            lang = Flag('lang', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] == 'hasLangRefs')
            L = {'dec': DEC, 'drop': named('dropInstance'), 'erase': Custom(lambda ev: ev.kind == 'call' and ev.sym.q == 'db0::LangCache::erase', call=lambda s: s.q == 'db0::LangCache::erase'), 'lock': Call('db0::FixtureLock::FixtureLock')}
            guard_rule(ctx, c, name + ' drop', f, L, (alive, lang), [
                ({'refs': True, 'lang': False}, {'drop': 'never'}, 'an object that is still referred to is dropped'), ({'refs': True, 'lang': True}, {'drop': 'never'}, 'an object that is still referred to is dropped'),
                ({'refs': False, 'lang': True}, {'drop': 'never'}, 'an object the program still holds is dropped'), ({'refs': False, 'lang': False}, {'drop': 'may'}, 'an object nothing refers to is not dropped')], no_follow=NAME('dropInstance', 'modifyExt'), follow_labelled=False)
            order(ctx, c, name + ' order', f, L, [('dec<drop', 'dropped before the reference is given back'), ('drop<erase', 'removed from the cache before (or without) being dropped'), ('drop>erase', 'the dropped object stays in the cache'), ('lock<drop', 'dropped without locking the prefix')], no_follow=NAME('dropInstance', 'modifyExt'), follow_labelled=False)


def removal(ctx, c, p, q, L, rules, must=(), fns=None, **kw):
    for f in fns or p.fns_q(OM + q):
        order(ctx, c, q + ('' if len(p.fns_q(OM + q)) == 1 else ' in ' + p.syms[f.usr].cls[:60]), f, L, rules, must, follow_labelled=False, **kw)


FIRST = lambda ev: ev.kind == 'call' and any('m_first' in last(a) for a in ev.args)
SECOND = lambda ev: ev.kind == 'call' and any('m_second' in last(a) for a in ev.args)
m_index = any_of(F('m_index'))


@R('items', 'whenever an item leaves a collection (removed, replaced, popped, cleared, or the collection is destroyed), the reference the collection held is given back: '
   'that of the key and that of the value, once for each item', 24)
def _(ctx, p, c):
    # --- lists
    f = p.need(OM + 'List::setItem')
    old = unref(lambda ev: any(x[0] == 'call' and x[1].endswith('operator[]') for a in ev.args for x in walk(a)))
    order(ctx, c, 'List::setItem', f, {'old': old, 'any': unref(), 'new': named('createListItem', 'createMember'), 'put': Call('db0::v_bvector::setItem'), 'del': Call('db0::v_bvector::erase')},
          [('new<put', 'stored without taking a reference'), ('old!new', 'the old item is released before the new one is referenced (it may be the same object)')], ['old'], follow_labelled=False)
    counts(ctx, c, 'List::setItem count', f, {'any': unref()}, [({}, {'any': 1}, 'the replaced item is not released exactly once')], follow_labelled=False)
    f = p.need(OM + 'List::swapAndPop')
    order(ctx, c, 'List::swapAndPop', f, {'u': unref(), 'step': STEP, 'pop': Call('db0::v_bvector::swapAndPop'), 'get': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'push_back', call=lambda s: s.name == 'push_back')},
          [('pop<u', 'released before removal'), ('u!get', 'items are read after some were released'), ('pop!get', 'the items to release are read after they were removed')], ['pop'], follow_labelled=False)
    guard_rule(ctx, c, 'List::swapAndPop releases', f, {'u': unref()}, (), [({}, {'u': 'may'}, 'removed items are not released')], follow_labelled=False)
    f = p.need(OM + 'List::pop')
    order(ctx, c, 'List::pop', f, {'rel': Call([OM + 'List::swapAndPop', OM + 'unrefMember']), 'raw': Call(['db0::v_bvector::erase', 'db0::v_bvector::pop_back', 'db0::v_bvector::swapAndPop'])}, (), ['rel'], follow_labelled=False)
    # no other removal primitive of the underlying vector is used
    prim = {'pop_back', 'erase', 'swapAndPop', 'setItem', 'clear', 'destroy'}
    for s in p.syms.values():
        if s.clsq == OM + 'List' and s.usr in p.meta and s.name not in ('setItem', 'swapAndPop', 'clear', 'destroy', 'operator=', 'append', 'pop') and not s.ctor and not s.dtor:
            us = [p.syms[x] for x in p.callees(s.usr) if x in p.syms]
            bad = [x.q for x in us if x.name in prim and 'v_bvector' in x.q]
            if bad:
                ctx.fail(c, s.q + ' removes', 'items are removed by %s without being released' % bad[0], '')
    # --- clear / destroy of every collection: members first, each exactly once, then the storage
    for cls, fn, store in (('List', 'clear', 'db0::v_bvector::clear'), ('List', 'destroy', None), ('Dict', 'clear', None), ('Dict', 'destroy', None), ('Set', 'clear', None), ('Set', 'destroy', None), ('Tuple', 'destroy', None)):
        f = p.need(OM + cls + '::' + fn)
        L = {'u': unref(), 'gone': Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ('clear', 'destroy') and (m_index(ev.recv) or (THIS(ev.recv) and 'db0::object_model' not in ev.sym.q)), call=lambda s: s.name in ('clear', 'destroy'))}
        order(ctx, c, '%s::%s' % (cls, fn), f, L, [('gone!u', 'items are released after their storage is gone')], ['gone'], follow_labelled=False)
        guard_rule(ctx, c, '%s::%s releases' % (cls, fn), f, L, (), [({}, {'u': 'may'}, 'the items are not released')], follow_labelled=False)
    # --- every step to the next item has released the current one
    for cls, fn in (('List', 'clearMembers'), ('Tuple', 'destroy')):
        f = p.need(OM + cls + '::' + fn)
        order(ctx, c, '%s::%s each' % (cls, fn), f, {'u': unref(), 'step': STEP}, [('u<step', 'an item is skipped'), 'step~u'], follow_labelled=False)
    for cls in ('Set', 'Dict'):
        f = p.need(OM + cls + '::unrefMembers')
        if cls == 'Set':
            order(ctx, c, 'Set::unrefMembers each', f, {'u': unref(), 'step': jstep()}, [('u<step', 'an item is skipped'), 'step~u'], follow_labelled=False)
        else:
            L = {'k': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'unrefMember' and FIRST(ev), call=NAME('unrefMember')), 'v': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'unrefMember' and SECOND(ev), call=NAME('unrefMember')), 'step': jstep()}
            order(ctx, c, 'Dict::unrefMembers each', f, L, [('k<step', 'a key is not released'), ('v<step', 'a value is not released'), 'step~k', 'step~v'], follow_labelled=False)
    # --- removal of a single item from a hashed collection
    bx = lambda n: Custom(lambda ev, n=n: ev.kind == 'call' and ev.sym.name in n and ev.sym.clsq.endswith(('MorphingBIndex', 'CollectionIndex')), call=lambda s, n=n: s.name in n and s.clsq.endswith(('MorphingBIndex', 'CollectionIndex')))
    gone = bx(('erase', 'destroy'))
    K = Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'unrefMember' and FIRST(ev), call=NAME('unrefMember'))
    V = Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'unrefMember' and SECOND(ev), call=NAME('unrefMember'))
    both = lambda seen, o: None if ('gone' in seen) == ('k' in seen) == ('v' in seen) else 'an item is removed but its %s is not released' % ('key' if 'k' not in seen else 'value') if 'gone' in seen else 'an item that stays is released'
    for fn in ('pop', 'setItem'):
        f = p.need(OM + 'Dict::' + fn)
        order(ctx, c, 'Dict::%s' % fn, f, {'k': K, 'v': V, 'gone': gone}, (), (), (), {}, both, follow_labelled=False, no_follow=NAME('pop') if fn == 'setItem' else None)
        counts(ctx, c, 'Dict::%s once' % fn, f, {'k': K, 'v': V}, [({}, {'k': (0, 1), 'v': (0, 1)}, 'released more than once')], follow_labelled=False, no_follow=NAME('pop') if fn == 'setItem' else None)
    one = lambda seen, o: None if ('gone' in seen) == ('u' in seen) else 'an item is removed but not released' if 'gone' in seen else 'an item that stays is released'
    for fn in ('remove', 'pop'):
        f = p.need(OM + 'Set::' + fn)
        order(ctx, c, 'Set::%s' % fn, f, {'u': unref(), 'gone': gone}, (), (), (), {}, one, follow_labelled=False)
        counts(ctx, c, 'Set::%s once' % fn, f, {'u': unref()}, [({}, {'u': (0, 1)}, 'released more than once')], follow_labelled=False)
    # --- indexes: every key type
    for fn in ('clearMembers', 'destroy'):
        f = p.need(OM + 'Index::' + fn)
        tree = Flag('tree', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] == 'hasRangeTree')
        fa = named('forAll')
        for ty in ('Int64', 'UInt64', 'Auto'):
            dt = Enum('dt', fld('m_data_type'), ['Unknown', 'Int64', 'UInt64', 'Auto'])
            L = {'all': fa, 'rel': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'forAll' and releases(p, ev), call=NAME('forAll')), 'kill': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'destroy' and 'RangeTree' in ev.sym.q, call=lambda s: s.name == 'destroy' and 'RangeTree' in s.q)}
            order(ctx, c, 'Index::%s %s' % (fn, ty), f, L, [('kill!all', 'released after its storage is gone')], ['rel'], (tree, dt), {'tree': True, 'dt': ty}, follow_labelled=False, no_follow=NAME('rollback', 'getExistingRangeTree'))
    f = p.need(OM + 'Index::clear')
    order(ctx, c, 'Index::clear', f, {'m': Call(OM + 'Index::clearMembers'), 'kill': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'destroy' and 'RangeTree' in ev.sym.q, call=lambda s: s.name == 'destroy' and 'RangeTree' in s.q)}, [('m<kill', 'the items are not released before the storage goes')], ['m'], follow_labelled=False, no_follow=NAME('getExistingRangeTree'))


def releases(p, ev):
    for a in ev.args:
        l = lam_of(a, ev.env)
        if l is not None and any(p.syms[x].name == 'unrefMember' for x in p.callees(l.usr) if x in p.syms):
            return True
    return False


def created(t):
    """the value of a stored item comes from createMember (which takes the reference)"""
    return any(x[0] == 'call' and x[1].rpartition('::')[2] in ('createMember', 'createListItem', 'createTypedItem', 'createTupleItem') for x in walk(t))


@R('attributes', 'an attribute that is replaced, deleted, or destroyed with its object gives back the reference of its old value, wherever the attribute is kept; packed values hold none', 18)
def _(ctx, p, c):
    vt = lambda n: Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'set' and re.search(n + r'\(\)$', show(ev.recv or ())), call=lambda s: s.name == 'set')
    for q, n in (('Object::setPosVT', 'pos_vt'), ('Object::setIndexVT', 'index_vt'), ('ObjectImplBase::unrefPosVT', 'pos_vt'), ('ObjectImplBase::unrefIndexVT', 'index_vt')):
        fns = p.fns_q(OM + q)
        if not fns:
            raise AnalysisError('no %s' % q)
        for f in fns:
            plain = Plain(fid_param(f))
            inst = q if len(fns) == 1 else '%s in %s' % (q, p.syms[f.usr].cls[:60])
            L = {'u': unref(), 'put': vt(n)}
            order(ctx, c, inst, f, L, [('u<put', 'the old value is released after it was overwritten')], ['u', 'put'], (plain,), {'plain': True}, follow_labelled=False)
            counts(ctx, c, inst + ' once', f, {'u': unref()}, [({'plain': True}, {'u': 1}, 'the old value is not released exactly once'), ({'plain': False}, {'u': 0}, 'a packed value is released')], (plain,), follow_labelled=False)
    f = p.need(OM + 'Object::unrefKVIndexValue')
    plain = Plain(fid_param(f))
    counts(ctx, c, 'Object::unrefKVIndexValue', f, {'u': unref()}, [({'plain': True}, {'u': 1}, 'the old value is not released exactly once'), ({'plain': False}, {'u': 0}, 'a packed value is released')], (plain,), follow_labelled=False)
    f = p.need(OM + 'Object::setKVIndexValue')
    plain = Plain(fid_param(f))
    up = Flag('upd', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] == 'updateExisting')
    kv = Flag('kv', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] == 'addKV_First')
    counts(ctx, c, 'Object::setKVIndexValue', f, {'u': unref()}, [({'plain': True, 'upd': True, 'kv': True}, {'u': 1}, 'the replaced value is not released exactly once'), ({'plain': False, 'upd': True, 'kv': True}, {'u': 0}, 'a packed value is released'),
                                                                 ({'plain': True, 'upd': False, 'kv': True}, {'u': 0}, 'a value is released although none was replaced')], (Plain(fid_param(f)), up, kv), follow_labelled=False, no_follow=NAME('updateExisting', 'addKV_First', 'insert'))
    # objects destroyed: all three stores
    for f in p.fns_q(OM + 'ObjectImplBase::dropMembers'):
        if len(f.params) < 2:
            continue
        inst = 'dropMembers in ' + p.syms[f.usr].cls[:70]
        L = {'p': unref(lambda ev: arg_has(r'pos_vt\(\)|\.values\(\)|types\(\)')(ev) or any(isinstance(a, tuple) and a and a[0] == 'local' for a in ev.args[-1:]) and 'xvalues' not in ' '.join(show(a) for a in ev.args)),
             'i': unref(lambda ev: arg_has(r'xvalues\(\)')(ev)), 'sp': named('removeFromSchema')}
        guard_rule(ctx, c, inst, f, {'p': L['p'], 'i': L['i']}, (), [({}, {'p': 'may', 'i': 'may'}, 'attributes are not released')], follow_labelled=False)
        order(ctx, c, inst + ' each', f, {'u': unref(), 'gone': named('removeFromSchema')}, [('u<gone', 'an attribute leaves the schema without its value being released'), 'gone~u'], follow_labelled=False)
    f = p.need(OM + 'Object::dropMembers')
    L = {'base': Call(OM + 'ObjectImplBase::dropMembers'), 'u': unref(), 'gone': named('removeFromSchema'), 'kill': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'destroy' and 'BIndex' in ev.sym.clsq, call=lambda s: s.name == 'destroy' and 'BIndex' in s.clsq)}
    order(ctx, c, f.q, f, L, [('u<gone', 'an attribute leaves the schema without its value being released'), 'gone~u', ('kill!u', 'released after the storage is gone')], ['base'], follow_labelled=False)
    guard_rule(ctx, c, f.q + ' releases', f, L, (), [({}, {'u': 'may', 'base': 'may', 'kill': 'may'}, 'dynamic attributes are not released')], follow_labelled=False)
    for f in p.fns_q(OM + 'ObjectImplBase::destroy'):
        inst = 'destroy in ' + p.syms[f.usr].cls[:70]
        has = Flag('has', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] == 'hasInstance')
        L = {'tags': named('dropTags'), 'mem': named('dropMembers'), 'cls': named('decRef'), 'kill': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'destroy' and 'ObjectImplBase' not in ev.sym.q and THIS(ev.recv), call=lambda s: s.name == 'destroy')}
        order(ctx, c, inst, f, L, [('mem<kill', 'members are not released before the storage goes'), ('tags<kill', 'tags are not dropped before the storage goes'), ('kill!mem', 'released after the storage is gone')], ['tags', 'mem', 'cls', 'kill'], (has,), {'has': True}, follow_labelled=False)
        counts(ctx, c, inst + ' class', f, {'cls': L['cls']}, [({'has': True}, {'cls': 1}, 'the class is not released exactly once'), ({'has': False}, {'cls': 0}, 'the class is released for an object that does not exist')], (has,), follow_labelled=False)
    for f in p.fns_q(OM + 'ObjectImplBase::postInit'):
        inst = 'postInit in ' + p.syms[f.usr].cls[:70]
        has = Flag('has', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] == 'hasInstance')
        counts(ctx, c, inst, f, {'cls': named('incRef'), 'init': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'init' and THIS(ev.recv), call=NAME('init'))},
               [({'has': True}, {'cls': 0}, 'the class is referenced again')], (has,), follow_labelled=False, no_follow=NAME('init', 'updateSchema', 'close', 'getData', 'setSingletonAddress'))
        L = {'cls': named('incRef'), 'close': Call(OM + 'ObjectInitializer::close')}
        both = lambda seen, o: None if o.kind != 'ret' or times(seen, 'cls') == (1 if 'close' in seen else 0) else 'the class of a new object is not referenced exactly once'
        q = Count(L, counted=('cls',), follow_labelled=False, no_follow=NAME('init', 'updateSchema', 'close', 'getData', 'setSingletonAddress'))
        seq_rule(ctx, c, inst + ' new', f, q, at_exit=both)
    # members assigned before the object exists
    for f in p.fns_q(OM + 'ObjectImplBase::setPreInit'):
        if len(f.params) != 3:
            continue
        inst = 'setPreInit in ' + p.syms[f.usr].cls[:60]
        L = {'new': named('createMember'), 'put': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'set' and ev.sym.clsq.endswith('ObjectInitializer'), call=lambda s: s.name == 'set' and s.clsq.endswith('ObjectInitializer')), 'u': unref()}
        order(ctx, c, inst, f, L, [('new<put', 'stored without taking a reference')], follow_labelled=False, no_follow=NAME('findField', 'addField', 'removePreInit'))
        plain = Flag('plain', lambda t: isinstance(t, tuple) and t and t[0] == 'op' and t[1] == '==' and t[3] == ('i', 0) and 'idelity' in show(t[2]))
        valid = Flag('valid', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].endswith('PyToolkit::isValid'))
        counts(ctx, c, inst + ' replaced', f, {'u': unref()}, [({'plain': True, 'valid': True}, {'u': 1}, 'a value replaced before the object exists is not released exactly once')], (plain, valid), follow_labelled=False, no_follow=NAME('findField', 'addField', 'removePreInit'))
    for f in p.fns_q(OM + 'ObjectImplBase::dropPreInit'):
        L = {'u': unref(), 'take': named('takeValues')}
        guard_rule(ctx, c, 'dropPreInit in ' + p.syms[f.usr].cls[:60], f, L, (), [({}, {'u': 'may', 'take': 'may'}, 'members of an abandoned object are not released')], follow_labelled=False)
    for f in p.fns_q('db0::python::PyAPI_MemoObject_init'):
        L = {'drop': Custom(lambda ev: ev.kind == 'call' and any(mentions(a, 'dropPreInit') for a in ev.args), call=lambda s: s.name == 'runSafe'), 'def': named('setDefunct'), 'post': Custom(lambda ev: ev.kind == 'call' and any(mentions(a, 'postInit') for a in ev.args), call=lambda s: s.name == 'runSafe')}
        order(ctx, c, 'PyAPI_MemoObject_init in ' + p.syms[f.usr].ta[-50:], f, L, (), (), (), {}, lambda seen, o: None if ('def' not in seen or 'post' in seen or 'drop' in seen) else 'members assigned by a constructor that failed are not released', follow_labelled=False)


class Plain:
    """`fidelity == 0`"""
    name = 'plain'
    values = (True, False)

    def __init__(self, idx):
        self.m = param(idx=idx)

    def eval(self, t, v):
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in ('==', '!=', '>'):
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if self.m(x) and y in (('i', 0), ('i', 2)):
                    r = v if y == ('i', 0) else not v
                    if t[1] == '>':
                        return (not v) if y == ('i', 0) and x is t[2] else None
                    return r if t[1] == '==' else not r
        return None


def fid_param(f):
    for i, n in enumerate(f.params):
        if n == 'fidelity':
            return i
    # renamed: the (only) unsigned parameter compared with 0 in a condition
    for b in f.blocks.values():
        if b.cond:
            for x in walk(b.cond):
                if x[0] == 'b' and x[1] in ('==', '!=', '>') and x[2] and x[2][0] == 'p' and x[3] and x[3][0] == 'i' and x[3][1] == 0:
                    return x[2][1]
    raise AnalysisError('%s: the parameter that tells packed from plain storage was not found' % f.q)


@R('collected', 'an object is dropped as soon as neither the store nor the program refers to it, never before: not while it is referenced, volatile, read-only or being committed; '
   'deletions put off by a commit, and objects unreferenced at a commit, are recorded with it and collected when the file is next opened for writing', 13)
def _(ctx, p, c):
    G = 'db0::GC0'
    f = p.need(G + '::tryRemove')
    ro = Flag('ro', fld('m_read_only')); cp = Flag('cp', fld('m_commit_pending')); vol = Flag('vol', param(idx=1))
    hasop = Flag('hasop', lambda t: isinstance(t, tuple) and t and t[0] == 'fld' and t[2].endswith('GC_Ops::hasRefs'))
    dropop = Flag('dropop', lambda t: isinstance(t, tuple) and t and t[0] == 'fld' and t[2].endswith('GC_Ops::drop'))
    refs = Flag('refs', lambda t: isinstance(t, tuple) and t and t[0] in ('ci', 'icall') and 'hasRefs' in show(t))
    known = Found('known', F('m_vptr_map'))
    isdrop = Custom(lambda ev: ev.kind == 'icall' and re.search(r'drop', show(ev.recv)))
    sched = Custom(lambda ev: (ev.kind == 'asg' and 'm_scheduled_for_deletion' in show(ev.lhs)) or (ev.kind == 'call' and ev.sym.name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'operator[]') and 'm_scheduled_for_deletion' in show(ev.recv or ())), field=lambda q: q.endswith('m_scheduled_for_deletion'))
    forget = call_on('erase', F('m_vptr_map'))
    L = {'drop': isdrop, 'sched': sched, 'forget': forget, 'lock': Call('db0::FixtureLock::FixtureLock'), 'unl': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'unlock' and 'lock' in show(ev.recv or ()))}
    base = {'ro': False, 'cp': False, 'vol': False, 'hasop': True, 'dropop': True, 'refs': False, 'known': True}
    A = (ro, cp, vol, hasop, dropop, refs, known)
    for k, why in (('ro', 'an object of a read-only prefix or snapshot is dropped'), ('vol', 'a revoked object is dropped'), ('refs', 'an object that is still referred to is dropped')):
        guard_rule(ctx, c, 'tryRemove keeps when ' + k, f, L, A, [(dict(base, **{k: True}), {'drop': 'never', 'sched': 'never', 'forget': 'must'}, why), (dict(base, **{k: True, 'cp': True}), {'drop': 'never', 'sched': 'never', 'forget': 'must'}, why)], follow_labelled=False)
    guard_rule(ctx, c, 'tryRemove drops', f, L, A, [(base, {'drop': 'may', 'sched': 'never', 'forget': 'must'}, 'an object nothing refers to is not dropped'),
                                                     (dict(base, cp=True), {'drop': 'never', 'sched': 'may', 'forget': 'must'}, 'while a commit is running the deletion is put off')], follow_labelled=False)
    order(ctx, c, 'tryRemove order', f, L, [('forget<drop', 'dropped while still registered (recursion)'), ('lock<drop', 'dropped without locking the prefix')], (), A, base, follow_labelled=False)
    # --- recorded with the commit
    f = p.need(G + '::commitAllOf')
    pb = Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'push_back' and THIS(ev.recv), call=lambda s: s.name == 'push_back')
    L = {'clear': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'clear' and THIS(ev.recv), call=lambda s: s.name == 'clear'), 'rec': pb, 'commit': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'commit' and THIS(ev.recv), call=lambda s: s.name == 'commit'),
         'recs': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'push_back' and THIS(ev.recv) and 'm_scheduled_for_deletion' in show(ev.args[0] if ev.args else ()), call=lambda s: s.name == 'push_back'),
         'reca': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'push_back' and THIS(ev.recv) and 'm_scheduled_for_deletion' not in show(ev.args[0] if ev.args else ()), call=lambda s: s.name == 'push_back'),
         'sclr': call_on('clear', F('m_scheduled_for_deletion')), 'oc': Custom(lambda ev: ev.kind == 'icall' and 'commit' in show(ev.recv)), 'note': Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ('insert', 'emplace', 'push_back') and 'addresses' in show(ev.recv or ()))}
    order(ctx, c, 'commitAllOf order', f, L, [('rec!clear', 'what was recorded is cleared'), ('sclr!recs', 'put-off deletions are forgotten before they are recorded'), ('commit!rec', 'recorded after the record was committed'), ('clear<rec', 'the record of the last commit is kept')],
          ['clear', 'commit', 'sclr'], follow_labelled=False)
    guard_rule(ctx, c, 'commitAllOf records', f, L, (), [({}, {'recs': 'may', 'reca': 'may'}, 'unreferenced or put-off objects are not recorded')], follow_labelled=False)
    refs2 = Flag('refs', lambda t: isinstance(t, tuple) and t and t[0] in ('ci', 'icall') and 'hasRefs' in show(t))
    ins = Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ('insert', 'emplace', 'push_back') and ev.sym.clsq.startswith('std::') and ev.recv and ev.recv[0] == 'local')
    guard_rule(ctx, c, 'commitAllOf unreferenced only', f, {'note': ins}, (refs2, hasop), [({'refs': True, 'hasop': True}, {'note': 'never'}, 'a referenced object is recorded for deletion'), ({'refs': False, 'hasop': True}, {'note': 'may'}, 'an unreferenced object is not recorded')], follow_labelled=False)
    # --- collected on opening
    f = p.need(G + '::collect')
    dba = Custom(lambda ev: ev.kind == 'icall' and 'dropByAddr' in show(ev.recv))
    L = {'drop': dba, 'c1': call_on('clear', F('m_scheduled_for_deletion')), 'c2': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'clear' and THIS(ev.recv), call=lambda s: s.name == 'clear')}
    live = Flag('live', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] == 'empty' and 'm_vptr_map' in show(t))
    order(ctx, c, 'collect', f, L, [('c2!drop', 'the record is cleared before it was processed')], ['c2'], follow_labelled=False)
    guard_rule(ctx, c, 'collect drops', f, L, (live,), [({'live': True}, {'drop': 'may'}, 'recorded objects are not dropped'), ({'live': False}, {'drop': 'never', '_x': 'throws'}, 'collected while instances are live')], follow_labelled=False)
    cl = [p.syms[u] for s in p.sym_q(G + '::collect') for u in p.callers().get(s.usr, ()) if u in p.meta]
    if not cl:
        ctx.fail(c, 'collect runs', 'recorded objects are never collected', f.where)
    else:
        ctx.ok(c, 'collect runs', f.where)
    # --- operations registered for each type
    for s in sorted(p.syms.values(), key=lambda s: (s.q, s.usr)):
        if s.clsq == 'db0::ObjectBase' and s.usr in p.meta and s.name in ('dropOp', 'hasRefsOp', 'dropByAddr'):
            f = p.fn(s.usr)
            n = {'dropOp': 'destroy', 'hasRefsOp': 'hasRefs'}.get(s.name)
            if n:
                counts(ctx, c, '%s %s' % (s.name, s.cls[:60]), f, {'x': named(n)}, [({}, {'x': 1}, 'does not call %s' % n)], follow_labelled=False)
    for f in p.fns_q('db0::ObjectBase::getGC_Ops'):
        names = []
        for e in f.events():
            for x in walk(e):
                if x[0] == 'f' and x[1].name in ('hasRefsOp', 'dropOp', 'detachOp', 'commitOp', 'getTypedAddress', 'dropByAddr', 'getFlushFunction') and x[1].name not in names:
                    names.append(x[1].name)
        want = ['hasRefsOp', 'dropOp', 'detachOp', 'commitOp', 'getTypedAddress', 'dropByAddr']
        ctx.check(names[:6] == want, c, 'operations of ' + p.syms[f.usr].cls[:60], 'the operations are registered as %s' % names, f.where)
    # --- deregistration: before members go, in every registered type
    for n in LTYPES + ('Class', 'Enum'):
        cls = {OM + n}
        for _ in range(4):
            # a class without a destructor of its own: that of its base
            cls |= {b.split('<')[0] if '::' in b.split('<')[0] else OM + b.split('<')[0] for q0, r in p.recs.items() if q0.split('<')[0] in cls and (q0 == OM + n or any(n in x for x in re.split(r'[<>, :]+', q0))) for b in r['bases']}
        ds = [s for s in p.syms.values() if s.dtor and s.clsq in cls and (s.clsq == OM + n or n in re.split(r'[<>, :]+', s.cls))]
        ok = False; wh = ''
        for d in ds:
            if d.usr in p.meta:
                wh = p.fn(d.usr).where
                got, outs, q = reach(ctx, p.fn(d.usr), {'un': named('unregister')}, (), {}, follow_labelled=False)
                ok = ok or bool(outs) and all('un' in o.state[0] for o in outs if o.kind == 'ret')
        ctx.check(ok, c, 'deregistered: ' + n, 'an instance is destroyed while still registered (its object is never dropped and the registry refers to freed memory)', wh)
    f = p.fns_q('db0::ObjectBase::unregister')
    for g in f:
        reg = Flag('reg', fld('m_gc_registered'))
        has = Flag('has', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] == 'hasInstance')
        fx = Flag('fx', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] == 'tryGetFixture')
        guard_rule(ctx, c, 'unregister %s' % p.syms[g.usr].cls[:60], g, {'rm': named('tryRemove')}, (reg, has, fx), [({'reg': True, 'has': True, 'fx': True}, {'rm': 'must'}, 'a registered instance is not removed'), ({'reg': False, 'has': True, 'fx': True}, {'rm': 'never'}, 'an unregistered instance is removed')], follow_labelled=False)


@R('moved', 'an object moves to another prefix only when none of its items refers to its old prefix: collections must be empty, tuples may hold only values that are stored in place', 9)
def _(ctx, p, c):
    base = Custom(lambda ev: ev.kind == 'call' and ev.sym.q == 'db0::ObjectBase::moveTo', call=lambda s: s.q == 'db0::ObjectBase::moveTo')
    for cls in ('List', 'Set', 'Dict'):
        f = p.need(OM + cls + '::moveTo')
        # any comparison of the size with zero
        empty = Sz('n')
        guard_rule(ctx, c, f.q, f, {'go': base}, (empty,), [({'n': 1}, {'go': 'never', '_x': 'throws'}, 'a collection with items is moved: its items refer to the old prefix'), ({'n': 0}, {'go': 'must'}, 'an empty collection is not moved')], follow_labelled=False)
    f = p.need(OM + 'Tuple::moveTo')
    inplace = ('NONE', 'INT64', 'FP_NUMERIC64', 'DATETIME', 'DATETIME_TZ', 'DATE', 'TIME', 'TIME_TZ', 'DECIMAL', 'BOOLEAN', 'PTIME64', 'TIMESTAMP', 'PACK_2', 'UNDEFINED', 'DELETED', 'DB0_ENUM_VALUE')
    allsc = [x[0] if isinstance(x, (list, tuple)) else x for x in p.enums[OM + 'StorageClass']['c']]
    sc = Enum('sc', fld('m_storage_class'), [x.rpartition('::')[2] for x in allsc])
    n = 0
    for k in ('STRING_REF', 'OBJECT_REF', 'DB0_LIST', 'DB0_DICT', 'DB0_SET', 'DB0_TUPLE', 'DB0_INDEX', 'DB0_BYTES', 'DB0_CLASS', 'DB0_BYTES_ARRAY', 'DB0_SERIALIZED', 'DB0_WEAK_SET', 'OBJECT_WEAK_REF', 'OBJECT_LONG_WEAK_REF', 'CALLABLE', 'DB0_ENUM_VALUE'):
        # a tuple without items, or whose items were all looked at, moves: with an item of this class every path past the first item throws
        got, outs, q = reach(ctx, f, {'item': Custom(lambda ev: ev.kind == 'decl' and 'each()' in show(ev.rhs or ()) ), 'go': base}, (sc,), {'sc': k}, follow_labelled=False)
        bad = [o for o in outs if o.kind == 'ret' and 'item' in o.state[0]]
        ctx.check(not bad, c, 'Tuple::moveTo with %s' % k, 'a tuple holding a value of the old prefix is moved', f.where)
        n += 1
    for s in sorted(p.syms.values(), key=lambda s: s.usr):
        if s.q == 'db0::ObjectBase::moveTo' and s.usr in p.meta:
            f = p.fn(s.usr)
            L = {'kill': named('destroy', recv=THIS), 'cache': Custom(lambda ev: ev.kind == 'call' and ev.sym.q == 'db0::LangCache::moveFrom', call=lambda s: s.q == 'db0::LangCache::moveFrom'), 'gc': Custom(lambda ev: ev.kind == 'call' and ev.sym.q == 'db0::GC0::moveFrom', call=lambda s: s.q == 'db0::GC0::moveFrom'),
                 'take': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator=' and THIS(ev.recv), call=lambda s: s.name == 'operator=')}
            order(ctx, c, 'ObjectBase::moveTo of %s' % s.cls.split('<')[1].split(',')[0].rpartition('::')[2] if '<' in s.cls else s.cls, f, L,
                  [('cache<kill', 'the old instance is destroyed while the cache still knows it'), ('gc<kill', 'the old instance is destroyed while registered with the old prefix'), ('kill<take', 'the old storage is leaked')], ['kill', 'cache', 'gc', 'take'], follow_labelled=False)


class Sz:
    """comparisons of a size with 0"""
    def __init__(self, name):
        self.name = name

    def eval(self, t, v):
        if isinstance(t, tuple) and t and t[0] == 'op' and len(t) == 4:
            a, b = t[2], t[3]
            fl = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
            op = t[1]
            if isinstance(a, tuple) and a and a[0] == 'i':
                a, b = b, a; op = fl.get(op, op)
            if isinstance(a, tuple) and a and ((a[0] == 'call' and a[1].rpartition('::')[2] in ('size', 'getSize')) or (a[0] == 'fld' and a[2].endswith('m_size'))) and isinstance(b, tuple) and b and b[0] == 'i' and isinstance(b[1], int):
                return {'<': v < b[1], '>': v > b[1], '<=': v <= b[1], '>=': v >= b[1], '==': v == b[1], '!=': v != b[1]}.get(op)
        if isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] in ('size', 'getSize'):
            return bool(v)
        if isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] == 'empty':
            return v == 0
        return None


@R('weak', 'a weak reference never keeps its target alive and never returns another object: the target is used only after its address and instance number were verified and it is still referenced, otherwise a placeholder is returned', 5)
def _(ctx, p, c):
    tab, f0 = table(p, OM + 'registerUnloadMemberFunctions')
    for k in ('OBJECT_WEAK_REF', 'OBJECT_LONG_WEAK_REF'):
        if k not in tab:
            ctx.fail(c, k, 'weak references cannot be read', f0.where); continue
        f = p.fn(tab[k][0].usr)
        ex = Flag('ex', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].endswith('::isExistingObject'))
        L = {'obj': named('unloadObject'), 'exp': named('unloadExpiredRef'), 'chk': named('isExistingObject'), 'noid': Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'isExistingObject' and not (len(ev.args) > 2 and 'getInstanceId' in show(ev.args[2]).split('(')[0] + show(ev.args[2])), call=NAME('isExistingObject'))}
        guard_rule(ctx, c, k, f, L, (ex,), [({'ex': True}, {'obj': 'must', 'exp': 'never', 'noid': 'never'}, 'an existing target is not returned'), ({'ex': False}, {'obj': 'never', 'exp': 'must', 'noid': 'never'}, 'an expired target is not replaced by a placeholder')], follow_labelled=False)
        order(ctx, c, k + ' checked', f, L, [('chk<obj', 'the target is read without being verified'), ('-noid', 'the instance number is not verified')], follow_labelled=False)
    for f in p.fns_q('db0::ObjectBase::checkUnload'):
        if len(f.params) != 4:
            continue
        cls = p.syms[f.usr].cls
        valid = Flag('valid', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].endswith('::isAddressValid'))
        want = Flag('want', param(idx=3)); gave = Gave(param(idx=2))
        same = Same()
        refs = Flag('refs', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] == 'hasRefs')
        cases = [({'valid': False}, False), ({'valid': True, 'gave': True, 'same': False, 'want': False, 'refs': True}, False), ({'valid': True, 'gave': True, 'same': True, 'want': True, 'refs': False}, False),
                 ({'valid': True, 'gave': False, 'want': True, 'refs': False, 'same': True}, False), ({'valid': True, 'gave': True, 'same': True, 'want': True, 'refs': True}, True), ({'valid': True, 'gave': True, 'same': False, 'want': True, 'refs': True}, False)]
        bad = []
        for val, exp in cases:
            got, outs, q = reach(ctx, f, {'r': Ret()}, (valid, want, gave, same, refs), val)
            for o in outs:
                if o.kind == 'ret':
                    r = truth(o.ret, val, [a for a in (valid, want, gave, same, refs) if a.name in val])
                    if r is not None and r != exp or (r is None and not exp):
                        bad.append('answers %s when %s' % (r, val))
        if bad:
            for b in sorted(set(bad)):
                ctx.fail(c, 'checkUnload of ' + cls[:60], b, f.where)
        else:
            ctx.ok(c, 'checkUnload of ' + cls[:60], f.where)
    # the placeholder is not put in the cache under the address of an object
    for f in p.fns_q('db0::python::PyToolkit::unloadExpiredRef'):
        guard_rule(ctx, c, 'unloadExpiredRef/%d' % len(f.params), f, {'add': Custom(lambda ev: ev.kind == 'call' and ev.sym.q.startswith('db0::LangCache::') and ev.sym.name == 'add' or ev.kind == 'call' and ev.sym.q.startswith('db0::LangCacheView::') and ev.sym.name == 'add', call=lambda s: s.name == 'add')}, (),
                   [({}, {'add': 'never'}, 'the placeholder of an expired reference is cached as the object at that address')], follow_labelled=False)


class Gave:
    """an instance number was given"""
    name = 'gave'

    def __init__(self, m):
        self.m = m

    def eval(self, t, v):
        if self.m(t):
            return v
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in ('!=', '==', '>') and self.m(t[2]) and t[3] == ('i', 0):
            return v if t[1] != '==' else not v
        return None


class Same:
    name = 'same'

    def eval(self, t, v):
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in ('!=', '=='):
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if isinstance(x, tuple) and x and x[0] == 'fld' and x[2].endswith('m_instance_id'):
                    return v if t[1] == '==' else not v
        return None


@R('tags', 'assigning a tag takes a tag reference of the object, removing it gives it back: the callbacks of each tag update are the right ones, in the right places', 6)
def _(ctx, p, c):
    f = p.need(OM + 'TagIndex::flush')
    seen = {}

    def m(ev):
        if ev.kind == 'call' and ev.sym.name == 'flush' and len(ev.args) >= 4:
            seen[(ev.line if hasattr(ev, 'line') else show(ev.recv or ()), show(ev.recv or ()))] = [effect(p, a, ev.env) for a in ev.args[:4]]
            return True
        return False
    reach(ctx, f, {'x': Custom(m, call=NAME('flush'))}, (), {}, follow_labelled=False)
    if not seen:
        raise AnalysisError('TagIndex::flush: no update of a tag index found')
    objs = 0
    for (ln, rv), e in sorted(seen.items(), key=str):
        inst = 'update of %s' % re.sub(r'^this\.', '', rv)
        ctx.check(e[0] == 'take', c, inst + ' added', 'adding a tag does not take a reference of the object (%s)' % e[0], f.where)
        ctx.check(e[1] in ('release', None), c, inst + ' removed', 'removing a tag does not give back the reference of the object (%s)' % e[1], f.where)
        objs += e[1] == 'release'
        ctx.check(e[2] == 'tag-take' and e[3] == 'tag-release', c, inst + ' tag strings', 'the strings of tags are not counted (%s, %s)' % (e[2], e[3]), f.where)
    for f in p.fns_q(OM + 'IndexBuilder::flush'):
        got = []

        def mi(ev):
            if ev.kind == 'call' and ev.sym.name == 'flush' and len(ev.args) >= 3:
                got.append([effect(p, a, ev.env, False) for a in ev.args[1:3]]); return True
            return False
        reach(ctx, f, {'x': Custom(mi, call=NAME('flush'))}, (), {}, follow_labelled=False)
        ctx.check(bool(got) and all(g == ['take', 'release'] for g in got), c, 'objects in indexes: ' + p.syms[f.usr].cls[:70], 'adding an object to an index and removing it does %s' % got, f.where)
    ctx.check(objs >= 2, c, 'tags given by the program are released', 'removing a tag gives back no reference', f.where)


def effect(p, a, env, tag=True):
    """what a callback does with the counters (of references by tags, or by the store)"""
    l = lam_of(a, env)
    if l is None:
        return None if a in (('i', None), ('i', 0)) else '?'
    out = set()
    for e in p.fn(l.usr).events():
        if e[0] == 'call' and e[2][0] == 'c':
            n = e[2][1].name
            r = {'incRef': 'take', 'decRefMemo': 'release', 'decRef': 'release', 'tryTagIncRef': 'tag-take', 'tryTagDecRef': 'tag-release'}.get(n)
            if r and not r.startswith('tag'):
                k = e[2][3][0] if e[2][3] else None
                if k != ('i', tag):
                    r += ' of the wrong kind'
            if r:
                out.add(r)
    return out.pop() if len(out) == 1 else '?'
