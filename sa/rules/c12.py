"""C12 sets and dictionaries hold each key once and find it by value; every stored value can be read back"""
import re
from ..q import *
from ..db import AnalysisError
from ..report import Rules
from .c13 import OM, NAME, named, walk, table, spec_of, truth, m_index, STEP, jstep, last

R = Rules()
check = R.check
HASHED = ('Dict', 'Set', 'WeakSet')
CMP = lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].endswith('PyToolkit::compare')


def bx(*n):
    return Custom(lambda ev: ev.kind == 'call' and ev.sym.name in n and ev.sym.clsq.endswith(('MorphingBIndex', 'CollectionIndex')), call=lambda s: s.name in n and s.clsq.endswith(('MorphingBIndex', 'CollectionIndex')))


def idx(*n):
    return Custom(lambda ev: ev.kind == 'call' and ev.sym.name in n and m_index(ev.recv), call=NAME(*n))


def methods(p, *names):
    out = []
    for cls in HASHED:
        for n in names:
            for f in p.fns_q(OM + cls + '::' + n):
                out.append((cls, n, f, '%s::%s%s' % (cls, n, '/%d' % len(f.params) if len(p.fns_q(OM + cls + '::' + n)) > 1 else '')))
    return out


SIZE = lambda q: q.startswith(OM) and q.endswith('::m_size')


def sized(t):
    return isinstance(t, tuple) and t and t[0] == 'fld' and SIZE(t[2])


def unloaded(t):
    return any(x[0] == 'call' and x[1].endswith('::unloadMember') for x in walk(t))


KEYED = NAME('unloadMember', 'createMember', 'createTypedItem', 'createDictItem', 'createSetItem', 'createWeakSetItem', 'createWeakTypedItem', 'restoreIterators', 'unrefMember', 'getStorageClass', 'getFixture', 'extractAnyObject', 'is_end', 'assureAttached')


@R('matched', 'a stored entry is taken for the one asked for only after its key compared equal; keys that only share the hash value are different keys', 8)
def _(ctx, p, c):
    eq = Flag('eq', CMP)
    for cls, n, f, inst in methods(p, 'setItem', 'getItem', 'hasItem', 'pop', 'remove'):
        if cls == 'Set' and n == 'pop':
            continue      # takes any item
        L = {'gone': bx('erase'), 'rel': named('unrefMember'), 'drop': idx('erase'), 'kill': bx('destroy'), 'less': Custom(lambda ev: ev.kind == 'asg' and ev.op in ('--', '-=') and sized(ev.lhs), field=SIZE),
             'found': Ret(lambda t: t not in (None, ('i', None), ('i', False), ('i', 0)) and not (isinstance(t, tuple) and t[0] in ('new', 'call') and 'shared_py_object' in t[1] and not t[3]) and (t == ('i', True) or unloaded(t) or (isinstance(t, tuple) and t[0] == 'local')))}
        never = {k: 'never' for k in L}
        may = {'setItem': {'gone': 'may'}, 'pop': {'found': 'may'}, 'remove': {'gone': 'may', 'found': 'may'}}.get(n, {'found': 'may'})
        nf = (lambda s: KEYED(s) or s.name == 'pop') if n == 'setItem' else KEYED
        guard_rule(ctx, c, inst, f, L, (eq,), [({'eq': False}, never, 'an entry with another key of the same hash is used'), ({'eq': True}, may, 'an equal key is not found')], follow_labelled=False, no_follow=nf)
        # what is compared: the key asked for with the key of the entry
        calls_ = []

        def m(ev):
            if ev.kind == 'call' and ev.sym.name == 'compare' and ev.sym.clsq.endswith('PyToolkit'):
                calls_.append(ev.args[:2]); return True
            return False
        reach(ctx, f, {'x': Custom(m, call=NAME('compare'))}, (), {}, follow_labelled=False, no_follow=nf)
        if not calls_:
            ctx.fail(c, inst + ' compares', 'keys are not compared', f.where)
        for a, b in calls_:
            if unloaded(a):
                a, b = b, a
            bad = None
            if not (isinstance(a, tuple) and a[0] == 'param'):
                bad = 'the key asked for is not compared'
            elif not unloaded(b):
                bad = 'the key is not compared with that of the entry'
            elif cls == 'Dict' and any(x[0] == 'fld' and x[2].rpartition('::')[2] == 'm_second' for x in walk(b)):
                bad = 'the key is compared with the value of the entry'
            ctx.check(bad is None, c, inst + ' compares', bad, f.where)
    # an added key was looked up first
    for cls, n, f, inst in methods(p, 'append'):
        L = {'look': named('getItem', 'hasItem'), 'put': bx('insert')}
        if not any(e[0] == 'call' and e[2][0] == 'c' and e[2][1].name == 'insert' for e in f.events()):
            continue
        hit = Flag('hit', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] in ('getItem', 'hasItem') and OM in t[1])
        order(ctx, c, inst + ' looks first', f, L, [('look<put', 'a key is added to a bucket without looking whether it is there')], (), follow_labelled=False, no_follow=KEYED)


@R('bucket', 'when a bucket moves because keys were added to it or removed from it, the entry of its hash value is pointed at its new place', 4)
def _(ctx, p, c):
    moved = Moved()
    for cls, n, f, inst in methods(p, 'setItem', 'append', 'pop', 'remove'):
        fs = [e for e in f.events() if e[0] == 'call' and e[2][0] == 'c' and e[2][1].name in ('insert', 'erase')]
        if not fs:
            continue
        L = {'mut': bx('insert', 'erase'), 'addr': store('m_index_address'), 'type': store('m_type'), 'put': idx('insert'), 'del': idx('erase')}

        def at(seen, o):
            if o.kind == 'ret' and 'mut' in seen and not ({'addr', 'type'} <= seen or {'del', 'put'} <= seen):
                return 'a bucket that moved is not pointed at'
        nf = (lambda s: KEYED(s) or s.name in ('pop', 'getItem', 'hasItem')) if n != 'pop' else KEYED
        order(ctx, c, inst, f, L, (), (), (moved,), {'moved': True}, at, follow_labelled=False, no_follow=nf)


class Moved:
    """the address of a bucket differs from the recorded one"""
    name = 'moved'
    values = (True, False)

    def eval(self, t, v):
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in ('!=', '=='):
            s = (show(t[2]), show(t[3]))
            if any('getAddress' in x for x in s) and any('m_index_address' in x for x in s):
                return v if t[1] == '!=' else not v
        if isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] in ('operator!=', 'operator=='):
            s = show(t)
            if 'getAddress' in s and 'm_index_address' in s:
                return v if t[1].endswith('!=') else not v
        return None


@R('size', 'the recorded number of items follows every insertion and removal, on every path', 5)
def _(ctx, p, c):
    for cls, n, f, inst in methods(p, 'setItem', 'append', 'pop', 'remove'):
        if not any(e[0] == 'call' and e[2][0] == 'c' and e[2][1].name in ('insert', 'erase') for e in f.events()):
            continue
        up = Custom(lambda ev: ev.kind == 'asg' and ev.op in ('++',) and sized(ev.lhs), field=SIZE)
        dn = Custom(lambda ev: ev.kind == 'asg' and ev.op in ('--',) and sized(ev.lhs), field=SIZE)
        L = {'up': up, 'dn': dn, 'add': bx('insert'), 'ins': idx('insert'), 'rem': bx('erase'), 'del': idx('erase')}
        nf = (lambda s: KEYED(s) or s.name in ('pop', 'getItem', 'hasItem')) if n != 'pop' else KEYED
        q = Count(L, counted=('up', 'dn'), follow_labelled=False, no_follow=nf)

        def at(seen, o):
            if o.kind != 'ret':
                return None
            # a bucket entry that is removed and inserted again is re-pointed
            added = ('add' in seen) or ('ins' in seen and 'del' not in seen)
            removed = ('rem' in seen) or ('del' in seen and 'ins' not in seen)
            want = int(added) - int(removed)
            got = times(seen, 'up') - times(seen, 'dn')
            if want != got:
                return 'the number of items changes by %d, not by %d' % (got, want)
        seq_rule(ctx, c, inst, f, q, at_exit=at)
    for cls, n, f, inst in methods(p, 'clear'):
        order(ctx, c, inst, f, {'zero': Custom(lambda ev: ev.kind == 'asg' and ev.op == '=' and sized(ev.lhs) and ev.rhs == ('i', 0), field=SIZE), 'clear': idx('clear')}, (), ['zero', 'clear'], follow_labelled=False, no_follow=KEYED)
    for q in ('Dict', 'Set'):
        f = p.need(OM + q + '::size')
        ctx.check(any(x[0] == 'm' and SIZE(x[2]) for e in f.events() if e[0] == 'ret' for x in walk(e)), c, q + '::size', 'does not answer the recorded number', f.where)


@R('iterators', 'a running iteration survives changes of its collection: every change re-positions the iterators, at the recorded position and forward from it, and each step records its position', 18)
def _(ctx, p, c):
    mut = {'List': Custom(lambda ev: ev.kind == 'call' and ev.sym.name in ('erase', 'push_back', 'clear', 'swapAndPop', 'pop_back', 'bulkPushBack') and ev.sym.clsq.startswith('db0::v_bvector'), call=lambda s: s.clsq.startswith('db0::v_bvector') and s.name in ('erase', 'push_back', 'clear', 'swapAndPop', 'pop_back'))}
    restore = Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'restoreIterators', call=NAME('restoreIterators'))
    for cls in ('List',) + HASHED:
        m = mut.get(cls) or Custom(lambda ev: ev.kind == 'call' and ((ev.sym.name in ('insert', 'erase', 'destroy') and ev.sym.clsq.endswith(('MorphingBIndex', 'CollectionIndex'))) or (ev.sym.name in ('insert', 'erase', 'clear') and m_index(ev.recv))), call=NAME('insert', 'erase', 'clear', 'destroy'))
        for n in ('setItem', 'append', 'pop', 'remove', 'clear', 'swapAndPop', 'extend', 'insert'):
            for f in p.fns_q(OM + cls + '::' + n):
                sub = [g for g in ('swapAndPop', 'pop', 'append') if g != n]
                inst = '%s::%s/%d' % (cls, n, len(f.params))
                L = {'mut': m, 'fix': restore}
                at = lambda seen, o: 'the collection changes but its iterators are not re-positioned' if 'mut' in seen else None
                # what follows a change must include a re-positioning
                order(ctx, c, inst, f, L, [('mut>fix', 'the collection changes but its iterators are not re-positioned')], (), follow_labelled=False, no_follow=lambda s: KEYED(s) or s.name == 'unrefMembers')
        f = p.fns_q(OM + cls + '::restoreIterators')
        for g in f:
            got, outs, q = reach(ctx, g, {'all': named('forEach')}, (Flag('none', lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] == 'cleanup'),), {'none': False}, follow_labelled=False)
            # the callback of forEach restores
            lams = [p.syms[x] for x in p.meta[g.usr][2]] if p.meta[g.usr][2] else []
            cb = any(p.syms[u].name == 'restore' for l in lams for u in p.callees(l.usr) if u in p.syms)
            ctx.check(bool(outs) and all('all' in o.state[0] for o in outs if o.kind == 'ret') and (cb or not lams), c, g.q, 'live iterators are not re-positioned', g.where)
    # iterators over hashed collections
    for cls in ('DictIterator', 'SetIterator', 'WeakSetIterator'):
        join = Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'join' and 'm_join_iterator' in show(ev.recv or ()), call=NAME('join'))
        back = Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'join' and 'm_join_iterator' in show(ev.recv or ()) and not (len(ev.args) > 1 and isinstance(ev.args[1], tuple) and ev.args[1][0] == 'i' and isinstance(ev.args[1][1], int) and ev.args[1][1] > 0), call=NAME('join'))
        wrong = Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'join' and 'm_join_iterator' in show(ev.recv or ()) and not (ev.args and 'm_current_key' in show(ev.args[0])), call=NAME('join'))
        for f in p.fns_q(OM + cls + '::restore'):
            order(ctx, c, cls + '::restore', f, {'join': join, 'back': back, 'wrong': wrong}, [('-back', 'the iterator is moved backwards (items are repeated)'), ('-wrong', 'the iterator is not moved to its recorded position')], (), follow_labelled=False)
            atend = Flag('end', lambda t: isinstance(t, tuple) and t and t[0] == 'fld' and t[2].rpartition('::')[2] in ('m_is_end', 'm_inner_end'))
            look = Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'find' and OM in ev.sym.q and 'm_current_hash' in show(ev.args[0] if ev.args else ()), call=lambda s: s.name == 'find' and OM in s.q)
            guard_rule(ctx, c, cls + '::restore position', f, {'look': look, 'join': join}, (atend,), [({'end': True}, {'join': 'never'}, 'an iterator that ended starts again'), ({'end': False}, {'look': 'must', 'join': 'may'}, 'the iterator is not moved to its recorded position')], follow_labelled=False)
        for s in sorted(p.syms.values(), key=lambda s: s.usr):
            if s.clsq == OM + cls and s.usr in p.meta and not s.ctor:
                f = p.fn(s.usr)
                step = Custom(lambda ev: ev.kind == 'call' and ev.sym.name == 'operator++' and 'm_join_iterator' in show(ev.recv or (ev.args[0] if ev.args else ())), call=NAME('operator++'))
                if not any(e[0] == 'call' and e[2][0] == 'c' and e[2][1].name == 'operator++' and 'm_join_iterator' in repr(e[2]) for e in f.events()):
                    continue
                order(ctx, c, '%s::%s' % (cls, s.name), f, {'step': step, 'rec': store('m_current_key'), 'next': Call(OM + cls + '::setJoinIterator')}, (), (), (), {}, lambda seen, o: None if o.kind != 'ret' or 'step' not in seen or seen & {'rec', 'next'} else 'a step does not record the position: a later change of the collection moves the iterator back', follow_labelled=False, no_follow=NAME('assureAttached'))
        for f in p.fns_q(OM + cls + '::setJoinIterator'):
            L = {'hash': store('m_current_hash'), 'key': store('m_current_key'), 'begin': named('beginJoin'), 'end': Custom(lambda ev: ev.kind == 'asg' and show(ev.lhs).endswith(('m_is_end', 'm_inner_end')), field=lambda q: q.endswith(('m_is_end', 'm_inner_end')))}
            at = lambda seen, o: None if o.kind != 'ret' or {'hash', 'key', 'begin'} <= seen or 'end' in seen else 'a new bucket does not become the recorded position'
            order(ctx, c, cls + '::setJoinIterator', f, L, (), (), (), {}, at, follow_labelled=False, no_follow=NAME('assureAttached'))


@R('unequal', 'two values are unequal exactly when they are not equal', 9)
def _(ctx, p, c):
    for s in sorted(p.syms.values(), key=lambda s: (s.q, s.usr)):
        if s.name != 'operator!=' or not s.repo or s.usr not in p.meta or not s.q.startswith(('db0::object_model::', 'db0::UniqueAddress', 'db0::ObjectId', 'db0::python::', 'db0::Fixture')):
            continue
        own = [x for x in p.syms.values() if x.name == 'operator==' and x.clsq == s.clsq and x.cls == s.cls and x.pt == s.pt and x.usr in p.meta]
        if not own:
            continue
        f = p.fn(s.usr)
        usrs = {x.usr for x in own}
        inst = '%s(%s)' % (s.q, s.pt[-60:])
        eq = Flag('eq', lambda t: isinstance(t, tuple) and t and ((t[0] == 'call' and t[1].endswith('operator==') and t[1] == s.clsq + '::operator==') or (t[0] == 'op' and t[1] == '==' and (THIS(t[2]) or 'this' in show(t[2])))))
        vals = {}
        for v in (True, False):
            got, outs, q = reach(ctx, f, {'r': Ret(), 'eq': Custom(lambda ev: ev.kind == 'call' and ev.sym.usr in usrs, call=lambda x: x.usr in usrs)}, (eq,), {'eq': v}, follow_labelled=False)
            vals[v] = {truth(o.ret, {'eq': v}, (eq,)) for o in outs if o.kind == 'ret'}
        if None in vals[True] | vals[False]:
            # compares by itself: for every combination of equal and different parts
            pr = Probe()
            fs = [f] + [p.fn(x0.usr) for x0 in own]
            for g in fs:
                _, o2, _ = reach(ctx, g, {'r': Ret()}, (pr,), {'probe': None}, follow_labelled=False)
                for o in o2:
                    if o.kind == 'ret':
                        truth(o.ret, {'probe': None}, (pr,))
            parts = sorted(pr.seen)
            if not parts or len(parts) > 5:
                raise AnalysisError('%s: %d comparisons' % (inst, len(parts)))
            bad = None
            for bits in range(1 << len(parts)):
                val = {'p%d' % i: bool(bits >> i & 1) for i in range(len(parts))}
                ats = [Part('p%d' % i, parts[i]) for i in range(len(parts))]
                res = []
                for g in fs[:2]:
                    _, o2, _ = reach(ctx, g, {'r': Ret()}, ats, val, follow_labelled=False)
                    res.append({truth(o.ret, val, ats) for o in o2 if o.kind == 'ret'})
                if None in res[0] or None in res[1] or res[0] != {not x for x in res[1]}:
                    bad = 'answers %s where == answers %s (%s)' % (res[0], res[1], ', '.join('%s %s' % (parts[i], 'equal' if val['p%d' % i] else 'different') for i in range(len(parts))))
                    break
            ctx.check(bad is None, c, inst, bad, f.where)
        else:
            ctx.check(vals[True] == {False} and vals[False] == {True}, c, inst, 'answers %s for equal and %s for different values' % (sorted(map(str, vals[True])), sorted(map(str, vals[False]))), f.where)


def pair_of(t):
    """(what is compared, asks for equality?) of a comparison of a part of two values"""
    if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in ('==', '!='):
        a, b, eq = t[2], t[3], t[1] == '=='
    elif isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] in ('operator==', 'operator!='):
        x = ([t[2]] if t[2] else []) + list(t[3])
        if len(x) != 2:
            return None
        a, b, eq = x[0], x[1], t[1].endswith('==')
    else:
        return None
    return ' / '.join(sorted((show(a), show(b)))), eq


class Probe:
    name = 'probe'

    def __init__(self):
        self.seen = set()

    def eval(self, t, v):
        r = pair_of(t)
        if r:
            self.seen.add(r[0])
        return None


class Part:
    def __init__(self, name, key):
        self.name = name; self.key = key

    def eval(self, t, v):
        r = pair_of(t)
        if r and r[0] == self.key:
            return v if r[1] else not v
        return None


OPS = {OM + 'Dict::setItem': (1, 2), OM + 'Dict::getItem': (0, 1), OM + 'Dict::hasItem': (0, 1), OM + 'Dict::pop': (0, 1), OM + 'Set::append': (1, 2), OM + 'Set::getItem': (0, 1), OM + 'Set::hasItem': (0, 1), OM + 'Set::remove': (1, 2),
       OM + 'WeakSet::append': (1, 2), OM + 'WeakSet::hasItem': (0, 1), OM + 'WeakSet::remove': (1, 2)}


@R('hashed', 'the bucket a key is looked for in is the one it was stored in: every operation uses the hash value dbzero computes for that very key', 25)
def _(ctx, p, c):
    n = 0
    for u in sorted(p.meta):
        s = p.syms[u]
        if not s.q.startswith('db0::python::') or s.lam:
            continue
        if not any(x in p.syms and p.syms[x].q in OPS for x in p.callees(u)):
            continue
        f = p.fn(u)
        sites = []

        def m(ev):
            if ev.kind == 'call' and ev.sym.q in OPS:
                sites.append((ev.sym, ev.args, ev)); return True
            return False
        reach(ctx, f, {'x': Custom(m, call=lambda s: s.q in OPS)}, (), {}, follow_labelled=False, no_follow=lambda s: s.name in ('getPyHash', 'getPyHashIfExists', 'migratedKey', 'refreshIfUpdated', 'modifyExt', 'ext', 'getFixture'))
        done = set()
        for sy, args, ev in sites:
            h, k = (args[i] for i in OPS[sy.q])
            if (sy.usr, h, k) in done:
                continue
            done.add((sy.usr, h, k))
            hs = [x for x in walk(h) if x[0] == 'call' and x[1].rpartition('::')[2] in ('getPyHash', 'getPyHashIfExists')]
            inst = '%s in %s' % (sy.q.replace(OM, ''), f.q.replace('db0::python::', ''))
            ok = bool(hs) and any(same(x[3][1], k) or wraps(k, core(x[3][1])) or any(same(y, x) for y in walk(k)) for x in hs)
            if not hs:
                ok = paired(h, k) or copied(h, k) or declared(ev.env, h, k)
            ctx.check(ok, c, inst, 'looks for %s under the hash value %s' % (show(k)[:80], show(h)[:100]), f.where)
            n += 1


def same(a, b):
    return core(a) == core(b)


def wraps(k, x):
    """k is x itself, only put into an owner: no function stands between"""
    if k == x:
        return True
    if not isinstance(k, tuple) or not k or (k[0] == 'call' and core(k) == k):
        return False
    return any(wraps(y, x) for y in k if isinstance(y, tuple))


def core(t):
    while isinstance(t, tuple) and t:
        if t[0] == 'call' and t[1].rpartition('::')[2] in ('get', 'operator*', 'steal', 'operator->') and t[2]:
            t = t[2]
        elif t[0] == 'new' and 'shared_py_object' in str(t[1]) and t[2]:
            t = t[2][0]
        elif t[0] in ('deref', 'addr') or (t[0] == 'un' and t[1] in ('*', '&')):
            t = t[-1]
        else:
            return t
    return t


def paired(h, k):
    """the hash value and the key are the two halves of a pair collected earlier"""
    h, k = core(h), core(k)
    return h[0] == 'fld' and k[0] == 'fld' and h[2].endswith('first') and k[2].endswith('second') and core(h[1]) == core(k[1])


def copied(h, k):
    """an item of another collection is stored under the hash value it has there"""
    return h[0] == 'fld' and h[2].rpartition('::')[2] == 'key' and unloaded(k)


def declared(env, h, k):
    """the hash value is a local computed for this key"""
    h, k = core(h), core(k)
    if h[0] != 'local' or not isinstance(h[2], int):
        return False
    n = 0
    for e in env.fn.events():
        v = e[4] if e[0] == 'decl' and e[2] == h[2] else e[4] if e[0] == 'asg' and e[2] == ('l', h[2], h[3]) else None
        if v is None:
            continue
        n += 1
        got = [x for x in walk(v) if x[0] == 'c' and x[1].name in ('getPyHash', 'getPyHashIfExists')]
        if not got or not any(y[0] in ('l', 'p') and y[1] == k[2 if k[0] == 'local' else 1] and (y[0] == 'l') == (k[0] == 'local') for x in got for y in walk(x[3][1])):
            return False
    return n > 0


@R('readable', 'every kind of value that can be stored can be read back: its storage class has a loading function, and it is the one for that class', 30)
def _(ctx, p, c):
    tab, f0 = table(p, OM + 'registerUnloadMemberFunctions')
    for k, (s, wh) in sorted(tab.items()):
        if '<' not in s.ta and s.name == 'unloadMember':
            ctx.check(spec_of(s) == k, c, 'loading of ' + k, 'is served by the function for %s' % spec_of(s), wh)
    made, _ = table(p, OM + 'registerCreateMemberFunctions')
    ctor = [p.fn(s.usr) for s in p.syms.values() if s.ctor and s.clsq == OM + 'StorageClassMapper' and s.usr in p.meta]
    if not ctor:
        raise AnalysisError('no constructor of StorageClassMapper')
    n = 0
    for f in ctor:
        for e in f.events():
            if e[0] == 'call' and e[2][0] == 'c' and e[2][1].name == 'addMapping' and len(e[2][3]) >= 2:
                en = [x[1].rpartition('::')[2] for a in e[2][3][:2] for x in walk(a) if x[0] == 'e']
                if len(en) < 2:
                    continue
                n += 1
                t, sc = en
                ctx.check(sc in tab or t not in made, c, 'kind %s stored as %s' % (t, sc), 'values of this kind can be stored but not read', '%s:%s' % (f.where.rpartition(':')[0], e[1]))
    if n < 15:
        raise AnalysisError('only %d mappings of kinds to storage classes were found' % n)


class Rel:
    """index compared with size()"""
    name = 'rel'

    def __init__(self, i):
        self.m = param(idx=i)

    def eval(self, t, v):
        if isinstance(t, tuple) and t and t[0] == 'op' and len(t) == 4 and t[1] in ('<', '<=', '>', '>=', '==', '!='):
            a, b, op = t[2], t[3], t[1]
            sz = lambda x: isinstance(x, tuple) and x and x[0] == 'call' and x[1].rpartition('::')[2] in ('size', 'getSize')
            if sz(a) and self.m(b):
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if self.m(a) and sz(b):
                d = {'lt': -1, 'eq': 0, 'gt': 1}[v]
                return {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0, '==': d == 0, '!=': d != 0}[op]
        return None


@R('range', 'an index that is not below the number of items is refused before any item is touched', 3)
def _(ctx, p, c):
    for cls, n, i in (('List', 'getItem', 0), ('List', 'setItem', 1), ('List', 'pop', 1), ('Tuple', 'getItem', 0), ('Tuple', 'setItem', 1)):
        for f in p.fns_q(OM + cls + '::' + n):
            if i >= len(f.params) or 'size_t' not in p.syms[f.usr].pt and 'unsigned long' not in p.syms[f.usr].pt:
                continue
            r = Rel(i)
            IT = ('db0::object_model::', 'db0::v_bvector', 'db0::o_array', 'db0::o_micro_array', 'db0::o_unbound_array')
            isit = lambda s: s.name in ('operator[]', 'setItem', 'erase', 'swapAndPop', 'getItem', 'items', 'modifyItem') and s.clsq.startswith(IT)
            touch = Custom(lambda ev: ev.kind == 'call' and ev.sym.usr != f.usr and isit(ev.sym), call=isit)
            guard_rule(ctx, c, '%s::%s' % (cls, n), f, {'touch': touch}, (r,), [
                ({'rel': 'eq'}, {'touch': 'never', '_exit': lambda o: None if o.kind == 'exc' else 'returns'}, 'the index equal to the number of items is accepted'),
                ({'rel': 'gt'}, {'touch': 'never', '_exit': lambda o: None if o.kind == 'exc' else 'returns'}, 'an index beyond the items is accepted'),
                ({'rel': 'lt'}, {'touch': 'may'}, 'a valid index is refused')], follow_labelled=False, no_follow=NAME('size', 'getData'))
