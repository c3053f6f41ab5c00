"""Rule vocabulary: event and term matchers, ordered-event automata, guard enumeration."""
import functools, itertools, re
from .db import AnalysisError, rel
from .engine import Engine, Query, Event, UNK, trace_list
from .terms import show, norm, last_field, fields_in, subterms, NEG, SWAP, Env


# ------------------------------------------------------------------ term matchers
def guarded(fn):
    @functools.wraps(fn)
    def g(ctx, clause, instance, *a, **kw):
        try:
            return fn(ctx, clause, instance, *a, **kw)
        except AnalysisError as e:
            ctx.broken('%s / %s: %s' % (clause, instance, e))
    return g


def fld(name):
    """member access whose field is `name` (qualified Class::field or bare field name)"""
    def m(t):
        f = last_field(t)
        return f is not None and (f == name or f.rpartition('::')[2] == name or f.endswith('::' + name))
    return m


def const(name):
    return lambda t: isinstance(t, tuple) and t and t[0] == 'e' and (t[1] == name or t[1].endswith('::' + name))


def lit(v):
    return lambda t: isinstance(t, tuple) and t and t[0] == 'i' and t[1] == v and type(t[1]) == type(v)


def shows(rx):
    r = re.compile(rx)
    return lambda t: t is not None and bool(r.search(show(t)))


def calls(q):
    return lambda t: isinstance(t, tuple) and t and t[0] == 'call' and (t[1] == q or t[1].endswith('::' + q))


def any_of(*ms):
    return lambda t: any(m(t) for m in ms)


def param(name=None, idx=None):
    return lambda t: isinstance(t, tuple) and t and t[0] == 'param' and (name is None or t[2] == name) and (idx is None or t[1] == idx)


def anything(t):
    return True


def contains(m):
    return lambda t: any(m(x) for x in subterms(t))


# ------------------------------------------------------------------ event matchers
class Call:
    """calls of a function given by qualified name (a virtual method stands for its whole override family)"""
    def __init__(self, q, recv=None, arg=None, pred=None):
        self.q = [q] if isinstance(q, str) else list(q)
        self.recv = recv; self.arg = arg or {}; self.pred = pred
        self.usrs = None

    def bind(self, prog):
        self.usrs = set()
        for q in self.q:
            found = False
            for s in prog.sym_q(q):
                found = True
                for o in prog.overriders(s):
                    self.usrs.add(o.usr)
            if not found and '::' in q:
                raise AnalysisError('anchor %s is not referenced anywhere in the current tree' % q)

    def watch_call(self, sym):
        return sym.usr in self.usrs

    def watch_field(self, q):
        return False

    def match(self, ev):
        if ev.kind != 'call' or ev.sym.usr not in self.usrs:
            return False
        if self.recv is not None and not self.recv(ev.recv):
            return False
        for i, m in self.arg.items():
            if i >= len(ev.args) or not m(ev.args[i]):
                return False
        return self.pred is None or self.pred(ev)


class CallRx(Call):
    """calls of any function whose qualified name matches"""
    def __init__(self, rx, recv=None, arg=None, pred=None, least=1):
        Call.__init__(self, [], recv, arg, pred)
        self.rx = re.compile(rx); self.least = least

    def bind(self, prog):
        cache = prog.__dict__.setdefault('_rxcache', {})
        if self.rx.pattern not in cache:
            cache[self.rx.pattern] = {u for u, s in prog.syms.items() if self.rx.search(s.q)}
        self.usrs = cache[self.rx.pattern]
        if len(self.usrs) < self.least:
            raise AnalysisError('no function matches %s in the current tree' % self.rx.pattern)


class Assign:
    """assignments (or ++/--/constructor initialisation) of a field"""
    def __init__(self, field, op=None, value=None, base=None, init=False, pred=None):
        self.field = field; self.ops = op; self.value = value; self.base = base; self.init = init; self.pred = pred

    def bind(self, prog):
        if self.field not in prog.inverted()[1]:
            raise AnalysisError('anchor field %s is not used anywhere in the current tree' % self.field)

    def watch_call(self, sym):
        return False

    def watch_field(self, q):
        return q == self.field

    def match(self, ev):
        if ev.kind == 'asg' or (ev.kind == 'init' and self.init):
            if last_field(ev.lhs) != self.field:
                return False
            if self.ops is not None and ev.op not in self.ops:
                return False
            if self.base is not None and not self.base(ev.lhs[1]):
                return False
            if self.value is not None and not self.value(ev.rhs):
                return False
            return self.pred is None or self.pred(ev)
        if ev.kind == 'call' and ev.sym.name in ('operator=', 'operator+=', 'operator++', 'operator--', 'operator-=') and \
                last_field(ev.recv) == self.field:
            if self.ops is not None and ev.sym.name[8:] not in self.ops:
                return False
            if self.value is not None and not (ev.args and self.value(ev.args[0])):
                return False
            return self.pred is None or self.pred(ev)
        return False


class Ret:
    def __init__(self, value=None, entry_only=True):
        self.value = value; self.entry_only = entry_only

    def bind(self, prog): pass
    def watch_call(self, sym): return False
    def watch_field(self, q): return False

    def match(self, ev):
        if ev.kind != 'ret' or (self.entry_only and ev.env.depth > 0):
            return False
        return self.value is None or self.value(ev.term)


class Throw:
    def __init__(self, rx=None):
        self.rx = re.compile(rx) if rx else None

    def bind(self, prog): pass
    def watch_call(self, sym): return False
    def watch_field(self, q): return False

    def match(self, ev):
        if ev.kind != 'throw':
            return False
        return self.rx is None or bool(self.rx.search(str(ev.ty or show(ev.term))))


class Dtor:
    """end of an automatic object of the given type"""
    def __init__(self, rx):
        self.rx = re.compile(rx)

    def bind(self, prog): pass
    def watch_call(self, sym): return False
    def watch_field(self, q): return False
    def watch_raii(self, ty): return bool(self.rx.search(ty))

    def match(self, ev):
        return ev.kind == 'dtor' and bool(self.rx.search(ev.ty))


class Custom:
    def __init__(self, match, call=None, field=None, raii=None):
        self._m = match; self._c = call; self._f = field; self._r = raii

    def bind(self, prog): pass
    def watch_call(self, sym): return bool(self._c and self._c(sym))
    def watch_field(self, q): return bool(self._f and self._f(q))
    def watch_raii(self, ty): return bool(self._r and self._r(ty))
    def match(self, ev): return self._m(ev)


# ------------------------------------------------------------------ atoms (finite predicates with fixed valuations)
class Ord:
    """order of two runtime values: valuations '<', '=', '>'"""
    def __init__(self, name, a, b):
        self.name = name; self.a = a; self.b = b
    values = ('<', '=', '>')

    def eval(self, t, v):
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in NEG:
            op = t[1]
            if self.a(t[2]) and self.b(t[3]):
                pass
            elif self.a(t[3]) and self.b(t[2]):
                op = SWAP[op]
            else:
                return None
            return {'==': v == '=', '!=': v != '=', '<': v == '<', '>': v == '>', '<=': v in '<=', '>=': v in '>='}[op]
        return None


class Flag:
    """a boolean runtime value"""
    def __init__(self, name, m):
        self.name = name; self.m = m
    values = (True, False)

    def eval(self, t, v):
        if self.m(t):
            return v
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in ('==', '!='):
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if self.m(x) and y and y[0] == 'i' and (y[1] in (0, False, None) or y[1] is True):
                    r = (v == bool(y[1]))
                    return r if t[1] == '==' else not r
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in ('>',) and self.m(t[2]) and t[3] == ('i', 0):
            return v
        if isinstance(t, tuple) and t and t[0] == 'un' and t[1] == '!' and self.m(t[2]):
            return not v
        return None


class NegCall:
    """`!x` spelled as a call of a user-defined operator! on a field; shares the valuation of Flag `name`"""
    def __init__(self, name, q, field):
        self.name = name; self.q = q; self.field = field
    values = (True, False)

    def eval(self, t, v):
        if isinstance(t, tuple) and t and t[0] == 'call' and t[1] == self.q and fld(self.field)(t[2]):
            return not v
        return None


class Enum:
    """an enumeration-valued runtime value; valuations are enumerator names"""
    def __init__(self, name, m, values):
        self.name = name; self.m = m; self.values = tuple(values)

    def eval(self, t, v):
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in ('==', '!='):
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if self.m(x) and y and y[0] == 'e':
                    r = y[1].rpartition('::')[2] == v
                    return r if t[1] == '==' else not r
        return None

    def switch(self, t, v):
        return v if self.m(t) else None


# ------------------------------------------------------------------ ordered-event automaton
class Seq(Query):
    """labels: name -> matcher (or list of matchers)
    before:  (A, B, why)   whenever B happens, A has happened (A may be a tuple: any of them)
    after:   (A, B, why)   once A happened, B happens later on every path to a normal exit (reset by B)
    never:   (A, B, why)   B never happens once A has happened
    at_exit: (fn(seen, outcome) -> message or None)
    reset:   (A, B)        A clears B from the history
    """
    def __init__(self, labels, before=(), after=(), never=(), reset=(), atoms=(), val=None, rets=None, **kw):
        self.labels = {k: (v if isinstance(v, (list, tuple)) else [v]) for k, v in labels.items()}
        self.before = before; self.after = after; self.never = never; self.resets = reset
        self.atoms_ = atoms; self.val = val or {}
        self.rets = rets or {}
        self.viol = {}
        self.hits = {k: 0 for k in labels}
        self.nofollow = kw.pop('no_follow', None)
        self.vt = kw.pop('vtargets', None)
        self.throws = kw.pop('throws', None)
        for k, v in kw.items():
            setattr(self, k, v)

    def bind(self, prog):
        self.prog = prog
        for ms in self.labels.values():
            for m in ms:
                m.bind(prog)
        self._wu = set(); self._wc = []
        for ms in self.labels.values():
            for m in ms:
                if isinstance(m, Call):
                    self._wu |= m.usrs
                elif isinstance(m, Custom):
                    if m._c:
                        self._wc.append(m)
        return self

    def watch_call(self, sym):
        if sym.usr in self._wu:
            return True
        for m in self._wc:
            if m.watch_call(sym):
                return True
        return False

    def watch_field(self, q):
        return any(m.watch_field(q) for ms in self.labels.values() for m in ms)

    def watch_raii(self, ty):
        return any(m.watch_raii(ty) for ms in self.labels.values() for m in ms if hasattr(m, 'watch_raii'))

    def no_follow(self, sym):
        return bool(self.nofollow and self.nofollow(sym))

    def vtargets(self, sym, recv):
        return self.vt(sym, recv) if self.vt else None

    def may_throw(self, sym):
        if self.throws is not None:
            return bool(self.throws(sym))
        return Query.may_throw(self, sym)

    def label(self, ev):
        return [k for k, ms in self.labels.items() if any(m.match(ev) for m in ms)]

    def atom(self, t, env):
        for a in self.atoms_:
            if a.name in self.val:
                r = a.eval(t, self.val[a.name])
                if r is not None:
                    return r
        # debug mirrors and fault hooks of the repository's own tests are off
        if t and t[0] == 'g' and t[1] in ('db0::Settings::__storage_validation', 'db0::Settings::__write_poison', 'db0::Settings::__dram_io_flush_poison'):
            return False
        return None

    def switch_value(self, t, env):
        for a in self.atoms_:
            if a.name in self.val and hasattr(a, 'switch'):
                r = a.switch(t, self.val[a.name])
                if r is not None:
                    return r
        return None

    def ret_value(self, ev):
        for k, v in self.rets.items():
            if any(m.match(ev) for m in self.labels[k]):
                return v
        return UNK

    def initial(self):
        return (frozenset(), frozenset())

    def violate(self, why, ev):
        self.viol.setdefault((why, ev.fn.q), ev.where)

    def step(self, state, lab, ev):
        seen, pend = state
        self.hits[lab] += 1
        for a, b, why in self.before:
            if b == lab:
                aa = a if isinstance(a, tuple) else (a,)
                if not any(x in seen for x in aa):
                    self.violate(why, ev)
        for a, b, why in self.never:
            if b == lab and a in seen:
                self.violate(why, ev)
        np = set(pend)
        for a, b, why in self.after:
            if b == lab:
                np.discard((a, b, why))
        for a, b, why in self.after:
            if a == lab and a != b:
                np.add((a, b, why))
        ns = set(seen)
        for a, b in self.resets:
            if a == lab:
                ns.discard(b)
        ns.add(lab)
        return (frozenset(ns), frozenset(np))


def run_seq(ctx, entry, q, kinds=('ret',), want_hits=True):
    """runs an ordered-event automaton from `entry`; returns (outcomes, violations)"""
    q.bind(ctx.prog)
    eng = Engine(ctx.prog, q)
    outs = eng.run(entry)
    ctx.used(eng)
    viol = dict(q.viol)
    for o in outs:
        if o.kind in kinds:
            for (a, b, why) in o.state[1]:
                viol.setdefault((why, entry.q), entry.where + ' ; path: ' + ' -> '.join(trace_list(o.trace)[-8:]))
    q.engine = eng
    return outs, viol


def seq_rule(ctx, clause, instance, entry, q, kinds=('ret',), at_exit=None):
    outs, viol = run_seq(ctx, entry, q, kinds)
    if at_exit:
        for o in outs:
            m = at_exit(o.state[0], o)
            if m:
                viol.setdefault((m, entry.q), entry.where + ' ; path: ' + ' -> '.join(trace_list(o.trace)[-8:]))
    if not outs:
        raise AnalysisError('no path through %s was explored' % entry.q)
    if viol:
        for (why, f), wh in sorted(viol.items()):
            ctx.fail(clause, instance, why, wh)
    else:
        ctx.ok(clause, instance, entry.where)
    return outs, viol


def reach(ctx, entry, labels, atoms, val, rets=None, **kw):
    """labels reached / labels seen on each outcome, for one valuation of the atoms"""
    q = Seq(labels, atoms=atoms, val=val, rets=rets, **kw).bind(ctx.prog)
    eng = Engine(ctx.prog, q)
    outs = eng.run(entry)
    ctx.used(eng)
    return {k for k, n in q.hits.items() if n}, outs, q


@guarded
def guard_rule(ctx, clause, instance, entry, labels, atoms, cases, **kw):
    """cases: list of (valuation, {label: 'never'|'may'|'must'}, why); the entry is explored once per valuation.
    never: the label is not reached; may: it is reached on some path; must: it is seen on every normal exit"""
    bad = []
    for case in cases:
        val, exp, why = case[0], case[1], case[2]
        rets = case[3] if len(case) > 3 else None
        got, outs, q = reach(ctx, entry, labels, atoms, val, rets, **kw)
        for lab, e in exp.items():
            if lab == '_exit':
                for o in outs:
                    m = e(o)
                    if m:
                        bad.append('%s (when %s): %s' % (why, val, m))
                continue
            if e == 'never' and lab in got:
                bad.append('%s: %s reached when %s' % (why, lab, val))
            elif e == 'may' and lab not in got:
                bad.append('%s: %s not reached when %s' % (why, lab, val))
            elif e == 'must':
                if not outs:
                    raise AnalysisError('no path through %s under %s' % (entry.q, val))
                if any(o.kind == 'ret' and lab not in o.state[0] for o in outs) or lab not in got:
                    bad.append('%s: a path avoids %s when %s' % (why, lab, val))
            elif e == 'throws':
                if any(o.kind == 'ret' for o in outs):
                    bad.append('%s: returns normally when %s' % (why, val))
            elif e == 'returns':
                if not any(o.kind == 'ret' for o in outs):
                    bad.append('%s: never returns normally when %s' % (why, val))
    if bad:
        ctx.fail(clause, instance, '; '.join(sorted(set(bad))), entry.where)
    else:
        ctx.ok(clause, instance, entry.where)
    return not bad


# ------------------------------------------------------------------ compact forms used by the rule modules
def F(name):
    """receiver / operand that is the member `name` (bare field name)"""
    return fld(name)


def THIS(t):
    return t == ('this',)


@guarded
def order(ctx, clause, instance, entry, labels, rules=(), must=(), atoms=(), val=None, exits=None, rets=None, kinds=('ret',), **kw):
    """rules: (spec, why) with spec 'A<B' (A precedes every B), 'A>B' (A is followed by B), 'A!B' (no B after A),
    'A~B' (A invalidates an earlier B), '-A' (A does not happen at all); A may be 'X|Y' (either).
    must: labels seen on every normal exit.  exits: fn(seen, outcome) -> message or None"""
    before, after, never, reset, absent = [], [], [], [], []
    for r in rules:
        spec, why = (r, r) if isinstance(r, str) else r
        if spec.startswith('-'):
            absent.append((spec[1:], why)); continue
        m = re.match(r'^(.+?)([<>!~])(.+)$', spec)
        a, op, b = m.group(1), m.group(2), m.group(3)
        for x in (a.split('|') if op != '<' else [tuple(a.split('|'))]):
            for y in b.split('|'):
                {'<': before, '>': after, '!': never}.get(op, reset).append((x, y, why) if op != '~' else (x, y))
    allof = set(labels)
    for l in (before, after, never):
        for a, b, w in l:
            for x in (a if isinstance(a, tuple) else (a,)) + (b,):
                if x not in allof:
                    raise AnalysisError('rule error: unknown label %s' % x)

    def at_exit(seen, o):
        for m in must:
            if o.kind == 'ret':
                alts = m.split('|')
                if not any(x in seen for x in alts):
                    return 'a path returns normally without %s' % m
        if exits:
            return exits(seen, o)
        return None
    q = Seq(labels, before, after, never, reset, atoms, val, rets=rets, **kw)
    outs, viol = run_seq(ctx, entry, q, kinds)
    for o in outs:
        m = at_exit(o.state[0], o)
        if m:
            viol.setdefault((m, entry.q), entry.where + ' ; path: ' + ' -> '.join(trace_list(o.trace)[-8:]))
    for l, why in absent:
        if q.hits[l]:
            viol.setdefault((why if why != '-' + l else '%s happens' % l, entry.q), entry.where)
    if not outs:
        raise AnalysisError('no path through %s was explored' % entry.q)
    if viol:
        for (why, f), wh in sorted(viol.items()):
            ctx.fail(clause, instance, (('when %s: ' % val) if val else '') + why, wh)
    else:
        ctx.ok(clause, instance, entry.where)
    return outs, q


MODE = Enum('mode', any_of(fld('m_access_type'), lambda t: isinstance(t, tuple) and t and t[0] == 'call' and t[1].endswith('::getAccessType')),
            ['READ_ONLY', 'READ_WRITE'])
RW = {'mode': 'READ_WRITE'}
RO = {'mode': 'READ_ONLY'}


class Found:
    """container lookup on a member: `m.find(x) != m.end()`, `m.count(x)`, `m.contains(x)`"""
    def __init__(self, name, m):
        self.name = name; self.m = m
    values = (True, False)

    def _is(self, t, n):
        return isinstance(t, tuple) and t and t[0] == 'call' and t[1].rpartition('::')[2] in n and self.m(t[2])

    def eval(self, t, v):
        if self._is(t, ('count', 'contains')):
            return v
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in ('==', '!='):
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if self._is(y, ('end', 'cend')):
                    return (not v) if t[1] == '==' else v
                if self._is(x, ('count',)) and y and y[0] == 'i' and y[1] in (0, 1):
                    r = v == bool(y[1])
                    return r if t[1] == '==' else not r
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] == '>' and self._is(t[2], ('count',)):
            return v
        return None


class Not:
    """operator! of a value: the valuation of Flag `name` is the truth of the value"""
    def __init__(self, name, q, m=None):
        self.name = name; self.q = q; self.m = m or anything
    values = (True, False)

    def eval(self, t, v):
        if isinstance(t, tuple) and t and t[0] == 'call' and t[1] == self.q and self.m(t[2]):
            return not v
        return None


def memcopy(dst=None, src=None):
    """a block copy (memcpy / memmove / std::copy_n / std::copy)"""
    def pred(ev):
        n = ev.sym.name
        a = ev.args
        d, s = (a[0], a[1]) if n in ('memcpy', 'memmove') else (a[2], a[0])
        return (dst is None or dst(d)) and (src is None or src(s))
    return CallRx(r'^(std::)?(memcpy|memmove|copy|copy_n)$', pred=lambda ev: len(ev.args) >= 3 and pred(ev))


def call_on(name, recvm):
    """call of a method named `name` on a receiver term (container methods, members of any class)"""
    names = (name,) if isinstance(name, str) else tuple(name)
    return Custom(lambda ev: ev.kind == 'call' and ev.sym.name in names and ev.recv is not None and recvm(ev.recv),
                  call=lambda s: s.name in names)


def store(field):
    """a write to the member `field`, including through container operator[] / assignment of an element"""
    def m(ev):
        if ev.kind in ('asg', 'init'):
            return any(x[0] == 'fld' and fld(field)(x) for x in subterms(ev.lhs))
        if ev.kind == 'call' and ev.sym.name in ('operator=', 'insert_or_assign', 'emplace', 'insert', 'try_emplace', 'push_back', 'emplace_back'):
            return ev.recv is not None and any(x[0] == 'fld' and fld(field)(x) for x in subterms(ev.recv))
        return False
    return Custom(m, call=lambda s: s.name in ('operator=', 'insert_or_assign', 'emplace', 'insert', 'try_emplace', 'push_back', 'emplace_back'),
                  field=lambda q: q.endswith('::' + field) or q == field)


def collect(ctx, entry, *qs, atoms=(), val=None, **kw):
    """events of every call of the given functions reached from `entry` (helpers are followed, arguments are expressed in entry's terms)"""
    out = {}
    m = Call(list(qs))
    base = m.match

    def match(ev):
        if base(ev):
            out.setdefault((ev.fn.usr, ev.line, ev.recv, tuple(ev.args)), ev)
            return True
        return False
    m.match = match
    q = Seq({'c': m}, atoms=atoms, val=val, **kw).bind(ctx.prog)
    eng = Engine(ctx.prog, q)
    eng.run(entry)
    ctx.used(eng)
    return list(out.values())


class Count(Seq):
    """like Seq, and remembers how often a label happened: `x#2`, `x#3` are seen as well (three stands for 'more')"""
    counted = ()

    def step(self, state, lab, ev):
        n = 1
        if lab in self.counted:
            while n < 3 and (lab if n == 1 else '%s#%d' % (lab, n)) in state[0]:
                n += 1
        s = Seq.step(self, state, lab, ev)
        if n > 1:
            s = (s[0] | {'%s#%d' % (lab, n)}, s[1])
        return s


def times(seen, lab):
    return 3 if lab + '#3' in seen else 2 if lab + '#2' in seen else 1 if lab in seen else 0


@guarded
def counts(ctx, clause, instance, entry, labels, cases, atoms=(), kinds=('ret',), **kw):
    """cases: (valuation, {label: n or (lo, hi)}, why): how often a label happens on every path to a normal exit; 3 stands for 'more than two'"""
    bad = []
    for val, exp, why in cases:
        q = Count(labels, atoms=atoms, val=val, counted=tuple(labels), **kw)
        outs, viol = run_seq(ctx, entry, q, kinds)
        n = 0
        for o in outs:
            if o.kind not in kinds:
                continue
            n += 1
            for lab, e in exp.items():
                lo, hi = e if isinstance(e, tuple) else (e, e)
                k = times(o.state[0], lab)
                if not lo <= k <= hi:
                    bad.append('%s%s: %s happens %s on a path, expected %s' % (why, ' (when %s)' % val if val else '', lab, ('%d times' % k) if k < 3 else 'more than twice', lo if lo == hi else '%d to %d times' % (lo, hi)))
        if not n and any((e if isinstance(e, int) else e[0]) > 0 for e in exp.values()):
            raise AnalysisError('no path through %s was explored' % entry.q)
    if bad:
        for b in sorted(set(bad)):
            ctx.fail(clause, instance, b, entry.where)
    else:
        ctx.ok(clause, instance, entry.where)
    return not bad


def lam_of(t, env):
    """the body a callable argument stands for: a lambda, or a local initialised with one (None if neither)"""
    from .db import program
    if isinstance(t, tuple) and t and t[0] == 'lam':
        return t[1]
    if isinstance(t, tuple) and t and t[0] == 'local' and isinstance(t[2], int):
        info = env.fn.local_info().get(t[2])
        st = [info[0]] if info else []
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                if x and x[0] == 'lam':
                    return x[1]
                st.extend(x)
    return None
