"""Path-sensitive interprocedural typestate exploration (property simulation with function summaries).

A Query supplies labels for events and a finite automaton over labels; the engine runs the automaton along every path
of the entry function, following calls (helpers, lambdas, overriders of virtual methods) whenever they can reach an
event the query watches.  Branch conditions are decided only where the query declares a finite set of predicates ("atoms")
with a fixed valuation, or where they are decided by tracked boolean / null locals and constant return values of followed
calls; every other branch takes both ways.  No solver is involved."""
import re, time
from .db import AnalysisError, rel
from .terms import Env, norm, show, NEG, SWAP, CMP, is_smart

UNK = type('U', (), {'__repr__': lambda s: '?'})()

INVOKING = {'for_each', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'remove_if', 'transform', 'sort', 'stable_sort',
            'count_if', 'copy_if', 'partition', 'visit', 'invoke', 'apply', 'accumulate', 'generate', 'erase_if', 'call_once',
            'lower_bound', 'upper_bound', 'for_each_n', '__invoke', '__invoke_r'}


class Event:
    __slots__ = ('kind', 'line', 'fn', 'env', 'sym', 'recv', 'args', 'lhs', 'op', 'rhs', 'raw', 'ty', 'term', 'facts')

    def __init__(self, kind, line, fn, env):
        self.kind = kind; self.line = line; self.fn = fn; self.env = env
        self.sym = None; self.recv = None; self.args = (); self.lhs = None; self.op = None; self.rhs = None
        self.raw = None; self.ty = None; self.term = None; self.facts = None

    @property
    def q(self):
        return self.sym.q if self.sym is not None else None

    @property
    def where(self):
        return '%s:%d (%s)' % (rel(self.fn.file), self.line, self.fn.q)

    def __repr__(self):
        if self.kind == 'call':
            return '%s.%s(%s)' % (show(self.recv) if self.recv else '', self.q, ', '.join(show(a) for a in self.args))
        if self.kind == 'asg':
            return '%s %s %s' % (show(self.lhs), self.op, show(self.rhs))
        return self.kind + ':' + (self.q or show(self.term) or '')


class Violation(Exception):
    def __init__(self, msg, ev=None):
        super().__init__(msg); self.ev = ev


class Query:
    """override label() / step(); declare watched callees and fields so that the engine knows what to follow"""
    max_depth = 8
    eh = 'explicit'            # 'explicit': calls throw only when a followed callee throws; 'all': any call may throw
    loop_once = True           # a loop whose condition is not decided is assumed to run at least once
    budget = 400000
    follow_labelled = False
    trace_all = False
    devirt = True

    def watch_call(self, sym): return False
    def watch_field(self, q): return False
    def watch_raii(self, ty): return False
    def label(self, ev): return ()
    def step(self, state, lab, ev): return state
    def no_follow(self, sym): return False
    def force_follow(self, sym): return False
    def atom(self, term, env): return None
    def switch_value(self, term, env): return None
    def may_throw(self, sym): return self.eh == 'all' and not sym.nothrow
    def vtargets(self, sym, recv): return None
    def initial(self): return ()
    def ret_value(self, ev): return UNK      # constant result of a labelled (not followed) call, if the query fixes it


class Outcome:
    __slots__ = ('state', 'ret', 'kind', 'trace')

    def __init__(self, state, ret, kind, trace):
        self.state = state; self.ret = ret; self.kind = kind; self.trace = trace


def trace_list(tr):
    out = []
    while tr:
        out.append(tr[1]); tr = tr[0]
    return out[::-1]


THROWERS = ('db0::ThrowIt::ThrowIt', 'std::exception::exception')


class Engine:
    def __init__(self, prog, query):
        self.prog = prog; self.q = query
        self.memo = {}
        self.active = set()
        self.count = 0
        self.fids = 0
        self.functions = set()
        self.visited_events = 0
        self.depth_cut = set()
        self._rel = None

    # ---------------------------------------------------------------- relevance
    def relevant(self):
        if self._rel is None:
            p = self.prog; q = self.q
            byc, byf = p.inverted()
            seed = set()
            for u, s in p.syms.items():
                if u in byc and q.watch_call(s):
                    seed.update(byc[u])
            for f, us in byf.items():
                if q.watch_field(f):
                    seed.update(us)
            if type(q).force_follow is not Query.force_follow or 'force_follow' in q.__dict__:
                seed.update(u for u in p.meta if q.force_follow(p.syms[u]))
            rel_, todo = set(seed), list(seed)
            callers = p.callers()
            while todo:
                x = todo.pop()
                for c in callers.get(x, ()):
                    if c not in rel_:
                        rel_.add(c)
                        if not q.no_follow(p.syms[c]):
                            todo.append(c)
            self._rel = rel_
        return self._rel

    def helper(self, x, fn, c, env):
        """a small guard (may throw) or predicate of the same class or file: explored although it has no event of interest, so that
        a condition means the same inline and in a helper"""
        mt = self.prog.meta.get(x.usr)
        if mt is None or mt[8] > 24 or x.lam or x.ctor or x.dtor or x.virt:
            return False
        if x.ret not in ('bool', 'void') or fn.sym.ctor and x.ret == 'void' and not x.cls:
            return False
        if not ((x.cls and x.cls == fn.sym.cls) or mt[3] == fn.file):
            return False
        if x.ret == 'void' and not any(self.prog.syms[u].q in THROWERS for u in mt[0]):
            return False
        if mt[8] <= 3 and x.ret == 'bool':
            return False        # a plain expression is inlined where it is used
        t = norm(c, env)
        return self.q.atom(t, env) is None

    # ---------------------------------------------------------------- constants
    def val(self, t, env, facts, depth=0):
        """constant value of an expression or UNK"""
        if t is None or depth > 12:
            return UNK
        h = t[0]
        if h == 'i':
            return t[1]
        if h == 'e':
            return ('E', t[1])
        if h in ('l',):
            v = facts.get(('l', t[1]), UNK)
            if v is not UNK:
                return v
        if h == 'x':
            return self.val(t[2], env, facts, depth + 1)
        if h in ('c', 'ci'):
            v = facts.get(('cv', t), UNK)
            if v is not UNK:
                return v
        if h == 'n' and len(t[3]) == 1 and (t[1].cpmv or is_smart(t[1])):
            return self.val(t[3][0], env, facts, depth + 1)
        v = self.truth(t, env, facts, depth + 1)
        return v if v is not None else UNK

    def truth(self, t, env, facts, depth=0):
        """True / False / None (unknown) of a condition"""
        if t is None or depth > 16:
            return None
        h = t[0]
        if h == 'i':
            return bool(t[1])
        if h == 'u' and t[1] == '!':
            v = self.truth(t[2], env, facts, depth + 1)
            return None if v is None else (not v)
        if h == 'b' and t[1] in ('&&', '||'):
            a = self.truth(t[2], env, facts, depth + 1)
            b = self.truth(t[3], env, facts, depth + 1)
            if t[1] == '&&':
                if a is False or b is False: return False
                return True if (a and b) else None
            if a or b: return True
            return False if (a is False and b is False) else None
        if h == 'x':
            return self.truth(t[2], env, facts, depth + 1)
        if h == 'l':
            v = facts.get(('l', t[1]), UNK)
            if v is not UNK:
                return bool(v) if not isinstance(v, tuple) else None
            v = facts.get(('t', t[1]))
            if v is not None:
                return v
        if h in ('c', 'ci'):
            v = facts.get(('cv', t), UNK)
            if v is not UNK and not isinstance(v, tuple):
                return bool(v)
            v = facts.get(('cp', t))
            if v is not None:
                return v
            if h == 'c' and t[1].name == 'operator bool' and t[2] is not None and is_smart(t[1]):
                v = self.truth(t[2], env, facts, depth + 1)
                if v is not None:
                    return v
        v = self.q.atom(norm(t, env), env)
        if v is not None:
            return v
        op = None
        if h == 'b' and t[1] in NEG:
            op, a, b = t[1], t[2], t[3]
        elif h == 'c' and t[1].name in CMP:
            ops = ([t[2]] if t[2] is not None else []) + list(t[3])
            if len(ops) == 2:
                op, a, b = CMP[t[1].name], ops[0], ops[1]
        if op:
            x, y = self.val(a, env, facts, depth + 1), self.val(b, env, facts, depth + 1)
            if x is not UNK and y is not UNK:
                try:
                    if op == '==': return x == y
                    if op == '!=': return x != y
                    if not isinstance(x, tuple) and not isinstance(y, tuple) and x is not None and y is not None:
                        return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
                except TypeError:
                    pass
            # boolean comparison with a literal
            for u, w in ((a, b), (b, a)):
                if u and u[0] == 'i' and (isinstance(u[1], bool) or u[1] is None) and op in ('==', '!='):
                    tv = self.truth(w, env, facts, depth + 1)
                    if tv is not None:
                        return (tv == bool(u[1])) if op == '==' else (tv != bool(u[1]))
        if h == 'l':
            info = env.fn.local_info().get(t[1])
            if info and info[0] is not None and info[1] == 0 and info[2] == 1:
                return self.truth(info[0], env, facts, depth + 1)
        if h == '?':
            c = self.truth(t[1], env, facts, depth + 1)
            if c is True: return self.truth(t[2], env, facts, depth + 1)
            if c is False: return self.truth(t[3], env, facts, depth + 1)
        if h == 'n' and len(t[3]) == 1 and (t[1].cpmv or is_smart(t[1])):
            return self.truth(t[3][0], env, facts, depth + 1)
        # side-effect free accessor / predicate: a body that is one return statement
        if h == 'c' and t[1].repo:
            u = t[1].usr
            f = None
            if u in self.prog.fnloc and not (t[1].virt and self.q.devirt and len(self.prog.overriders(t[1])) > 1 and not (len(t) > 4)):
                if self.prog.meta[u][7] <= 12:
                    f = self.prog.fn(u)
            if f is not None:
                r = simple_return(f)
                if r is not None:
                    e2 = self.bind(f, t, env)
                    return self.truth(r, e2, {}, depth + 1)
        if h == 'p':
            # a parameter bound to a known constant by the caller
            b = env.params[t[1]] if t[1] < len(env.params) else None
            if b and b[0] == 'i':
                return bool(b[1])
        return None

    # ---------------------------------------------------------------- binding
    def bind(self, f, call, env, this=None):
        self.fids += 1
        args = [norm(a, env) for a in (call[3] if call[0] in ('c', 'n') else call[2])]
        while len(args) < len(f.params):
            args.append(('param', len(args), f.params[len(args)]))
        if this is None:
            if call[0] == 'c':
                this = norm(call[2], env) if call[2] is not None else ('none',)
            else:
                this = ('tmp', call[2] if call[0] == 'n' else '')
        return Env(f, args, this, None, '%s' % f.usr, env.depth + 1)

    def targets(self, sym, recv, call):
        """bodies a call may run"""
        if sym.virt and self.q.devirt and not (call is not None and call[0] == 'c' and len(call) > 4):
            vt = self.q.vtargets(sym, recv)
            if vt is not None:
                return [x for x in vt if x.usr in self.prog.fnloc]
            return [x for x in self.prog.overriders(sym) if x.usr in self.prog.fnloc]
        return [sym] if sym.usr in self.prog.fnloc else []

    # ---------------------------------------------------------------- exploration
    def run(self, fn, state=None, env=None):
        env = env or Env(fn)
        st = self.q.initial() if state is None else state
        return self.explore(fn, env, st, None)

    def explore(self, fn, env, state, trace):
        key = (env.key, state)
        if key in self.memo:
            # the trace of a memoised callee starts at the callee
            return [Outcome(o.state, o.ret, o.kind, _join(trace, o.trace)) for o in self.memo[key]]
        if key in self.active or env.depth > 40:
            return [Outcome(state, UNK, 'ret', trace)]
        self.active.add(key)
        try:
            outs = self._explore(fn, env, state)
        finally:
            self.active.discard(key)
        self.memo[key] = outs
        return [Outcome(o.state, o.ret, o.kind, _join(trace, o.trace)) for o in outs]

    def _explore(self, fn, env, state0):
        q = self.q
        self.functions.add(fn.usr)
        outs = {}
        seen = set()
        work = [(fn.entry, state0, frozenset(), None)]
        cl = cond_locals(fn)
        cc = cond_calls(fn)

        def emit(st, ret, kind, tr):
            k = (st, ret, kind)
            if k not in outs:
                outs[k] = Outcome(st, ret, kind, tr)

        while work:
            bid, st, fz, tr = work.pop()
            k = (bid, st, fz)
            if k in seen:
                continue
            seen.add(k)
            self.count += 1
            if self.count > q.budget:
                raise AnalysisError('path exploration budget exceeded in %s' % fn.q)
            facts = dict(fz)
            if bid == fn.exit:
                emit(st, facts.get(('ret',), UNK), 'ret', tr)
                continue
            b = fn.blocks[bid]
            # where an exception raised in this block goes
            eh_to = None
            plain_eh = b.t is None and len(b.succ) >= 2
            if plain_eh:
                eh_to = b.succ[1]
            elif any(e[0] == 'throw' for e in b.ev) and b.succ:
                eh_to = b.succ[0]
            else:
                eh_to = fn.exit
            cur = [(st, facts, tr)]
            if b.catch is not None:
                ev = Event('catch', b.tl or 0, fn, env); ev.ty = b.catch
                cur = self._apply(cur, ev)

            def raise_(s2, f2, t2):
                self._unwind(fn, env, s2, f2, t2, eh_to, b, emit, work)

            for e in b.ev:
                nxt = []
                for (s, f, t) in cur:
                    if cc:
                        f = _forget(f, e)
                    nxt.extend(self._event(fn, env, b, e, s, f, t, raise_))
                cur = nxt
                if not cur:
                    break
            for (s, f, t) in cur:
                self._succ(fn, env, b, s, f, t, work, plain_eh, cl, emit)
        return list(outs.values())

    def _unwind(self, fn, env, s, f, t, eh_to, b, emit, work):
        # automatic objects that die because of the exception
        if eh_to is None:
            eh_to = fn.exit
        tgt = fn.blocks.get(eh_to)
        live = sorted((k[1] for k in f if k[0] == 'live'), reverse=True)
        cur = [(s, f, t)]
        tl = tgt.tl if (tgt is not None and tgt.t == 'CXXTryStmt') else None
        for i in live:
            tries = fn.locals[i][3] if len(fn.locals[i]) > 3 else ()
            if tl is None or tl in tries:
                ev = Event('dtor', fn.locals[i][2], fn, env)
                ev.ty = fn.locals[i][1]; ev.term = ('local', env.fid, i, fn.locals[i][0]); ev.op = 'unwind'
                ev.sym = f[('live', i)]
                nxt = []
                for (s1, f1, t1) in cur:
                    f2 = dict(f1); f2.pop(('live', i), None)
                    nxt.extend(self._dtor(ev, s1, f2, t1))
                cur = nxt
        for (s1, f1, t1) in cur:
            if eh_to == fn.exit:
                emit(s1, UNK, 'exc', t1)
            else:
                work.append((eh_to, s1, _fz(f1), t1))

    def _dtor(self, ev, s, f, t):
        cur = self._apply([(s, f, t)], ev)
        sym = ev.sym
        if sym is not None and sym.repo and sym.usr in self.prog.fnloc and sym.usr in self.relevant() \
                and not self.q.no_follow(sym) and ev.env.depth < self.q.max_depth:
            g = self.prog.fn(sym.usr)
            out = []
            for (s1, f1, t1) in cur:
                e2 = Env(g, [], ev.term or ('tmp', ev.ty), None, g.usr, ev.env.depth + 1)
                for o in self.explore(g, e2, s1, t1):
                    out.append((o.state, f1, o.trace))
            return out
        return cur

    def _succ(self, fn, env, b, s, f, t, work, plain_eh, cl, emit):
        succ = b.succ
        if b.nr or not succ:
            return
        if plain_eh:
            if succ[0] is not None:
                work.append((succ[0], s, _fz(f), t))
            return
        if any(e[0] == 'throw' for e in b.ev):
            return
        if len(succ) == 1:
            if succ[0] is not None:
                # leaving a scope: per-call values are only valid within the evaluation they belong to
                work.append((succ[0], s, _fz(f), t))
            return
        if b.t == 'SwitchStmt':
            v = None
            if b.cond is not None:
                v = self.q.switch_value(norm(b.cond, env), env)
                if v is None:
                    c = self.val(b.cond, env, f)
                    if isinstance(c, int) and not isinstance(c, bool):
                        v = c
            if v is not None:
                hit = None; dflt = None
                for x in succ:
                    if x is None: continue
                    bb = fn.blocks[x]
                    if bb.case is not None:
                        cv = case_value(bb.case)
                        if cv == v or (isinstance(v, str) and bb.case[0][0] == 'e' and bb.case[0][1].endswith(v)):
                            hit = x
                    else:
                        dflt = x
                x = hit if hit is not None else dflt
                if x is not None:
                    work.append((x, s, _fz(f), t))
                return
            for x in succ:
                if x is not None:
                    work.append((x, s, _fz(f), t))
            return
        if b.t == 'CXXTryStmt':
            for x in succ:
                if x is None: continue
                if x == fn.exit:
                    self._unwind(fn, env, s, f, t, fn.exit, b, emit, work)      # no handler matches
                else:
                    work.append((x, s, _fz(f), t))
            return
        c = b.cond
        v = self.truth(c, env, f) if c is not None else None
        loop = b.t in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt')
        if v is None and loop and self.q.loop_once:
            k = ('lp', b.id)
            if k not in f:
                f2 = dict(f); f2[k] = 1
                if succ[0] is not None:
                    work.append((succ[0], s, _fz(f2), t))
                    return
        for i, want in ((0, True), (1, False)):
            if i >= len(succ) or succ[i] is None:
                continue
            if v is not None and v is not want:
                continue
            f2 = f
            if v is None and c is not None:
                f2 = self._learn(c, want, f, cl, fn)
            if loop and not want and ('lp', b.id) in f2:
                f2 = {k2: v2 for k2, v2 in f2.items() if k2 != ('lp', b.id)}
            work.append((succ[i], s, _fz(f2), t))

    def _learn(self, c, want, f, cl, fn):
        while c and c[0] == 'u' and c[1] == '!':
            c = c[2]; want = not want
        if c and c[0] == 'c' and c[1].name == 'operator bool' and c[2] is not None and is_smart(c[1]):
            c = c[2]
        if c and c[0] == 'b' and c[1] in ('==', '!=') and c[3] and c[3][0] == 'i' and c[3][1] in (None, False) and c[2][0] == 'l':
            want = want if c[1] == '!=' else not want
            c = c[2]
        if c and c[0] == 'l' and cl.get(c[1], 0) > 1:
            f2 = dict(f); f2[('t', c[1])] = want
            return f2
        if c and c[0] == 'c' and c in cond_calls(fn):
            f2 = dict(f); f2[('cp', c)] = want
            return f2
        return f

    def _apply(self, cur, ev):
        labs = self.q.label(ev)
        if not labs:
            return cur
        out = []
        for (s, f, t) in cur:
            states = [s]
            for lab in labs:
                ns = []
                for x in states:
                    ev.facts = f
                    r = self.q.step(x, lab, ev)
                    if isinstance(r, list):
                        ns.extend(r)
                    else:
                        ns.append(r)
                states = ns
            for x in states:
                self.visited_events += 1
                out.append((x, f, (t, '%s @ %s' % ('+'.join(map(str, labs)), ev.where))))
        return out

    def _event(self, fn, env, b, e, s, f, t, raise_):
        k = e[0]
        q = self.q
        if k == 'call':
            return self._call(fn, env, b, e, s, f, t, raise_)
        if k == 'rd' or k == 'rdg':
            ev = Event('rd', e[1], fn, env); ev.raw = e[2]
            if k == 'rd':
                if not q.watch_field(e[2][2]):
                    return [(s, f, t)]
            ev.term = norm(e[2], env)
            return self._apply([(s, f, t)], ev)
        if k == 'asg':
            ev = Event('asg', e[1], fn, env); ev.raw = e[2]
            ev.lhs = norm(e[2], env) if e[2][0] != 'l' else ('local', env.fid, e[2][1], e[2][2])
            ev.op = e[3]; ev.rhs = norm(e[4], env); ev.facts = f
            ev.term = e[4]
            if e[2][0] == 'l':
                f = dict(f); i = e[2][1]
                f.pop(('l', i), None); f.pop(('t', i), None)
                if e[3] == '=':
                    v = self.val(e[4], env, f)
                    if v is not UNK and i in cond_locals_all(fn):
                        f[('l', i)] = v
            return self._apply([(s, f, t)], ev)
        if k == 'decl':
            ev = Event('decl', e[1], fn, env); ev.ty = e[3]; ev.raw = e[4]
            ev.lhs = ('local', env.fid, e[2], fn.locals[e[2]][0]); ev.rhs = norm(e[4], env)
            ev.facts = f
            f = dict(f); i = e[2]
            f.pop(('l', i), None); f.pop(('t', i), None)
            if i in cond_locals_all(fn) and e[4] is not None:
                v = self.val(e[4], env, f)
                if v is not UNK:
                    f[('l', i)] = v
            if q.watch_raii(e[3]):
                f[('live', i)] = None
            return self._apply([(s, f, t)], ev)
        if k == 'dtor':
            i = e[2]
            ev = Event('dtor', e[1], fn, env); ev.ty = e[3]; ev.sym = e[4]
            if i >= 0:
                ev.term = ('local', env.fid, i, fn.locals[i][0])
                if ('live', i) in f:
                    f = dict(f); f.pop(('live', i))
            else:
                ev.term = env.params[-i - 1] if -i - 1 < len(env.params) else None
            return self._dtor(ev, s, f, t)
        if k == 'ret':
            ev = Event('ret', e[1], fn, env); ev.raw = e[2]; ev.facts = f
            ev.term = norm(e[2], env) if e[2] is not None else None
            v = self.val(e[2], env, f) if e[2] is not None else UNK
            f = dict(f)
            f[('ret',)] = v
            return self._apply([(s, f, t)], ev)
        if k == 'throw':
            ev = Event('throw', e[1], fn, env); ev.raw = e[2]
            ev.term = norm(e[2], env) if e[2] is not None else None
            for (s1, f1, t1) in self._apply([(s, f, t)], ev):
                raise_(s1, f1, t1)
            return []
        if k == 'init':
            ev = Event('init', e[1], fn, env)
            ev.lhs = ('fld', env.this, e[2]) if e[2] else None
            ev.op = '='; ev.rhs = norm(e[3], env); ev.raw = e[3]
            return self._apply([(s, f, t)], ev)
        if k == 'mem':
            ev = Event('mem', e[1], fn, env); ev.raw = e[2]; ev.term = norm(e[2], env); ev.op = e[2][0]
            return self._apply([(s, f, t)], ev)
        return [(s, f, t)]

    def _call(self, fn, env, b, e, s, f, t, raise_):
        q = self.q
        c = e[2]
        if c[0] == 'n' and c[1].clsq == 'db0::ThrowIt':
            ev = Event('throw', e[1], fn, env); ev.raw = c; ev.ty = c[2]; ev.op = 'ThrowIt'
            ev.term = ('n', c[2], ())
            for (s1, f1, t1) in self._apply([(s, f, t)], ev):
                raise_(s1, f1, t1)
            return []
        if c[0] == 'ci':
            # call through a function pointer / functor parameter
            r = norm(c[1], env)
            ev = Event('icall', e[1], fn, env); ev.raw = c; ev.recv = r; ev.op = 'ci'; ev.facts = f
            ev.args = tuple(norm(a, env) for a in c[2])
            if getattr(q, 'icall_throws', False):
                raise_(s, f, t)
            if q.label(ev):
                res = self._apply([(s, f, t)], ev)
                return [x for (s1, f1, t1) in res for x in self._invoke_functor(r, c, fn, env, s1, f1, t1, raise_, e)]
            return self._invoke_functor(r, c, fn, env, s, f, t, raise_, e)
        sym = c[1]
        ev = Event('call', e[1], fn, env); ev.sym = sym; ev.raw = c
        ev.op = c[0]; ev.facts = f
        if c[0] == 'c':
            ev.recv = norm(c[2], env) if c[2] is not None else None
        ev.args = tuple(norm(a, env) for a in c[3])
        labelled = q.label(ev)
        # by-reference / address-taken locals lose their tracked constant
        f2 = None
        for a in c[3]:
            if a and a[0] == 'u' and a[1] == '&':
                a = a[2]
            if a and a[0] == 'l' and (('l', a[1]) in f or ('t', a[1]) in f):
                i = c[3].index(a) if a in c[3] else -1
                pt = sym.pt[i] if 0 <= i < len(sym.pt) else '&'
                if pt.endswith('&') and 'const' not in pt or pt.endswith('*'):
                    f2 = dict(f) if f2 is None else f2
                    f2.pop(('l', a[1]), None); f2.pop(('t', a[1]), None)
        if f2 is not None:
            f = f2
        if labelled and not q.follow_labelled:
            if q.may_throw(sym):
                raise_(s, f, t)
            r = self._apply([(s, f, t)], ev)
            rv = q.ret_value(ev)
            if rv is not UNK:
                r = [(s1, dict(f1, **{}) | {('cv', c): rv}, t1) for (s1, f1, t1) in r]
            elif ('cv', c) in f:
                r = [(s1, {k: v for k, v in f1.items() if k != ('cv', c)}, t1) for (s1, f1, t1) in r]
            return r
        cur = self._apply([(s, f, t)], ev) if labelled else [(s, f, t)]
        # functor invocation
        if sym.name == 'operator()' and c[0] == 'c' and not (sym.repo and sym.usr in self.prog.fnloc and not sym.lam):
            r = ev.recv
            if sym.lam or (r and r[0] == 'lam') or sym.clsq.startswith('std::function'):
                out = []
                for (s1, f1, t1) in cur:
                    out.extend(self._invoke_functor(r, c, fn, env, s1, f1, t1, raise_, e, sym))
                return out
        # standard algorithms that run the callable they are given
        if not sym.repo and sym.name in INVOKING:
            lams = [a for a in ev.args if isinstance(a, tuple) and a and a[0] == 'lam']
            if lams:
                out = []
                for (s1, f1, t1) in cur:
                    sts = [(s1, f1, t1)]
                    for la in lams:
                        n2 = []
                        for (s2, f2_, t2) in sts:
                            n2.extend(self._invoke_functor(la, c, fn, env, s2, f2_, t2, raise_, e))
                            if not q.loop_once:
                                n2.append((s2, f2_, t2))
                        sts = n2
                    out.extend(sts)
                return _dd(out)
        # follow
        follow = []
        if sym.repo and not sym.noret and not q.no_follow(sym) and env.depth < q.max_depth:
            rl = self.relevant()
            lam_args = [a for a in ev.args if isinstance(a, tuple) and a and a[0] == 'lam' and a[1].usr in rl]
            for x in self.targets(sym, ev.recv, c):
                if x.usr in rl or lam_args or q.force_follow(x) or (env.depth <= 2 and self.helper(x, fn, c, env)):
                    if not q.no_follow(x):
                        follow.append(x)
            total = len(self.targets(sym, ev.recv, c))
        elif sym.repo and sym.usr in self.prog.fnloc and env.depth >= q.max_depth and sym.usr in self.relevant():
            self.depth_cut.add(sym.q)
        if sym.noret:
            return []
        if not follow:
            if q.may_throw(sym):
                for (s1, f1, t1) in cur:
                    raise_(s1, f1, t1)
            if ('cv', c) in f:
                cur = [(s1, {k: v for k, v in f1.items() if k != ('cv', c)}, t1) for (s1, f1, t1) in cur]
            return cur
        out = []
        for (s1, f1, t1) in cur:
            if len(follow) < total:
                out.append((s1, {k: v for k, v in f1.items() if k != ('cv', c)}, t1))
            for x in follow:
                g = self.prog.fn(x.usr)
                this = None
                if c[0] == 'n':
                    this = self._ctor_this(fn, env, b, e, c)
                e2 = self.bind(g, c, env, this)
                for o in self.explore(g, e2, s1, t1):
                    if o.kind == 'exc':
                        raise_(o.state, f1, o.trace)
                    else:
                        f3 = {k: v for k, v in f1.items() if k != ('cv', c)}
                        if o.ret is not UNK:
                            f3[('cv', c)] = o.ret
                        out.append((o.state, f3, o.trace))
        return _dd(out)

    def _ctor_this(self, fn, env, b, e, c):
        hit = False
        for x in b.ev:
            if x is e:
                hit = True; continue
            if hit and x[0] == 'decl' and x[4] == c:
                return ('local', env.fid, x[2], fn.locals[x[2]][0])
        return ('tmp', c[2])

    def _invoke_functor(self, r, c, fn, env, s, f, t, raise_, e, sym=None):
        q = self.q
        ls = None; caps = {}; this = env.this
        if r and r[0] == 'lam':
            ls = r[1]; caps = {n: v for n, v in r[2] if n != 'this'}; this = r[3]
        elif sym is not None and sym.lam:
            ls = sym
            # a lambda kept in a local of this function
            la = find_lambda(fn, sym)
            if la is not None:
                lt = norm(la, env)
                caps = {n: v for n, v in lt[2] if n != 'this'}; this = lt[3]
        if ls is None or ls.usr not in self.prog.fnloc or env.depth >= q.max_depth:
            return [(s, f, t)]
        if ls.usr not in self.relevant() and not q.force_follow(ls):
            return [(s, f, t)]
        g = self.prog.fn(ls.usr)
        args = [norm(a, env) for a in (c[3] if c[0] in ('c', 'n') else c[2])]
        if len(args) != len(g.params):
            args = [('param', i, n) for i, n in enumerate(g.params)]
        e2 = Env(g, args, this, caps, g.usr, env.depth + 1)
        out = []
        for o in self.explore(g, e2, s, t):
            if o.kind == 'exc':
                raise_(o.state, f, o.trace)
            else:
                f3 = {k: v for k, v in f.items() if k != ('cv', c)}
                if o.ret is not UNK and c[0] in ('c', 'ci'):
                    f3[('cv', c)] = o.ret
                out.append((o.state, f3, o.trace))
        return _dd(out)


def _join(pre, tr):
    if pre is None:
        return tr
    items = trace_list(tr)
    for i in items:
        pre = (pre, i)
    return pre


def _fz(f):
    return frozenset(f.items())


def _dd(l):
    seen, out = set(), []
    for (s, f, t) in l:
        k = (s, frozenset(f.items()))
        if k not in seen:
            seen.add(k); out.append((s, f, t))
    return out


def case_value(case):
    for x in case:
        if x and x[0] == 'val':
            return x[1]
    x = case[0]
    if x and x[0] in ('i',): return x[1]
    if x and x[0] == 'e': return x[2]
    return None


def cond_locals(fn):
    """local -> number of branch conditions that mention it"""
    if not hasattr(fn, '_cl'):
        cl = {}
        for b in fn.blocks.values():
            if b.cond is not None:
                for i in set(_locals_in(b.cond)):
                    cl[i] = cl.get(i, 0) + 1
        fn._cl = cl
    return fn._cl


def cond_calls(fn):
    """questions put to a local object by several branch conditions (`it.is_end()`): their answer stays until the object is used otherwise"""
    if not hasattr(fn, '_cc'):
        n = {}
        for b in fn.blocks.values():
            c = b.cond
            while c and c[0] == 'u' and c[1] == '!':
                c = c[2]
            if c and c[0] == 'c' and c[2] is not None and c[2][0] == 'l' and not c[3] and c[1].const:
                n[c] = n.get(c, 0) + 1
        fn._cc = {c for c, k in n.items() if k > 1}
    return fn._cc


def _forget(f, e):
    """facts about local objects that the event may change"""
    ks = [k for k in f if k[0] == 'cp']
    if not ks or e[0] in ('rd', 'rdg', 'ret'):
        return f
    gone = set()
    for k in ks:
        i = k[1][2][1]
        if e[0] == 'call' and e[2] and e[2][0] == 'c' and e[2][1].const and e[2][2] is not None and e[2][2][0] == 'l' and e[2][2][1] == i and i not in _locals_in(e[2][3]):
            continue
        if i in _locals_in(e):
            gone.add(k)
        elif e[0] in ('decl', 'dtor') and e[2] == i:
            gone.add(k)
    return {k: v for k, v in f.items() if k not in gone} if gone else f


def cond_locals_all(fn):
    """locals whose constant value may matter: mentioned in a condition, a return value, or another such local's init"""
    if not hasattr(fn, '_cla'):
        s = set(cond_locals(fn))
        for b in fn.blocks.values():
            for e in b.ev:
                if e[0] == 'ret' and e[2] is not None:
                    s.update(_locals_in(e[2]))
                elif e[0] in ('decl',) and e[4] is not None and fn.locals[e[2]][1] in ('bool', 'const bool'):
                    s.update(_locals_in(e[4]))
        fn._cla = s
    return fn._cla


def _locals_in(t, out=None):
    if out is None:
        out = []
    if isinstance(t, tuple) and t:
        if t[0] == 'l':
            out.append(t[1])
        for x in t:
            if isinstance(x, tuple):
                _locals_in(x, out)
    return out


def simple_return(f):
    """the returned expression of a function that does nothing but return it"""
    if not hasattr(f, '_sr'):
        r = None; ok = True; nret = 0
        for b in f.blocks.values():
            for e in b.ev:
                if e[0] == 'ret':
                    r = e[2]; nret += 1
                elif e[0] in ('asg', 'throw', 'decl', 'mem', 'dtor'):
                    ok = False
            if b.t in ('ForStmt', 'WhileStmt', 'IfStmt', 'CXXForRangeStmt', 'DoStmt', 'SwitchStmt'):
                ok = False
        f._sr = r if ok and nret == 1 else None
    return f._sr


def find_lambda(fn, sym):
    if not hasattr(fn, '_lams'):
        fn._lams = {}

        def w(t):
            if isinstance(t, tuple) and t:
                if t[0] == 'lam':
                    fn._lams.setdefault(t[1].usr, t)
                for x in t:
                    if isinstance(x, tuple):
                        w(x)
        for b in fn.blocks.values():
            for e in b.ev:
                w(e)
    la = fn._lams.get(sym.usr)
    if la is None:
        # call operator instantiated from a generic lambda
        for u, x in fn._lams.items():
            if x[1].q == sym.q and u.split('@')[0] == sym.usr.split('@')[0]:
                return x
    return la
