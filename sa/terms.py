"""Canonical terms: expressions of a function expressed in the vocabulary of the analysis root.

A term is a nested tuple.  Parameters are replaced by the caller's arguments, locals that are initialised once and never
written again by their initialiser, smart-pointer plumbing / value-preserving casts / copies are dropped, overloaded
comparison operators become plain comparisons.  So `x->foo()` and `auto &y = *x; y.foo()` have the same receiver term."""
import re

STRIP_METHODS = {'operator->', 'operator*', 'get', 'operator bool', 'lock', 'value'}
SMART = re.compile(r'^(std::(shared_ptr|unique_ptr|__shared_ptr|__shared_ptr_access|weak_ptr|reference_wrapper|optional|'
                   r'_Optional_base_impl|_Optional_base)|db0::swine_ptr|db0::weak_swine_ptr|db0::python::shared_py_object)$')
CMP = {'operator==': '==', 'operator!=': '!=', 'operator<': '<', 'operator>': '>', 'operator<=': '<=', 'operator>=': '>='}
NEG = {'==': '!=', '!=': '==', '<': '>=', '>': '<=', '<=': '>', '>=': '<'}
SWAP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}


def is_smart(sym):
    return bool(SMART.match(sym.clsq))


class Env:
    """bindings of one activation"""
    __slots__ = ('fn', 'params', 'this', 'caps', 'fid', 'depth', 'key')

    def __init__(self, fn, params=None, this=('this',), caps=None, fid=0, depth=0):
        self.fn = fn
        self.params = params if params is not None else [('param', i, n) for i, n in enumerate(fn.params)]
        self.this = this
        self.caps = caps or {}
        self.fid = fid
        self.depth = depth
        self.key = (fn.usr, tuple(self.params), this, tuple(sorted(self.caps.items(), key=lambda kv: str(kv[0]))))


def norm(t, env, depth=0):
    if t is None or not isinstance(t, tuple) or not t:
        return t
    if depth > 30:
        return ('unk', 'deep')
    h = t[0]
    d = depth + 1
    if h == 'this':
        return env.this
    if h == 'p':
        if t[1] < len(env.params):
            return env.params[t[1]]
        return ('param', t[1], t[2])
    if h == 'l':
        info = env.fn.local_info().get(t[1])
        if info and info[0] is not None and info[1] == 0 and info[2] == 1:
            init = info[0]
            r = norm(init, env, d)
            # aggregates / freshly constructed objects keep their identity
            if r and r[0] in ('new', 'init', 'unk', 's') or (r and r[0] == 'n' ):
                return ('local', env.fid, t[1], t[2])
            return r
        return ('local', env.fid, t[1], t[2])
    if h == 'bind':
        if len(t) > 4 and t[3] is not None:
            info = env.fn.local_info().get(t[3])
            if info and info[0] is not None and info[1] == 0 and info[2] == 1:
                return ('fld', norm(('l', t[3], ''), env, d), t[4])
        return ('local', env.fid, 'b%s.%s' % (t[3], t[2]), t[1])
    if h == 'cap':
        c = env.caps.get(t[1])
        if c is not None:
            return c
        return ('local', env.fid, 'cap', t[1])
    if h == 'm':
        return ('fld', norm(t[1], env, d), t[2])
    if h == 'c':
        sym = t[1]
        if sym.name in ('operator*', 'operator->') and t[2] is not None and t[2][0] == 'l' and not t[3]:
            e = element(t[2], env, d)
            if e is not None:
                return e
        if sym.name in STRIP_METHODS and is_smart(sym):
            return norm(t[2], env, d) if t[2] is not None else ('unk', '')
        if sym.q in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::addressof') and t[3]:
            return norm(t[3][0], env, d)
        if sym.name in CMP:
            ops = ([t[2]] if t[2] is not None else []) + list(t[3])
            if len(ops) == 2:
                return ('op', CMP[sym.name], norm(ops[0], env, d), norm(ops[1], env, d))
        if sym.name == 'operator!' and t[2] is not None:
            return ('un', '!', norm(t[2], env, d)) if not sym.repo else ('call', sym.q, norm(t[2], env, d), ())
        return ('call', sym.q, norm(t[2], env, d) if t[2] is not None else None,
                tuple(norm(a, env, d) for a in t[3]))
    if h == 'n':
        sym = t[1]
        args = t[3]
        if sym.cpmv and len(args) >= 1:
            return norm(args[0], env, d)
        if is_smart(sym) and len(args) == 1:
            return norm(args[0], env, d)
        if sym.clsq == 'std::function' and len(args) == 1:
            return norm(args[0], env, d)
        return ('n', sym.q, tuple(norm(a, env, d) for a in args))
    if h == 'x':
        return norm(t[2], env, d)
    if h == 'b':
        if t[1] == '=':
            return norm(t[3], env, d)
        return ('op', t[1], norm(t[2], env, d), norm(t[3], env, d))
    if h == 'u':
        if t[1] == '*' and t[2] and t[2][0] == 'l':
            e = element(t[2], env, d)
            if e is not None:
                return e
        if t[1] in ('&', '*'):
            return norm(t[2], env, d)
        return ('un', t[1], norm(t[2], env, d))
    if h == '?':
        return ('?', norm(t[1], env, d), norm(t[2], env, d), norm(t[3], env, d))
    if h == 'g':
        return ('g', t[1])
    if h == 'e':
        return ('e', t[1], t[2])
    if h == 'lam':
        return ('lam', t[1], tuple((c[0], norm(c[2], env, d)) for c in t[2]), env.this)
    if h == 'sub':
        return ('sub', norm(t[1], env, d), norm(t[2], env, d))
    if h == 'init':
        return ('init', tuple(norm(a, env, d) for a in t[1]))
    if h == 'f':
        return ('f', t[1].q)
    if h == 'bm':
        return ('bm', t[1].q, norm(t[2], env, d))
    if h == 'new':
        return ('new', t[1], norm(t[2], env, d))
    if h == 'ci':
        return ('ci', norm(t[1], env, d), tuple(norm(a, env, d) for a in t[2]))
    return t


def element(l, env, d):
    """what a loop iterator denotes: some element of the container it started from"""
    info = env.fn.local_info().get(l[1])
    if not info or not info[0]:
        return None
    i = info[0]
    while i[0] == 'x':
        i = i[2]
    if i[0] == 'n' and len(i[3]) == 1 and i[3][0]:
        i = i[3][0]
        while i[0] == 'x':
            i = i[2]
    if i[0] == 'c' and i[1].name in ('begin', 'cbegin', 'rbegin') and (i[2] is not None or len(i[3]) == 1):
        return ('call', 'for::each', norm(i[2] if i[2] is not None else i[3][0], env, d), ())
    if str(l[2]).startswith('__begin'):
        return ('call', 'for::each', norm(i, env, d), ())
    return None


def show(t):
    """short readable rendering; rules match on it as well"""
    if t is None:
        return 'null'
    if not isinstance(t, tuple) or not t:
        return str(t)
    h = t[0]
    if h == 'this': return 'this'
    if h == 'param': return '$' + str(t[2])
    if h == 'local': return '%' + str(t[3])
    if h == 'fld':
        return show(t[1]) + '.' + t[2].rpartition('::')[2]
    if h == 'call':
        n = t[1].rpartition('::')[2]
        return (show(t[2]) + '.' if t[2] is not None else t[1][:-len(n)]) + n + '(' + ','.join(show(a) for a in t[3]) + ')'
    if h == 'n': return t[1].rpartition('::')[2] + '{' + ','.join(show(a) for a in t[2]) + '}'
    if h == 'op': return '(' + show(t[2]) + ' ' + t[1] + ' ' + show(t[3]) + ')'
    if h == 'un': return t[1] + show(t[2])
    if h == 'g': return t[1].rpartition('::')[2]
    if h == 'e': return t[1].rpartition('::')[2]
    if h == 'i': return 'true' if t[1] is True else 'false' if t[1] is False else str(t[1])
    if h == 's': return '"' + str(t[1]) + '"'
    if h == '?': return show(t[1]) + '?' + show(t[2]) + ':' + show(t[3])
    if h == 'ci': return show(t[1]) + '(' + ','.join(show(a) for a in t[2]) + ')'
    if h == 'sub': return show(t[1]) + '[' + show(t[2]) + ']'
    if h == 'lam': return 'lambda'
    if h == 'init': return '{' + ','.join(show(a) for a in t[1]) + '}'
    return h


def last_field(t):
    """qualified field name of the outermost member access of a term, or None"""
    return t[2] if isinstance(t, tuple) and t and t[0] == 'fld' else None


def fields_in(t, out=None):
    if out is None:
        out = set()
    if isinstance(t, tuple):
        if t and t[0] == 'fld':
            out.add(t[2])
        for x in t:
            if isinstance(x, tuple):
                fields_in(x, out)
    return out


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)
