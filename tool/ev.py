#!/usr/bin/env python3
"""development aid: ev.py QNAME [nparams] [-c]: events and branch conditions of a function, as canonical terms"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import db
from sa.terms import *
p = db.program()
q = sys.argv[1]; conly = '-c' in sys.argv
np = [int(a) for a in sys.argv[2:] if a.isdigit()]
def dump(f, ind=''):
    print(ind + '==', f.q, f.sym.pt, f.where, f.usr[-40:])
    env = Env(f)
    for b in sorted(f.blocks.values(), key=lambda b: -b.id):
        for e in b.ev:
            if conly and e[0] not in ('ret', 'throw'): continue
            if e[0] == 'call':
                c = e[2]
                if c[0] in ('c', 'n'):
                    print(ind, b.id, e[1], 'call', (show(norm(c[2], env)) + ' . ' if c[0] == 'c' and c[2] is not None else ''), c[1].q, '(' + ', '.join(show(norm(a, env)) for a in c[3]) + ')')
                else: print(ind, b.id, e[1], 'ci', show(norm(c, env)))
            elif e[0] == 'asg': print(ind, b.id, e[1], 'asg', show(norm(e[2], env)) if e[2][0] != 'l' else '%' + str(e[2][2]), e[3], show(norm(e[4], env)))
            elif e[0] == 'decl': print(ind, b.id, e[1], 'decl', f.locals[e[2]][0], e[3], show(norm(e[4], env)))
            elif e[0] == 'ret': print(ind, b.id, e[1], 'ret', show(norm(e[2], env)))
            elif e[0] == 'dtor': print(ind, b.id, e[1], 'dtor', e[3])
            elif e[0] == 'rd': continue
            else: print(ind, b.id, e[1], e[0], str(e[2])[:120])
        if b.cond is not None: print(ind, b.id, b.tl, 'COND', b.t, show(norm(b.cond, env)), '->', b.succ)
    for u in p.meta[f.usr][2]:
        g = p.fn(u)
        if g: dump(g, ind + '    ')
for f in p.fns_q(q):
    if np and len(f.params) != np[0]: continue
    dump(f)
