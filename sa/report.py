"""Obligations, verdicts, known findings, evidence."""
import hashlib, json, os, sys, time, traceback
from .frontend import AnalysisError, VERIF, REPO

KNOWN = os.path.join(VERIF, 'known_findings.json')


class Ctx:
    def __init__(self, prop, prog, tier='quick'):
        self.prop = prop; self.prog = prog; self.tier = tier
        self.obl = []            # (clause, instance, ok, detail, where)
        self.rules = {}          # clause -> rule text
        self.minimum = {}        # clause -> least number of instances confirmed by hand
        self.functions = set()   # usrs whose body was analysed
        self.paths = 0
        self.controls = []
        self.notes = []
        self.errors = []

    def rule(self, clause, text, minimum=1):
        self.rules[clause] = text; self.minimum[clause] = minimum

    def broken(self, e):
        if str(e) not in self.errors:
            self.errors.append(str(e))

    def ok(self, clause, instance, where=''):
        self.obl.append((clause, instance, True, '', where))

    def fail(self, clause, instance, detail, where='', trace=None):
        self.obl.append((clause, instance, False, detail + (('\n  path: ' + '\n        '.join(trace)) if trace else ''), where))

    def check(self, cond, clause, instance, detail, where='', trace=None):
        if cond:
            self.ok(clause, instance, where)
        else:
            self.fail(clause, instance, detail, where, trace)
        return cond

    def control(self, name, fired):
        """positive control: a rule whose expected count is zero must fire on a known positive"""
        self.controls.append((name, bool(fired)))
        if not fired:
            raise AnalysisError('positive control %s did not fire' % name)

    def used(self, engine):
        self.functions |= engine.functions; self.paths += engine.count


def known_findings(prop):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return {}
    return {(x['clause'], x['instance']): x for x in d.get('findings', []) if x['property'] == prop}


class Rules:
    """clauses of one property; each is decided on its own, so a vanished anchor in one does not hide the verdict of another"""
    def __init__(self):
        self.fns = []

    def __call__(self, clause, text, minimum=1, thorough=False):
        def deco(fn):
            self.fns.append((clause, text, minimum, fn, thorough)); return fn
        return deco

    def check(self, ctx):
        only = os.environ.get('SA_CLAUSE')
        for clause, text, minimum, fn, thorough in self.fns:
            if thorough and ctx.tier != 'thorough' or only and clause not in only.split(','):
                continue
            ctx.rule(clause, text, minimum)
            try:
                fn(ctx, ctx.prog, clause)
            except AnalysisError as e:
                ctx.broken('%s: %s' % (clause, e))
            except Exception:
                ctx.broken('%s: %s' % (clause, traceback.format_exc()))


def finish(ctx, seed, t0, error=None):
    prop = ctx.prop
    error = '; '.join(([error] if error else []) + ctx.errors) or None
    known = known_findings(prop)
    fails = {}
    for c, i, ok, det, wh in ctx.obl:
        if not ok:
            fails.setdefault((c, i), (det, wh))
    new = {k: v for k, v in fails.items() if k not in known}
    hit = {k: v for k, v in fails.items() if k in known}
    counts = {}
    for c, i, ok, det, wh in ctx.obl:
        counts.setdefault(c, set()).add(i)
    undecided = list(ctx.errors)
    for c, m in ctx.minimum.items():
        n = len(counts.get(c, ()))
        if n < m and not any(u.startswith(c) for u in undecided):
            undecided.append('%s: matched %d instances, %d were confirmed by hand' % (c, n, m))
    ev = {
        'property': prop, 'tier': ctx.tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the type-checked C++ program (clang 18 libTooling, every translation unit '
                           'under /repo/src) and, where a rule says so, of the Python sources under /repo/dbzero. Each '
                           'clause lists the rule and every instance (function, call site, path set or table entry) it '
                           'was decided for on this run.',
            'translation_units': ctx.prog.units if ctx.prog else 0,
            'functions_in_program': len(ctx.prog.fnloc) if ctx.prog else 0,
            'functions_analysed_for_this_property': len(ctx.functions),
            'path_states_explored': ctx.paths,
            'obligations_total': len(set((c, i) for c, i, *_ in ctx.obl)),
            'obligations_held': len(set((c, i) for c, i, *_ in ctx.obl)) - len(fails),
            'clauses': {c: {'rule': ctx.rules.get(c, ''), 'instances': len(counts.get(c, ())),
                            'samples': sorted('%s [%s]' % (i, wh) if wh else i
                                              for i, wh in {(i, wh) for cc, i, ok, d, wh in ctx.obl if cc == c})[:12]}
                        for c in ctx.rules},
            'undecided_on_this_tree': undecided,
            'positive_controls': [c[0] for c in ctx.controls],
            'known_findings_seen': ['%s / %s' % k for k in hit],
        },
        'assumptions': ctx.notes + ['assert() conditions hold (the analysed build keeps assertions on)',
                                    'calls through pointers that cannot be resolved statically have no watched effect'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for (c, i), (det, wh) in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, c, known[(c, i)]['what']))
    if new:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        for (c, i), (det, wh) in sorted(new.items()):
            h = hashlib.sha1(('%s|%s|%s' % (prop, c, i)).encode()).hexdigest()[:10]
            p = os.path.join(VERIF, 'replay', '%s-%s.txt' % (prop, h))
            with open(p, 'w') as f:
                f.write('property %s\nclause   %s\nrule     %s\ninstance %s\nwhere    %s\n\n%s\n' %
                        (prop, c, ctx.rules.get(c, ''), i, wh, det))
            print('VIOLATION property=%s replay=%s' % (prop, p))
            print('  clause %s, %s\n  %s\n  at %s' % (c, i, det.replace('\n', '\n  '), wh))
        if error:
            print('note: the analysis of other clauses was incomplete: %s' % error)
        return 1
    total = sum(max(len(v), ctx.minimum.get(c, 1)) for c, v in counts.items()) or 1
    # a clause whose anchors are gone or whose instances became fewer (code moved or merged) is reported as undecided; a few are
    # tolerated, so that a refactoring of one place does not silence the rest, but the check refuses to answer beyond that
    und = list(undecided)
    if error and not ctx.errors or not counts or len(und) > max(2, total // 8) or und and os.environ.get('SA_STRICT'):
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, error or '; '.join(und) or 'nothing was decided'))
        return 2
    for u in und:
        print('UNDECIDED property=%s %s' % (prop, u.strip().replace('\n', ' | ')[:600]))
    print('OK property=%s clauses=%d obligations=%d functions=%d path-states=%d (%.1fs)' %
          (prop, len(ctx.rules), len(set((c, i) for c, i, *_ in ctx.obl)), len(ctx.functions), ctx.paths, time.time() - t0))
    return 0
