"""Front end driver: runs the libTooling extractor over /repo's current sources and indexes its output.

Every translation unit (every .cpp under src/dbzero) is parsed; units are fed to clang in groups (one synthetic
unit that includes the group's .cpp files) because that shares the header parse.  A group that does not parse as a
group is re-parsed unit by unit, so nothing is silently skipped; a unit that does not parse on its own is an
analysis error.  The result is cached under /verif/.cache keyed by the content of every source file, the front end's own
source and the flags, so a cached result is only ever used for byte-identical input.
"""
import hashlib, json, os, pickle, subprocess, sys, time, shutil
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
TOOL = os.path.join(CACHE, 'extract')
FLAGS = ['-w', '-std=c++17', '-ferror-limit=0', '-D_GLIBCXX_ASSERTIONS=1', '-D_FILE_OFFSET_BITS=64']
NGROUPS = 16
# units that cannot share a synthetic unit with others (explicit specialisation order / file-local names)
SOLO = {'PyHash.cpp', 'mu_store.cpp', 'PySnapshot.cpp'}


class AnalysisError(Exception):
    """the analysis itself could not be carried out (never a verdict)"""


def flags():
    inc = subprocess.run(['python3', '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])'],
                         capture_output=True, text=True).stdout.strip() or '/usr/include/python3.12'
    if not os.path.exists(os.path.join(inc, 'Python.h')):
        inc = '/usr/include/python3.12'
    return FLAGS + ['-I' + REPO + '/src', '-I' + REPO, '-I' + inc]


def source_files():
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, 'src')):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.cpp', '.hpp', '.h', '.hxx', '.inl', '.ipp', '.cc')):
                out.append(os.path.join(base, f))
    return out


def tree_key():
    h = hashlib.sha256()
    for p in source_files():
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    for p in ('tool/extract.cpp', 'sa/frontend.py'):
        with open(os.path.join(VERIF, p), 'rb') as f:
            h.update(f.read())
    h.update(' '.join(FLAGS).encode())
    return h.hexdigest()[:24]


def ensure_tool():
    r = subprocess.run([os.path.join(VERIF, 'tool', 'build.sh'), TOOL], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('front end does not build: ' + r.stderr[-2000:])


def _extract(args):
    out, src, fl = args
    p = subprocess.run([TOOL, REPO, out, src, '--'] + fl, capture_output=True, text=True, cwd=REPO)
    errs = [l for l in p.stderr.splitlines() if ' error: ' in l or 'fatal error' in l]
    if p.returncode not in (0, 3) :
        errs.append('extractor exit %d: %s' % (p.returncode, p.stderr[-500:]))
    if p.returncode == 3 and not errs:
        errs.append('extractor reported failure: ' + p.stderr[-500:])
    return out, src, errs


def _index(path):
    """index one extractor output: symbols, records, enums, globals, and the byte range of each function body"""
    syms, recs, enums, gv, fns, deps = {}, [], [], [], [], []
    off = 0
    with open(path, 'rb') as f:
        for ln in f:
            n = len(ln)
            k = ln[6:9]
            if k == b'sym':
                d = json.loads(ln); syms[d['i']] = d
            elif k == b'fn"':
                d = json.loads(ln)
                callees, flds, lams = set(), set(), set()
                for b in d.get('blocks', ()):
                    for e in b['ev']:
                        _walk(e, callees, flds, lams)
                    if 'cond' in b:
                        _walk(b['cond'], callees, flds, lams)
                fns.append((d['i'], off, n, sorted(callees), sorted(flds), sorted(lams), d['file'], d['line'],
                            d.get('end', 0), d.get('parent'), d.get('inst', 0), len(d.get('blocks', ()))))
            elif k == b'rec':
                recs.append(json.loads(ln))
            elif k == b'enu':
                enums.append(json.loads(ln))
            elif k == b'gva':
                gv.append(json.loads(ln))
            elif k == b'dep':
                deps = json.loads(ln)['files']
            off += n
    with open(path + '.idx', 'wb') as f:
        pickle.dump((syms, recs, enums, gv, fns, deps), f, protocol=4)
    return path


def _walk(t, callees, flds, lams):
    if isinstance(t, list):
        if t:
            h = t[0]
            if h == 'c' or h == 'n' or h == 'bm' or h == 'f':
                if isinstance(t[1], int):
                    callees.add(t[1])
            elif h == 'dtor':
                if isinstance(t[4], int):
                    callees.add(t[4])
            elif h == 'm' and isinstance(t[2], str):
                flds.add(t[2])
            elif h == 'lam':
                lams.add(t[1])
        for x in t:
            if isinstance(x, list):
                _walk(x, callees, flds, lams)


def _borrow(jobs, members, tmp):
    """development only (scratch copies): reuse the output of groups none of whose files differ from /repo's"""
    r = subprocess.run(['python3', '-m', 'sa.frontend'], cwd=VERIF, env={k: v for k, v in os.environ.items() if k != 'SA_REPO'}, capture_output=True, text=True)
    d = r.stdout.split()[0] if r.stdout else None
    if not d or not os.path.exists(os.path.join(d, 'DONE')):
        return jobs, []
    same = {}

    def eq(rel):
        if os.path.isabs(rel) and not rel.startswith('/repo/'):
            return True
        rel = rel[6:] if rel.startswith('/repo/') else rel
        if rel not in same:
            try:
                same[rel] = open(os.path.join(REPO, rel), 'rb').read() == open(os.path.join('/repo', rel), 'rb').read()
            except OSError:
                same[rel] = False
        return same[rel]
    rest, outs = [], []
    for j in jobs:
        o = os.path.join(d, os.path.basename(j[0]))
        ok = os.path.exists(o + '.idx')
        if ok:
            deps = pickle.load(open(o + '.idx', 'rb'))[5]
            mem = [os.path.relpath(x, REPO) for x in members.get(j[1], [j[1]])]
            ok = all(eq(x) for x in mem) and all(eq(x) for x in deps)
        if ok:
            try:
                os.link(o, j[0]); os.link(o + '.idx', j[0] + '.idx'); outs.append(j[0])
            except OSError:
                # another run removed it meanwhile
                for x in (j[0], j[0] + '.idx'):
                    if os.path.exists(x):
                        os.unlink(x)
                rest.append(j)
        else:
            rest.append(j)
    return rest, outs


def ensure(verbose=False):
    """returns the directory with the indexed extractor output for the current tree"""
    key = tree_key()
    d = os.path.join(CACHE, 'ir-' + key)
    if os.path.exists(os.path.join(d, 'DONE')):
        return d
    ensure_tool()
    os.makedirs(CACHE, exist_ok=True)
    tmp = d + '.tmp%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    fl = flags()
    cpps = [p for p in source_files() if p.endswith(('.cpp', '.cc'))]
    if len(cpps) < 150:
        raise AnalysisError('only %d translation units found under %s/src (expected over 200)' % (len(cpps), REPO))
    solo = [p for p in cpps if os.path.basename(p) in SOLO]
    rest = [p for p in cpps if os.path.basename(p) not in SOLO]
    jobs, members = [], {}
    k = (len(rest) + NGROUPS - 1) // NGROUPS
    for i in range(0, len(rest), k):
        src = os.path.join(tmp, 'g%02d.cpp' % (i // k))
        with open(src, 'w') as f:
            for p in rest[i:i + k]:
                f.write('#include "%s"\n' % p)
        members[src] = rest[i:i + k]
        jobs.append((src[:-4] + '.json', src, fl))
    for n, p in enumerate(solo):
        jobs.append((os.path.join(tmp, 's%02d.json' % n), p, fl))
    outs, retry = [], []
    if REPO != '/repo':
        jobs, outs = _borrow(jobs, members, tmp)
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for out, src, errs in ex.map(_extract, jobs):
            if errs:
                if src in members:
                    retry.extend(members[src]); os.path.exists(out) and os.unlink(out)
                else:
                    raise AnalysisError('%s does not parse: %s' % (src, errs[:3]))
            else:
                outs.append(out)
        if retry:
            jobs = [(os.path.join(tmp, 'r%03d.json' % n), p, fl) for n, p in enumerate(retry)]
            for out, src, errs in ex.map(_extract, jobs):
                if errs:
                    raise AnalysisError('%s does not parse: %s' % (src, errs[:3]))
                outs.append(out)
    with cf.ProcessPoolExecutor(os.cpu_count() or 8) as ex:
        list(ex.map(_index, [o for o in outs if not os.path.exists(o + '.idx')]))
    with open(os.path.join(tmp, 'UNITS'), 'w') as f:
        json.dump({'units': len(cpps), 'outputs': [os.path.basename(o) for o in outs], 'reparsed': len(retry)}, f)
    open(os.path.join(tmp, 'DONE'), 'w').close()
    try:
        os.rename(tmp, d)
    except OSError:
        if not os.path.exists(os.path.join(d, 'DONE')):
            raise
        shutil.rmtree(tmp, ignore_errors=True)
    # keep the cache small: only the newest few trees
    olds = sorted((os.path.getmtime(os.path.join(CACHE, x)), x) for x in os.listdir(CACHE)
                  if x.startswith('ir-') and '.tmp' not in x)
    for _, x in olds[:-3 if REPO == '/repo' else -12]:
        shutil.rmtree(os.path.join(CACHE, x), ignore_errors=True)
    return d


if __name__ == '__main__':
    t = time.time()
    print(ensure(), round(time.time() - t, 1), 's')
