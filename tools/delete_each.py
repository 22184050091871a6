"""deletes one statement (or negates one condition) at a time and lists the changes that no obligation notices

usage: delete_each.py [file-regex]   (env ITCV_REPO, JOBS, LIMIT: contracts slower than this many seconds are left out)
"""
import multiprocessing, os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from itcv import ir as IR, build, verify
from itcv.di import DI
from itcv.contracts import all_contracts

REPO = os.environ.get('ITCV_REPO', '/repo')
LIMIT = float(os.environ.get('LIMIT', '40'))
CTX = multiprocessing.get_context('fork')


def load(repo):
    out = tempfile.mkdtemp(dir='/tmp')
    try:
        return IR.Module(build.compile_ir(repo, ROOT + '/harness/instances.cpp', out))
    finally:
        shutil.rmtree(out)


def lines_of(m, d, names):
    got = set()
    for n in names:
        f = m.functions.get(n)
        if f is None or f.is_decl:
            continue
        f.parse()
        sd = d.get(f.dbg) if f.dbg else None
        if not sd or not sd.get('file'):
            continue
        file = d.get(sd['file'])['filename']
        if '/threadpp/' in file:
            got.add((file[file.index('threadpp/'):], int(sd.get('line', 0))))
    return got


def base(i):
    c = all_contracts()[i]
    t = time.time()
    r = verify.run_contract(M, D, c)
    return i, time.time() - t, lines_of(M, D, r.eng.used_fns)


def mutant(job):
    f, ln, new, cs = job
    tmp = tempfile.mkdtemp(prefix='del-', dir='/tmp')
    try:
        shutil.copytree(REPO + '/threadpp', tmp + '/threadpp')
        p = os.path.join(tmp, f)
        t = open(p).read().split('\n')
        old = t[ln - 1]
        t[ln - 1] = new
        open(p, 'w').write('\n'.join(t))
        try:
            m = load(tmp)
        except BaseException:
            return f, ln, old, new, 'does not compile', ''
        d = DI(m)
        und = []
        for i in cs:
            c = all_contracts()[i]
            q = CTX.Queue()
            w = CTX.Process(target=attempt, args=(m, d, c, q))
            w.start()
            try:
                r = q.get(timeout=4 * LIMIT)
            except Exception:
                r = ('undecided', 'time')
            w.kill()
            w.join()
            if r[0] == 'refuted':
                return f, ln, old, new, 'refuted', r[1]
            if r[0] == 'undecided':
                und.append(c.__name__ + ': ' + r[1][:120])
        return f, ln, old, new, 'undecided' if und else 'SURVIVES', '; '.join(und)[:300] or '%d contracts' % len(cs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def attempt(m, d, c, q):
    try:
        r = verify.run_contract(m, d, c)
        verify.discharge(r)
        bad = [o for o in r.obs if o.result == 'refuted']
        if bad:
            q.put(('refuted', '%s: %s' % (c.__name__, bad[0].name)))
        elif r.error or any(o.result != 'proved' for o in r.obs):
            q.put(('undecided', r.error or 'unknown'))
        else:
            q.put(('proved', ''))
    except BaseException as e:
        q.put(('undecided', str(e)))


def work(q, out):
    while True:
        j = q.get()
        if j is None:
            return
        out.put(mutant(j))


if __name__ == '__main__':
    pat = sys.argv[1] if len(sys.argv) > 1 else '.'
    M = load(REPO)
    D = DI(M)
    reach = {}
    with CTX.Pool(int(os.environ.get('JOBS', '6'))) as p:
        for i, t, ls in p.imap_unordered(base, range(len(all_contracts())), 1):
            if t <= LIMIT:
                reach[i] = (t, ls)
    starts = {}
    for t, ls in reach.values():
        for f, l in ls:
            starts.setdefault(f, set()).add(l)
    jobs = []
    for f in sorted(starts):
        if not re.search(pat, f):
            continue
        text = open(os.path.join(REPO, f)).read().split('\n')
        for n, l in enumerate(text, 1):
            below = [s for s in starts[f] if s <= n]
            if not below:
                continue
            s = l.strip()
            new = None
            if re.match(r'if\(.*\)$', s):
                new = l.replace('if(', 'if(!(', 1) + ')'
            elif s.endswith(';') and not s.startswith(('return ', 'using ', 'template', 'auto ', 'const ', 'static', '//', 'break', '}')) and not s.startswith('return;') and not s.endswith('= delete;'):
                new = ''
            if new is None:
                continue
            # lambdas start their own functions: take the nearest two starts
            near = sorted(below)[-2:]
            cs = sorted((i for i, (t, ls) in reach.items() if any((f, x) in ls for x in near)), key=lambda i: reach[i][0])
            if cs:
                jobs.append((f, n, new, cs[:60]))
    print('%d changes' % len(jobs), flush=True)
    q, out = CTX.Queue(), CTX.Queue()
    ws = [CTX.Process(target=work, args=(q, out)) for _ in range(int(os.environ.get('JOBS', '6')))]
    for w in ws:
        w.start()
    for j in jobs:
        q.put(j)
    for w in ws:
        q.put(None)
    n = {}
    for _ in jobs:
        f, ln, old, new, r, why = out.get()
        n[r] = n.get(r, 0) + 1
        if r not in ('refuted', 'does not compile') or os.environ.get('ALL'):
            print('%s:%d %s %s | %s | %s' % (f, ln, r, 'negated' if new else 'deleted', old.strip(), why), flush=True)
    print(n)
