"""Decide one property:  python3-vt itcv/run.py P01

Compiles /repo to LLVM IR, verifies every function whose contract contributes to the property, discharges the obligations,
writes evidence/<property>.json and reports.  Exit 0: every obligation discharged.  Exit 1: an obligation is refuted.
Where the verifier has no answer (construct outside its reach, solver gives up) the native scenarios of the property stand
in as a bounded check, labelled so; exit 2 when they cannot be built either.
"""
import argparse
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)

REPO = os.environ.get('ITCV_REPO', '/repo')
HARNESS = os.path.join(ROOT, 'harness', 'instances.cpp')
FINDINGS = os.path.join(ROOT, 'known-findings.txt')

G = {}


def trace_of(ob, n=40):
    out, t = [], ob.trace
    while t and len(out) < n:
        out.append(t[0])
        t = t[1]
    return list(reversed(out))


def model_text(m, limit=60):
    if m is None:
        return []
    out = []
    for d in sorted(m.decls(), key=lambda d: d.name()):
        if d.arity() == 0:
            out.append('%s = %s' % (d.name(), m[d]))
    return out[:limit]


def tags_of(ob, ct):
    t = []
    for x in ob.tags:
        t += list(ct.safe) if x == 'SAFE' else [x]
    return tuple(sorted(set(t)))


def work(i):
    """verify one contract in a child process; everything returned is plain data"""
    import z3
    from itcv import verify
    from itcv.engine import check
    cls = G['contracts'][i]
    t0 = time.time()
    try:
        res = verify.run_contract(G['module'], G['di'], cls, budget=G['budget'],
                                  focus=None if G['property'] == 'ALL' else G['property'])
    except Exception as e:      # a defect of the verifier itself is no answer, never a violation
        import traceback
        return dict(cls=cls.__name__, label=str(cls.name or cls.top), error='internal: %s %s' % (e, traceback.format_exc()[-1500:]),
                    obs=[], paths=0, wall=time.time() - t0, solve=0, edges=[], acquired=[], calls=[], loops=[], fn=None, file=None,
                    reach=False, uses=list(cls.uses), inlined=[], props=list(cls.props), second=None)
    ct = res.contract
    pid = G['property']
    keep = [o for o in res.obs if pid == 'ALL' or pid in tags_of(o, ct)]
    res.obs = keep
    verify.discharge(res)
    obs = {}
    second = None
    if G['tier'] == 'thorough':
        second = dict(agree=0, disagree=0, gave_up=0)
    done = set()
    for o in keep:
        k = (o.name, tags_of(o, ct), tuple(o.loc))
        r = obs.setdefault(k, dict(name=o.name, tags=k[1], loc=[str(x) for x in o.loc], detail=o.detail, n=0, proved=0, trivial=0,
                                   refuted=0, unknown=0))
        r['n'] += 1
        r[o.result] += 1
        if o.backend == 'trivial':
            r['trivial'] += 1
        if o.result == 'refuted' and 'model' not in r:
            r['model'] = model_text(o.model)
            r['trace'] = trace_of(o)
        if o.result == 'unknown' and 'trace' not in r:
            r['trace'] = trace_of(o)
        if second is not None and o.backend != 'trivial' and o.result == 'proved':
            key = (o.goal if isinstance(o.goal, bool) else o.goal.get_id(), frozenset(c.get_id() for c in o.pc if c is not True))
            if key not in done and time.time() - t0 < G['second_budget']:
                done.add(key)
                try:
                    v = verify.second_opinion(o, 10)
                except Exception:
                    v = 'unknown'
                second['agree' if v == 'proved' else 'disagree' if v == 'refuted' else 'gave_up'] += 1
    # vacuity: some way through the function must be possible
    reach = False
    for s, k, v in res.exits:
        r, _ = check([c for c in s.pc if c is not True], 10000)
        if r == z3.sat:
            reach = True
            break
    m = G['module']
    fn = m.dem.get(res.fn, res.fn) if res.fn else None
    return dict(cls=cls.__name__, label=ct.label(), error=res.error, obs=list(obs.values()), paths=res.paths, wall=time.time() - t0,
                solve=res.solve_wall, edges=[(a, b, str(w[0])) for (a, b), w in res.sp.edges.items()],
                acquired=sorted(res.sp.acquired), calls=sorted(res.sp.calls), loops=[str(x)[:200] for x in res.eng.loop_log][:40],
                fn=fn, reach=reach, uses=list(cls.uses), props=list(cls.props),
                inlined=sorted(x for x in getattr(res.eng, 'entered', ()) if x.startswith('tpp::')), second=second)


def lock_order(results):
    """the lock order graph over all verified functions, callee effects included"""
    acq = {r['label']: set(r['acquired']) for r in results}
    calls = {r['label']: [c for _, c in r['calls']] for r in results}
    changed = True
    while changed:
        changed = False
        for l, cs in calls.items():
            for c in cs:
                new = acq.get(c, set()) - acq[l]
                if new:
                    acq[l] |= new
                    changed = True
    edges = {}
    for r in results:
        for a, b, w in r['edges']:
            edges.setdefault((a, b), '%s: %s' % (r['label'], w))
        for held, c in r['calls']:
            for h in held:
                for a in acq.get(c, ()):
                    edges.setdefault((h, a), '%s calls %s' % (r['label'], c))
    # a cycle?
    nodes = {x for e in edges for x in e}
    succ = {n: [b for a, b in edges if a == n] for n in nodes}
    color, stack = {}, []

    def dfs(n):
        color[n] = 1
        stack.append(n)
        for b in succ[n]:
            if color.get(b) == 1:
                return stack[stack.index(b):] + [b]
            if b not in color:
                c = dfs(b)
                if c:
                    return c
        stack.pop()
        color[n] = 2
        return None
    cyc = None
    for n in sorted(nodes):
        if n not in color:
            cyc = dfs(n)
            if cyc:
                break
    return edges, cyc


def known_findings(pid):
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith('known: ') and 'property=%s ' % pid in l:
                d = dict(x.split('=', 1) for x in l.split(' | ')[0].split()[1:])
                out.append((d, l.split(' | ', 1)[1] if ' | ' in l else ''))
    return out


def run_native(pid, tmp, limit):
    """the native scenarios of the property against the real code: (ran, failed, output)"""
    from itcv import build
    src = os.path.join(ROOT, 'native', pid + '.cpp')
    if not os.path.exists(src):
        return False, False, 'no native scenarios for ' + pid
    exe = os.path.join(tmp, pid + '.exe')
    try:
        # the first line may ask for more options
        with open(src) as f:
            first = f.readline()
        more = first.split(':', 1)[1].split() if first.startswith('// options:') else []
        build.native(REPO, src, exe, ['-I' + os.path.join(ROOT, 'native')] + more)
    except build.BuildError as e:
        return False, False, 'native scenarios do not compile: ' + str(e)
    end = time.time() + limit
    out, rounds = '', 0
    while time.time() < end and rounds < 150:
        rounds += 1
        try:
            p = subprocess.run([exe, str(rounds)], capture_output=True, text=True, timeout=max(5, min(60, end - time.time())), cwd=tmp)
            out = p.stdout + p.stderr
            if 'FATAL: ThreadSanitizer' in out:
                return False, False, out
            if p.returncode != 0:
                return True, True, 'round %d, exit %d\n%s' % (rounds, p.returncode, out)
        except subprocess.TimeoutExpired as e:
            o = e.stdout or b''
            return True, True, 'round %d: scenario does not end\n%s' % (rounds, o.decode() if isinstance(o, bytes) else o)
    return True, False, '%d rounds without a failure\n%s' % (rounds, out)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--record', action='store_true')
    ap.add_argument('--tags', action='store_true')
    ap.add_argument('--no-native', action='store_true')
    a = ap.parse_args()
    pid = a.property
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='itcv-')
    try:
        return decide(a, pid, tier, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(a, pid, tier, t0, tmp):
    from itcv import build
    from itcv import ir as IR
    from itcv.di import DI
    from itcv.contracts import all_contracts
    from itcv import assumptions as AS
    try:
        text = build.compile_ir(REPO, HARNESS, tmp)
    except build.BuildError as e:
        print('the tree does not compile for verification:\n%s' % e)
        return finish_undecided(a, pid, tier, t0, tmp, [], ['build: ' + str(e)[-600:]])
    G['module'] = IR.Module(text)
    del text
    G['di'] = DI(G['module'])
    G['contracts'] = [c for c in all_contracts() if pid == 'ALL' or pid in c.props]
    if a.only:
        G['contracts'] = [c for c in G['contracts'] if c.__name__ in a.only.split(',')]
    G['property'] = pid
    G['tier'] = tier
    G['budget'] = 600 if tier == 'quick' else 3000
    G['second_budget'] = 1500
    with open(os.path.join(HERE, 'expected.json')) as f:
        G['expected'] = json.load(f)
    build_s = time.time() - t0
    results = []
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 8), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(work, range(len(G['contracts'])), chunksize=1):
            results.append(r)
            if a.verbose:
                bad = [o for o in r['obs'] if o['refuted'] or o['unknown']]
                print('%-28s %6.1fs paths %4d obligations %5d%s%s' % (r['cls'], r['wall'], r['paths'], sum(o['n'] for o in r['obs']),
                      ' ERROR ' + r['error'] if r['error'] else '', ' FAILED %s' % [o['name'] for o in bad] if bad else ''), flush=True)
    if a.record:
        # which contracts produce obligations for which property on the reviewed tree (vacuity guard)
        for r in results:
            e = set(G['expected'].get(r['cls'], ())) - {pid}
            G['expected'][r['cls']] = sorted(e | ({pid} if r['obs'] else set()))
        names = {c.__name__ for c in all_contracts()}
        with open(os.path.join(HERE, 'expected.json'), 'w') as f:
            json.dump({k: v for k, v in sorted(G['expected'].items()) if k in names}, f, indent=1)
            f.write('\n')
    order = [c.__name__ for c in G['contracts']]
    results.sort(key=lambda r: order.index(r['cls']))
    return report(a, pid, tier, t0, tmp, results, build_s)


def report(a, pid, tier, t0, tmp, results, build_s):
    from itcv import assumptions as AS
    refuted, undecided = [], []
    total = proved = trivial = 0
    if pid == 'P04':
        edges, cyc = lock_order(results)
        total += 1
        if cyc:
            why = ['%s -> %s (%s)' % (x, y, edges[(x, y)]) for x, y in zip(cyc, cyc[1:])]
            refuted.append((dict(label='lock order', cls='LockOrder', fn=None),
                            dict(name='lock-order-acyclic', loc=['', '', ''], detail='; '.join(why), tags=('P04',), trace=why, model=[])))
        else:
            proved += 1
    for r in results:
        for o in r['obs']:
            total += o['n']
            proved += o['proved']
            trivial += o['trivial']
            if o['refuted']:
                refuted.append((r, o))
            elif o['unknown']:
                undecided.append('%s: solver gives up on %s at %s' % (r['label'], o['name'], ':'.join(o['loc'][:2])))
        if r['error']:
            undecided.append('%s: %s' % (r['label'], r['error']))
        elif not r['reach']:
            undecided.append('%s: no feasible path through the function (vacuous)' % r['label'])
        elif not r['obs'] and pid in G['expected'].get(r['cls'], ()):
            undecided.append('%s: no obligation for %s generated (vacuous)' % (r['label'], pid))
    if not results:
        undecided.append('no contract contributes to %s' % pid)
    known, new = [], []
    kf = known_findings(pid)
    for r, o in refuted:
        for d, txt in kf:
            if d.get('contract') == r['cls'] and d.get('obligation') == o['name'].split(': ')[-1].replace(' ', '-'):
                known.append((d, txt))
                break
        else:
            new.append((r, o))
    for d, txt in {str(k): k for k in known}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, txt))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='proof',
              coverage=dict(obligations=total, discharged=proved, decided_syntactically=trivial,
                            checker_cmd='python3-vt itcv/run.py %s' % pid,
                            trusted_base=AS.trusted(),
                            backend='z3 %s (bit-vectors; integer translation; general solver)%s' % (
                                __import__('z3').get_version_string(), '; cross-checked with cvc5' if tier == 'thorough' else ''),
                            solver_s=round(sum(r['solve'] for r in results), 1), build_s=round(build_s, 1),
                            functions_under_contract=[dict(contract=r['cls'], function=r['fn'] or r['label'], paths=r['paths'],
                                                           obligations=sum(o['n'] for o in r['obs']),
                                                           discharged=sum(o['proved'] for o in r['obs']), wall_s=round(r['wall'], 1),
                                                           uses_contracts_of=r['uses'], executes_body_of=r['inlined'],
                                                           loops=r['loops'])
                                                      for r in results],
                            obligation_names=sorted({o['name'] for r in results for o in r['obs']})),
              assumptions=AS.assumptions(pid, results), wall_s=0.0, violations=len(new))
    if tier == 'thorough':
        c = dict(agree=0, disagree=0, gave_up=0)
        for r in results:
            for k in c:
                c[k] += (r['second'] or {}).get(k, 0)
        ev['coverage']['cvc5'] = c
        if c['disagree']:
            undecided.append('cvc5 disagrees with z3 on %d obligations' % c['disagree'])
    if undecided:
        ev['coverage']['undecided'] = undecided
    code = 0
    if new:
        code = 1
        rp = violation(a, pid, tmp, new, undecided)
    elif undecided:
        return finish_undecided(a, pid, tier, t0, tmp, results, undecided, ev)
    else:
        print('%s: %d obligations from %d functions, all discharged (%.0f s)' % (pid, total, len(results), time.time() - t0))
    write_evidence(pid, ev, t0)
    return code


def write_evidence(pid, ev, t0):
    ev['wall_s'] = round(time.time() - t0, 1)
    if os.environ.get('ITCV_SCRATCH'):
        return
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


def replay_path(tmp, pid):
    d = tmp if os.environ.get('ITCV_SCRATCH') else os.path.join(ROOT, 'replay')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, pid + '.txt')


def violation(a, pid, tmp, new, undecided):
    rp = replay_path(tmp, pid)
    if a.no_native:
        ran, failed, out = False, False, 'not run'
    else:
        ran, failed, out = run_native(pid, tmp, 150)
    with open(rp, 'w') as f:
        f.write('property %s\n\nfailed obligations:\n' % pid)
        for r, o in new:
            f.write('\n%s  (contract %s%s)\n  at %s\n  %s\n' % (o['name'], r['label'], ', function %s' % r['fn'] if r['fn'] else '',
                                                               ':'.join(o['loc']), o['detail']))
            f.write('  path:\n' + ''.join('    %s\n' % x for x in o.get('trace', [])))
            f.write('  counterexample of the verifier:\n' + ''.join('    %s\n' % x for x in o.get('model', [])))
        if undecided:
            f.write('\nnot decided:\n' + ''.join('  %s\n' % x for x in undecided))
        f.write('\nreplay against the real code (native/%s.cpp, compiled with the sources in %s):\n%s\n' % (pid, REPO, out))
    for r, o in new:
        if a.tags:
            print('refuted: %s [%s] at %s' % (o['name'], ','.join(o['tags']), ':'.join(o['loc'][:2])))
            continue
        print('refuted: %s at %s: %s' % (o['name'], ':'.join(o['loc'][:2]), o['detail']))
    print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if failed else ' no-failing-input-found'))
    return rp


def finish_undecided(a, pid, tier, t0, tmp, results, undecided, ev=None):
    """the verifier gives no answer: a bounded check of the real code stands in, labelled as such and never counted as proved"""
    for u in undecided:
        print('undecided: ' + u)
    if ev is None:
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                  coverage=dict(undecided=undecided), assumptions=[], wall_s=0.0, violations=0)
    ran = failed = False
    if not a.no_native:
        ran, failed, out = run_native(pid, tmp, 120)
    code = 2
    if ran:
        ev['level'] = 'other'
        ev['coverage']['bounded'] = 'not proved; bounded stand-in: scenarios of native/%s.cpp on the real code, %s' % (
            pid, out.splitlines()[0])
        code = 0
        print('%s: not proved, bounded stand-in only: %s' % (pid, out.splitlines()[0]))
        if failed:
            code = 1
            ev['violations'] = 1
            rp = replay_path(tmp, pid)
            with open(rp, 'w') as f:
                f.write('property %s\n\nnot decided by the verifier:\n%s\n' % (pid, ''.join('  %s\n' % x for x in undecided)))
                f.write('failing scenario on the real code (native/%s.cpp, compiled with the sources in %s):\n%s\n' % (pid, REPO, out))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
    write_evidence(pid, ev, t0)
    return code


if __name__ == '__main__':
    sys.exit(main())
