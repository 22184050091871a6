"""lists the functions of the library (as instantiated by the harness) that no contract executes"""
import multiprocessing, os, shutil, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from itcv import ir as IR, build, verify
from itcv.di import DI
from itcv.contracts import all_contracts

REPO = os.environ.get('ITCV_REPO', '/repo')


def one(i):
    c = all_contracts()[i]
    r = verify.run_contract(M, D, c)
    return c.__name__, r.error, set(r.eng.used_fns)


if __name__ == '__main__':
    out = tempfile.mkdtemp(dir='/tmp')
    M = IR.Module(build.compile_ir(REPO, ROOT + '/harness/instances.cpp', out))
    shutil.rmtree(out)
    D = DI(M)
    used = set()
    with multiprocessing.get_context('fork').Pool(int(os.environ.get('JOBS', '6'))) as p:
        for n, err, u in p.imap_unordered(one, range(len(all_contracts())), 1):
            if err:
                print('error', n, err[:200])
            used |= u
    # by place in the source: a template counts when one of its instances is executed
    where = {}
    for n, f in M.functions.items():
        if f.is_decl:
            continue
        f.parse()
        sd = D.get(f.dbg) if f.dbg else None
        if not sd or not sd.get('file'):
            continue
        file = D.get(sd['file'])['filename']
        if '/threadpp/' not in file:
            continue
        where.setdefault((file[file.index('threadpp/'):], int(sd.get('line', 0))), []).append(n)
    missed = {k: v for k, v in where.items() if not used & set(v)}
    for k, v in sorted(missed.items()):
        print('%s:%d %s%s' % (k[0], k[1], M.dem[v[0]][:150], ' (and %d more)' % (len(v) - 1) if len(v) > 1 else ''))
    print('%d of %d functions executed by a contract' % (len(where) - len(missed), len(where)))
