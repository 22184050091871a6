"""Build the module, run contracts, discharge obligations."""
import os
import subprocess
import sys
import time

import z3

from . import ir as IR
from .di import DI
from .engine import Engine, State, Unsupported, B, NeedCut, check
from . import stdlib as SL
from .spec import Spec


def solve(ob, timeout=20000, eng=None):
    """'proved' | 'refuted' | 'unknown', model"""
    if ob.goal is True:
        return 'proved', None, 'trivial'
    cs = [c for c in ob.pc if c is not True]
    if ob.goal is not False:
        cs.append(z3.Not(B(ob.goal)))
    if eng is not None and ob.goal is not False:
        # the part of the path condition that is connected with the goal usually suffices
        r, m = check(eng.relevant(cs[-1:], cs[:-1]), timeout)
        if r == z3.unsat:
            return 'proved', None, 'z3'
    r, m = check(cs, timeout)
    if r == z3.unsat:
        return 'proved', None, 'z3'
    r, m = check(cs, timeout, True)
    if r == z3.unsat:
        return 'proved', None, 'z3'
    if r == z3.sat:
        return 'refuted', m, 'z3'
    return 'unknown', None, 'z3'


def second_opinion(ob, timeout=30):
    """cvc5 on the same obligation (used when z3 gives up, and for cross checks)"""
    s = z3.Solver()
    for c in ob.pc:
        if c is not True:
            s.add(c)
    if ob.goal is not False:
        s.add(z3.Not(B(ob.goal)))
    import cvc5
    from cvc5 import InputParser, SymbolManager
    slv = cvc5.Solver()
    slv.setOption('tlimit-per', str(timeout * 1000))
    sm = SymbolManager(slv)
    p = InputParser(slv, sm)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + s.to_smt2(), 'ob')
    res = None
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        out = c.invoke(slv, sm)
        out = str(out).strip()
        if out in ('sat', 'unsat', 'unknown'):
            res = out
    return {'unsat': 'proved', 'sat': 'refuted'}.get(res, 'unknown')


class Result:
    def __init__(self, label):
        self.label = label
        self.obs = []
        self.error = None
        self.paths = 0
        self.wall = 0.0
        self.exits = []
        self.fn = None
        self.stats = {}


def run_contract(module, di, cls, budget=300, focus=None, args=()):
    """symbolically execute one function against its contract"""
    t = time.time()
    eng = Engine(module, di)
    eng.deadline = t + budget
    eng.focus = focus
    SL.install(eng)
    sp = Spec(eng)
    from . import monitors
    monitors.install(sp)
    ct = cls(sp, *args)
    sp.contract = ct
    res = Result(ct.label())
    res.contract = ct
    try:
        from . import summaries
        summaries.install(eng, ct.uses)
        fns = ct.find() if hasattr(ct, 'find') else eng.find(ct.top)
        if ct.sig:
            import re
            fns = [f for f in fns if re.search(ct.sig, module.dem[f])]
        if not fns:
            raise Unsupported('function %s not found' % ct.top)
        if len(fns) > 1:
            raise Unsupported('function %s is ambiguous: %s' % (ct.top, [module.dem[f] for f in fns]))
        fn = fns[0]
        res.fn = fn
        module.functions[fn].parse()
        st = State()
        inits = ct.setup(st)
        if not isinstance(inits, list) or (inits and not isinstance(inits[0], tuple)):
            inits = [(st, inits)]
        for s0, a in inits:
            eng.cur_fn = fn
            for s, k, v in eng.call(s0, fn, a, top=True):
                if not eng.alive(s):
                    continue
                res.paths += 1
                eng.cur_fn = fn
                eng.cur_dbg = None
                sp.on_exit(s, k)
                ct.post(s, k, v)
                res.exits.append((s, k, v))
    except Unsupported as e:
        loc, stack = getattr(e, 'stack', [(di.loc(eng.cur_dbg), [])])[0]
        res.error = 'unsupported: %s (at %s:%s in %s; called through %s)' % (
            e, os.path.basename(str(loc[0])), loc[1], loc[2], ' > '.join(module.bases.get(n, n) for n in stack[-5:]))
    except RecursionError:
        res.error = 'recursion limit'
    res.obs = eng.obs
    res.eng = eng
    res.sp = sp
    res.wall = time.time() - t
    return res


def discharge(res):
    seen = {}
    t = time.time()
    for ob in res.obs:
        key = (ob.name, ob.goal if isinstance(ob.goal, bool) else ob.goal.get_id(),
               frozenset(c.get_id() for c in ob.pc if c is not True))
        r = seen.get(key)
        if r is None:
            r = solve(ob, eng=res.eng)
            seen[key] = r
        ob.result, ob.model, ob.backend = r
    res.solve_wall = time.time() - t
