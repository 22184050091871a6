"""writes MANIFEST.json from the list of claimed properties"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 'P01': 'per function, for all queue contents, arguments and interleavings at lock boundaries: queue refinement of invoke, process, waits, unregistration and pending count',
 'P02': 'per function: no sleep while a task or exit request is outstanding, every delivery raises the wake-up flag and notifies under the lock, status of timed waits',
 'P03': 'per function: registry invariant (both tables agree, ids fresh and never zero) preserved by every function that touches it, results of registration, lookup and listing',
 'P04': 'per function, at every call of user code, destruction of user objects, drop of a possibly last reference, lock and sleep on every path of every function under contract: which internal locks are held; lock order over all functions together; locks released at every exit',
 'P05': 'per function: state monitor of a promise (one transition, value or exception complete before the status, never changed afterwards), refusals of second results, second retrievals and empty promises',
 'P06': 'per function: continuations attached under the lock or started at once, taken exactly once and in order by the call that makes the state ready, started outside the lock',
 'P07': 'per function: wait, timed wait and get of unique and shared futures for every state, wake-up and exit request at lock boundaries',
 'P08': 'per function: destruction and assignment of promises break the future; every task of async and then that is dropped or refused, including the queue handing it back, leaves its future broken',
 'P09': 'per function: one call with the captured arguments, copies of lvalues, result or exception stored in the future, nothing escapes; continuations get a ready future of the source state',
 'P10': 'per function: the thread every task of async, then, invoke and dispatch is run on or queued to, for every id, policy and calling thread',
 'P11': 'per function: waiter list invariant, registration before the lock is released, notify_one and notify_all take, mark and wake exactly the waiters they must, end conditions of waits',
 'P12': 'per function: deadline arithmetic of timed waits and sleeps against an arbitrary monotone clock, answers of timed waits, no blocking for zero or negative durations',
 'P13': 'per function: ownership invariant, results and error codes of lock, try_lock and unlock, sleep only while owned, wake-up on every unlock',
 'P14': 'per function: pool monitor (ids, pending or running, a queue entry for every pending job), one job taken per request by a worker only, every eligible worker asked for every added entry, workers joined by the destructor',
 'P15': 'per function: level of the jobs a worker takes, choice of level and entry for all queue contents, requeueing on a priority change, priority of scheduled jobs',
 'P16': 'per function: stop and stop_all remove and drop exactly the pending jobs, wait and wait_all wait for the future of every listed job, count, futures reach the pool where it was moved and nothing once it is gone',
 'P17': 'whole life of a combined future: the call, then the continuations run at once or later in any order or dropped; any number of inputs for the iterator form (loop invariants), fixed instances for the variadic form',
 'P18': 'whole life of a combined future: the call, then the continuations run at once or later in any order or dropped; any number of inputs for the iterator form (loop invariants), fixed instances for the variadic form',
 'P19': 'per function: exit flag monotone and addressed, shutdown counting and result, thread object join/move/swap',
 'P20': 'per function: every read and write of a field with a protecting lock, on every path of every function under contract, is made with that lock held or on an object nobody else can reach yet',
}
PENDING = 'not claimed yet: the contracts for this part of the library are still being written'
TECH = 'contract-based deductive verification: verification conditions generated from the LLVM IR of the unmodified sources by symbolic execution with lock invariants, discharged by z3 (cross-checked by cvc5 in the thorough tier)'
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl')) if l.strip()]
m = dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5" && /usr/bin/clang++-18 --version',
         hooks=dict(guard='none', enable='no hooks: the sources are verified as they are', source_commits=[]),
         checks=[dict(property=p, quick_cmd='python3-vt itcv/run.py ' + p, thorough_cmd='python3-vt itcv/run.py %s --tier thorough' % p,
                      evidence_file='evidence/%s.json' % p, technique=TECH, level='proof',
                      level_note=CLAIMED[p] + '. Trusted: the verifier itself, the models of the standard library and the assumptions listed in the evidence; where the verifier has no answer for a changed tree, native scenarios stand in, labelled bounded.')
                 for p in ids if p in CLAIMED],
         not_applicable=[dict(property=p, reason=PENDING) for p in ids if p not in CLAIMED],
         notes='See DESIGN.md. Refuted obligations are reported with the native scenarios of the property as replay; when none of them fails the VIOLATION line ends with no-failing-input-found.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
