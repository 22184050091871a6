"""What a run takes for granted; goes into the evidence."""

TRUSTED = [
    'clang++ 18 front end (C++ to LLVM IR at -O0, no passes) and the debug information it emits',
    'itcv: IR reader, symbolic executor and obligation generator of this repository',
    'z3 (decides the obligations); cvc5 cross-checks in the thorough tier',
    'models of the C++ library in itcv/stdlib.py: vector, map, priority_queue, string, mutex, condition_variable, thread, '
    'reference counts, exception runtime, steady_clock',
]

GENERAL = [
    'memory allocation does not fail',
    'distinct pointer fields of shared objects that are followed lazily denote distinct, live objects',
    'container sizes stay below 2^40, the number of registered threads below 2^31, ids below 2^63, durations below 2^60 ns, clock below 2^62 ns',
    'sequentially consistent atomics; monitor invariants hold whenever the lock is free and are all that other threads can rely on',
    'user callables: called at most through the library, may not unregister their own thread, destructors of exceptions do not call the library',
    'termination is not proved (partial correctness)',
]

PER = {
    'P01': ['tasks handed to a thread do not throw out of the task itself (their outcome is kept in a future state)'],
    'P04': ['constructors, copies and moves of the result value of a future are not user code in the sense of this property (set_value builds the value with the lock of the state held)',
            'mutexes and condition variables of the user are not internal locks'],
    'P05': ['a promise being destroyed or assigned to is not used by another thread at that moment', 'exception pointers passed to set_exception are not null'],
    'P06': ['moving a continuation into the list does not throw'],
    'P08': ['a promise being destroyed or assigned to is not used by another thread at that moment',
            'callables and arguments can be copied and moved without throwing (capture is noexcept)'],
    'P09': ['callables and arguments can be copied and moved without throwing (capture is noexcept)',
            'result types: one opaque non-void type and void stand for all'],
    'P10': ['the id of another native thread differs from the id of the calling thread (P03)',
            'a fresh thread of the overloads without id is not woken by others before it started its callable'],
    'P12': ['durations and deadlines are judged at the microsecond resolution the library works with'],
    'P14': ['pool workers stay registered until the pool ends them (they are threads made by make_thread; that they have non-zero ids is discharged for the constructor)',
            'a pool is not used by other threads while it is moved, assigned to or destroyed', 'fewer than 2^63 jobs are given to one pool',
            'eligible entries never exceed outstanding requests of a worker: follows from the discharged steps (one request per worker and added entry, at most one entry taken per request), the counting itself is done on paper'],
    'P15': ['a pool is not used by other threads while it is moved, assigned to or destroyed'],
    'P16': ['a pool is not used by other threads while it is moved, assigned to or destroyed', 'a job future is not used by several threads at once without being shared'],
    'P17': ['the calling thread is registered and is the only one that runs the continuations (discharged here: they are attached for it; that they run there, once, is P06, P09 and P10)',
            'iterator form: distinct inputs that have not been seen yet are counted on paper (two of them: at most N - 2 seen); promise::set_value stands for its contract (P05); '
            'the release of the context by the last continuation is not explored (variadic form: it is)',
            'variadic form: instances with one, three and four inputs of mixed kinds stand for all'],
    'P18': ['the calling thread is registered and is the only one that runs the continuations (discharged here: they are attached for it; that they run there, once, is P06, P09 and P10)',
            'iterator form: distinct inputs that have not been seen yet are counted on paper (two of them: at most N - 2 seen); promise::set_value stands for its contract (P05); '
            'the release of the context by the last continuation is not explored (variadic form: it is)',
            'variadic form: instances with one, three and four inputs of mixed kinds stand for all'],
    'P19': ['the settings passed to init are read without a lock while no other thread calls init or shutdown'],
    'P20': ['fields written only before an object is published, and the settings of init, need no lock'],
}


def trusted():
    return TRUSTED


def assumptions(pid, results):
    out = list(GENERAL) + PER.get(pid, [])
    used = sorted({u for r in results for u in r['uses']})
    if used:
        out.append('callers rely on the contracts of: %s (each verified against its own body by the contract of the same function)' % ', '.join(used))
    return out
