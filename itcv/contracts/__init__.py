"""All contracts."""


def all_contracts():
    from . import threads, sync, futures, tasks, pool, combine
    out = []
    for m in (threads, sync, futures, tasks, pool, combine):
        out += m.CONTRACTS
    return out
