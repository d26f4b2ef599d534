"""Registry of contracts of one property file."""

REG = {}


class Contract(object):
    def __init__(self, name, fn, **opts):
        self.name = name
        self.fn = fn
        self.opts = opts


def contract(name=None, **opts):
    """opts: bounded=True (never proved, only executed within bounds),
    functions=[...] (the functions of /repo this contract specifies),
    runs=N (random executions in the quick tier), prove_s=N, max_paths=N,
    soft=True (uses uninterpreted functions: an unreplayable counter-model is
    'undecided')."""
    def deco(fn):
        n = name or fn.__name__
        if n in REG:
            raise ValueError('duplicate contract %s' % n)
        REG[n] = Contract(n, fn, **opts)
        return fn
    return deco
