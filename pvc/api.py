"""Harness registration (shared by the proof mode and the concrete mode; no solver imports)."""

HARNESSES = []
ENV = [None]      # environment of the harness being evaluated


class StaleHarness(Exception):
    """The contract refers to something the code no longer has: undecided, not a violation."""


class Harness:
    def __init__(self, prop, fn, name, opts):
        self.prop = prop
        self.fn = fn
        self.name = name
        self.opts = opts

    def __getattr__(self, k):
        try:
            return self.opts[k]
        except KeyError:
            raise AttributeError(k)


def harness(prop, funcs=(), name=None, **opts):
    """Register a contract harness.

    funcs: the functions of /repo whose contract it states
    mode : 'proof' (default: all sizes), 'bounded' (sizes fixed to small values, contents symbolic),
           'test' (only concrete evaluation: never counted as proved)
    trials: concrete evaluations (cross-check), heavy: deadline factor
    """
    def deco(f):
        HARNESSES.append(Harness(prop, f, name or f.__name__, dict(funcs=list(funcs), **opts)))
        return f
    return deco
