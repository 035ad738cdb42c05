"""Helpers shared by the contract harnesses (run both symbolically and concretely)."""
import numpy as np
from pvc.api import ENV
from specula.base_value import BaseValue


def val(a, t=1):
    """A BaseValue output holding array/scalar a, refreshed at time t."""
    v = BaseValue(value=a)
    v.generation_time = t
    return v


def _arrays(o):
    """(owner, attribute, array) of a data object (or of the members of a list)."""
    if isinstance(o, (list, tuple)):
        return [x for y in o for x in _arrays(y)]
    if o is None or not hasattr(o, '__dict__'):
        return []
    return [(o, k, v) for k, v in vars(o).items() if not isinstance(v, type) and type(v).__name__ in ('ndarray', 'SymArray')]


def _objs(x):
    return [z for y in x for z in _objs(y)] if isinstance(x, (list, tuple)) else [x]


def _snapshot(objs):
    return [(o, k, v, v.copy()) for o, k, v in _arrays(objs)]


def _unchanged(e, label, snaps):
    for o, k, v, c in snaps:
        e.eq(label, vars(o).get(k), c)


def step(obj, t=1, frame=True, hold=True):
    """One simulation step of a processing object, as the loop performs it.

    Every step also carries the frame condition of a block: it leaves the data objects connected to
    its inputs as they were, and what it published stays as it is until it computes again."""
    e = ENV[0]
    outs = [o for x in obj.outputs.values() for o in _objs(x)]
    before = _snapshot(outs) if hold else []
    ok = obj.check_ready(t)
    _unchanged(e, 'published outputs hold until the block computes', before)
    if ok:
        ins = [o for x in obj.local_inputs.values() for o in _objs(x) if not any(o is y for y in outs)] if frame else []
        snaps = _snapshot(ins)
        obj.trigger()
        obj.post_trigger()
        _unchanged(e, 'inputs are not modified', snaps)
    else:
        _unchanged(e, 'published outputs hold when the block does not compute', before)
    return ok


def wire(obj, **ins):
    for k, v in ins.items():
        obj.inputs[k].set(v)
    return obj


def run1(obj, t=1, setup=True, **ins):
    """Connect, set up and execute one step; returns the object."""
    wire(obj, **ins)
    if setup:
        obj.setup()
    step(obj, t)
    return obj


def raises_iff(e, label, exc, fn, cond):
    """fn() raises exc exactly when cond holds; tells whether it does."""
    if e.case(cond):
        e.raises(label, exc, fn)
        return True
    fn()
    return False
