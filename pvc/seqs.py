"""Immutable sequences of symbolic length (list repetition, comprehensions over symbolic ranges)."""
from . import terms as T
from .terms import CTX, Unsupported, SymInt, scalar_op, kind_of


class SymSeq:
    _is_symseq = True

    def __init__(self, n, fn):
        self.n = n
        self.fn = fn

    def len_(self):
        return self.n

    def get(self, i):
        return self.fn(i)

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        return self.n.__index__()

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of a symbolic sequence')
        from .indexing import norm_int
        return self.fn(norm_int(i, self.n))

    def __iter__(self):
        n = self.n if isinstance(self.n, int) else T.unique_value(self.n)
        if n is None:
            raise Unsupported('iteration over a sequence of symbolic length')
        return (self.fn(i) for i in range(n))

    def to_array(self):
        from . import facade
        from .arr import SymArray
        with T.BoundVar(self.n) as (k,):
            e = self.fn(k)
        if isinstance(e, SymArray):
            if any(not isinstance(d, int) and T.mentions(d.t, [k.t]) for d in e.shape):
                raise Unsupported('ragged sequence')
            sh = (self.n,) + e.shape
            return SymArray(sh, lambda idx: self.fn(idx[0]).at(tuple(idx[1:])), e.dtype)
        if isinstance(e, (list, tuple)):
            raise Unsupported('sequence of tuples to array')
        dt = facade._KIND_DT[kind_of(e)]
        return SymArray((self.n,), lambda idx: facade.cast_scalar(self.fn(idx[0]), dt), dt)

    def __add__(self, o):
        a, b = self, o
        if isinstance(o, (list, tuple)):
            o = SymSeq(len(o), lambda i: _pick(b, i))
        n1 = a.n
        return SymSeq(scalar_op('+', n1, o.len_()), lambda i: T.s_ite(scalar_op('<', i, n1), a.get(i),
                                                                      o.get(scalar_op('-', i, n1))))

    def __hash__(self):
        return id(self)


def _pick(l, i):
    if isinstance(i, int):
        return l[i]
    r = l[-1]
    for k in range(len(l) - 2, -1, -1):
        r = T.s_ite(scalar_op('==', i, k), l[k], r)
    return r
