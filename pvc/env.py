"""The symbolic side of the harness interface."""
import itertools
import types
from fractions import Fraction
import numpy as np
import z3
from . import terms as T
from . import facade, ho
from .terms import (CTX, Unsupported, PathEnd, SymInt, SymReal, SymBool, SymCplx, scalar_op, s_and, s_or, s_not, s_ite,
                    zbool, zint, zreal, mk_int, mk_real)
from .arr import SymArray, fresh_int
from .api import StaleHarness

_ABSENT = object()
from .engine import OBL, Failure


def _rat(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        return _rat(v.approx(20))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise ValueError(str(v))


class SymEnv:
    symbolic = True

    def __init__(self, mode):
        self.mode = mode
        self.np = self.xp = facade
        self.inputs = []          # (name, kind, payload)
        self.dim_terms = []
        self.real_terms = []
        self.names = set()
        self.notes = {}
        self.poked = False
        self.undo = []

    def _nm(self, name):
        if name in self.names:
            raise StaleHarness(f'duplicate input {name}')
        self.names.add(name)
        return name

    # ------------------------------------------------------------ inputs
    def dim(self, name, lo=1, hi=None):
        self._nm(name)
        if self.mode == 'bounded':
            top = lo + 2 if hi is None else min(hi, lo + 2)
            v = lo + CTX.choose(top - lo + 1)
            self.inputs.append((name, 'int', v))
            return v
        t = z3.Int(name)
        CTX.assume(t >= lo)
        if hi is not None:
            CTX.assume(t <= hi)
        self.inputs.append((name, 'int', t))
        self.dim_terms.append(t)
        return SymInt(t)

    def int(self, name, lo=None, hi=None):
        self._nm(name)
        t = z3.Int(name)
        if lo is not None:
            CTX.assume(t >= zint(lo))
        if hi is not None:
            CTX.assume(t <= zint(hi))
        self.inputs.append((name, 'int', t))
        self.real_terms.append(t)
        return SymInt(t)

    def real(self, name, lo=None, hi=None, strict=False):
        self._nm(name)
        t = z3.Real(name)
        if lo is not None:
            CTX.assume(t > zreal(lo) if strict else t >= zreal(lo))
        if hi is not None:
            CTX.assume(t < zreal(hi) if strict else t <= zreal(hi))
        self.inputs.append((name, 'real', t))
        self.real_terms.append(t)
        return SymReal(t)

    def cplx(self, name):
        return SymCplx(self.real(name + '_re'), self.real(name + '_im'))

    def bool(self, name):
        self._nm(name)
        t = z3.Bool(name)
        self.inputs.append((name, 'bool', t))
        return SymBool(t)

    def flag(self, name):
        """Concrete boolean (both explored)."""
        return bool(self.choice(name, [False, True]))

    def choice(self, name, options):
        self._nm(name)
        k = CTX.choose(len(options))
        self.inputs.append((name, 'choice', k))
        return options[k]

    def array(self, name, shape, kind='f', lo=None, hi=None, dtype=None):
        self._nm(name)
        if not isinstance(shape, tuple):
            shape = (shape,)
        shape = tuple(T.norm_const(d) for d in shape)
        dt = facade.as_dtype(dtype) if dtype is not None else \
            {'f': facade.float64, 'i': facade.int64, 'b': facade.bool_, 'c': facade.complex128}[kind]
        a = ho.base_array(name, shape, dt)
        from . import indexing
        indexing.DISTINCT.pop(name, None)
        if lo is not None or hi is not None:
            inner = a.store.fn

            def el(idx):
                v = inner(idx)
                for c in ([scalar_op('>=', v, lo)] if lo is not None else []) + \
                         ([scalar_op('<=', v, hi)] if hi is not None else []):
                    fact(c)
                return v
            a = SymArray(shape, el, dt)
            ho.FUN_FACTS[name] = (None if lo is None else T.norm_const(lo), None if hi is None else T.norm_const(hi))
        else:
            ho.FUN_FACTS.pop(name, None)
        self.inputs.append((name, 'array', (shape, dt.kind)))
        return a

    def indices(self, name, shape, size, coords=0):
        """Array of indices below `size`, all different.  With coords=k the first axis (k entries) holds coordinates of
        points within the k-tuple `size`, and the points are all different."""
        from . import indexing
        if not isinstance(shape, tuple):
            shape = (shape,)
        self._nm(name)
        shape = tuple(T.norm_const(d) for d in shape)
        sizes = size if coords else (size,)
        full = ((coords,) + shape) if coords else shape
        nd = len(shape)
        base = ho.base_array(name, full, facade.int64)
        raw = base.store.fn
        gs = [T.uf(f'{name}.inv{k}', *([T.I] * len(sizes)), T.I) for k in range(nd)]

        def vals(idx):
            return [raw((c,) + tuple(idx)) for c in range(coords)] if coords else [raw(tuple(idx))]

        def el(idx):
            idx = tuple(idx)
            pos = idx[1:] if coords else idx
            vs = vals(pos)
            inr = T.s_and(*[T.s_and(scalar_op('>=', i, 0), scalar_op('<', i, n)) for i, n in zip(pos, shape)])
            c = T.s_and(*[T.s_and(scalar_op('>=', v, 0), scalar_op('<', v, n)) for v, n in zip(vs, sizes)],
                        *[T.mk_bool(g(*[zint(v) for v in vs]) == zint(i)) for g, i in zip(gs, pos)])
            fact(T.s_or(T.s_not(inr), c))
            return raw(idx)
        indexing.DISTINCT[name] = dict(
            coords=coords, sizes=sizes, inv=lambda p: [g(*p) for g in gs],
            at=lambda g, p: z3.And(*[zint(v) == q for v, q in zip(vals([T.mk_int(x) for x in g]), p)]))
        self.inputs.append((name, 'array', (full, 'i')))
        return SymArray(full, el, facade.int64)

    def func(self, name, *args):
        """Uninterpreted real function of real arguments (an unknown but fixed callable)."""
        f = T.uf(name, *([T.R] * len(args)), T.R)
        return mk_real(f(*[zreal(a) for a in args]))

    def bilinear(self, a):
        """Bilinear interpolation of a: function of the coordinates y, x."""
        from .stubs import bilinear
        return bilinear(a)

    def floor(self, v):
        return T.s_floor(v)

    def text(self, name):
        """Arbitrary non-empty name free of the separators of the parameter files (distinct from the other names)."""
        from .symstr import SymStr, Atom
        self._nm(name)
        self.inputs.append((name, 'text', name))
        return SymStr([Atom('text:' + name, frozenset(':.-_ /\n'))])

    def int_text(self, v):
        from .symstr import int_str
        return int_str(v) if isinstance(v, SymInt) else str(v)

    def cat(self, *parts):
        """Concatenation of texts."""
        from .symstr import concat
        r = ''
        for p in parts:
            r = concat(r, p)
        return r

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd()
            return
        if isinstance(cond, SymArray):
            cond = cond.item()
            return self.assume(cond)
        CTX.assume(zbool(cond))
        if not CTX.feasible():
            raise PathEnd()

    # ------------------------------------------------------------ logic
    def And(self, *a):
        return s_and(*a)

    def Or(self, *a):
        return s_or(*a)

    def Not(self, a):
        return s_not(a)

    def implies(self, a, b):
        return s_or(s_not(a), b)

    def ite(self, c, a, b):
        return s_ite(c, a, b)

    def sum(self, n, f):
        n = T.norm_const(n)
        if isinstance(n, int):
            r = 0
            for i in range(n):
                r = r + f(i)
            return r
        with T.BoundVar(n) as (k,):
            kind = T.kind_of(T.norm_const(_sc(f(k))))
        return facade.sum_scalar(lambda i: T.norm_const(_sc(f(i))), n, kind)

    def case(self, cond):
        """Case split."""
        return bool(cond)

    # ------------------------------------------------------------ obligations
    def ensure(self, label, cond):
        if isinstance(cond, SymArray):
            cond = cond.item()
        if isinstance(cond, (bool, SymBool)):
            OBL.ensure(label, cond)
        else:
            OBL.ensure(label, bool(cond))
            
    def eq(self, label, a, b, tol=None, shape_only=False):
        """Equality of scalars / arrays / sequences (shape and every element)."""
        from .symstr import SymStr
        if a is None or b is None or isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
            return OBL.ensure(label, a is b or (type(a) == type(b) and a == b))
        if isinstance(a, dict) and isinstance(b, dict):
            if not OBL.ensure(label + ' (keys)', a.keys() == b.keys()):
                return False
            return all([self.eq(label, a[k], b[k]) for k in a])
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if not OBL.ensure(label + ' (length)', len(a) == len(b)):
                return False
            return all([self.eq(f'{label}', x, y) for x, y in zip(a, b)])
        arr = isinstance(a, SymArray) and a.shape != () or isinstance(b, SymArray) and b.shape != ()
        if not arr:
            if isinstance(a, SymArray):
                a = a.item()
            if isinstance(b, SymArray):
                b = b.item()
            return OBL.ensure(label, _eq_cond(T.norm_const(a), T.norm_const(b)))
        a, b = facade.as_arr(a), facade.as_arr(b)
        if a.ndim != b.ndim:
            return OBL.ensure(label + ' (rank)', False)
        ok = OBL.ensure(label + ' (shape)', s_and(*[scalar_op('==', x, y) for x, y in zip(a.shape, b.shape)]))
        if not ok:
            return False
        if any(bool(scalar_op('==', T.norm_const(d), 0)) for d in b.shape):
            return OBL.ensure(label, True)
        small = self.few(b.shape)
        if small is not None:
            return all([OBL.ensure(label, _eq_cond(a.at(k), b.at(k))) for k in small])
        ks = self.fresh_index(b.shape)
        return OBL.ensure(label, _eq_cond(a.at(ks), b.at(ks)))

    @staticmethod
    def few(shape, most=6):
        """All the indices of a small array of concrete size, None for others."""
        d = [T.norm_const(x) for x in shape]
        if not d or any(not isinstance(x, int) for x in d) or not 0 < int(np.prod(d)) <= most:
            return None
        return [tuple(k) for k in itertools.product(*[range(x) for x in d])]

    def fresh_index(self, shape):
        ks = []
        for n in shape:
            n = T.norm_const(n)
            if isinstance(n, int) and n == 1:
                ks.append(0)
                continue
            k = fresh_int('ix', 0)
            CTX.assume(zbool(scalar_op('<', k, n)))
            ks.append(k)
        return tuple(ks)

    def eq_fn(self, label, a, shape, fn, tol=None, least=None):
        """a has the given shape and a[idx] == fn(*idx) for every index.  tol and least (smallest scale the values are
        compared at) only matter to the concrete evaluation in machine arithmetic."""
        a = facade.as_arr(a)
        shape = tuple(T.norm_const(d) for d in (shape if isinstance(shape, tuple) else (shape,)))
        if a.ndim != len(shape):
            return OBL.ensure(label + ' (rank)', False)
        ok = OBL.ensure(label + ' (shape)', s_and(*[scalar_op('==', x, y) for x, y in zip(a.shape, shape)]))
        if not ok:
            return False
        if any(bool(scalar_op('==', d, 0)) for d in shape):
            return OBL.ensure(label, True)
        def one(ks):
            v = fn(*ks)
            if isinstance(v, SymArray):
                v = v.item()
            return OBL.ensure(label, _eq_cond(a.at(ks), T.norm_const(v)))
        small = self.few(shape)
        if small is not None:
            return all([one(k) for k in small])
        return one(self.fresh_index(shape))

    def forall(self, label, dims, fn):
        dims = dims if isinstance(dims, tuple) else (dims,)
        if any(bool(scalar_op('==', T.norm_const(d), 0)) for d in dims):
            return OBL.ensure(label, True)
        def one(ks):
            c = fn(*ks)
            if isinstance(c, SymArray):
                c = c.item()
            return self.ensure(label, c)
        small = self.few(dims)
        if small is not None:
            return all([one(k) for k in small])
        return one(self.fresh_index(dims))

    def assume_forall(self, dims, fn, inst=None):
        """Assume fn at every index: recorded as a universally quantified hypothesis and
        available to the code through instantiation at the given array accesses."""
        dims = dims if isinstance(dims, tuple) else (dims,)
        with T.BoundVar(*dims) as bs:
            c = fn(*bs)
        ks = [b.t for b in bs]
        rng = [z3.And(k >= 0, k < zint(n)) for k, n in zip(ks, dims)]
        CTX.assume(z3.ForAll(ks, z3.Implies(z3.And(*rng), zbool(c))))

    def raises(self, label, exc, fn, *a, **k):
        try:
            r = fn(*a, **k)
        except exc:
            return OBL.ensure(label, True)
        except (PathEnd, Unsupported, Failure):
            raise
        except Exception:
            OBL.ensure(label, False)
            return False
        OBL.ensure(label, False)
        return False

    def snap(self, a):
        """Copy of the current contents of an array (or list of arrays)."""
        if isinstance(a, (list, tuple)):
            return [self.snap(x) for x in a]
        return a.copy() if isinstance(a, SymArray) else a

    def mk(self, shape, fn, kind='f'):
        """Array given by its elements."""
        shape = tuple(T.norm_const(d) for d in (shape if isinstance(shape, tuple) else (shape,)))
        dt = {'f': facade.float64, 'i': facade.int64, 'b': facade.bool_, 'c': facade.complex128}[kind]
        return SymArray(shape, lambda idx: facade.cast_scalar(T.norm_const(_sc(fn(*idx))), dt), dt)

    def setattr(self, obj, name, val):
        if not hasattr(obj, name):
            raise StaleHarness(f'{type(obj).__name__} has no attribute {name}')
        self.poked = True
        if isinstance(obj, (type, types.ModuleType)):        # shared with other harnesses
            self.undo.append((obj, name, vars(obj).get(name, _ABSENT)))
        setattr(obj, name, val)

    def restore(self):
        while self.undo:
            obj, name, old = self.undo.pop()
            if old is _ABSENT:
                delattr(obj, name)
            else:
                setattr(obj, name, old)

    def tmpfile(self, name='f.fits'):
        return '/pvc-memory-fs/' + name

    # ------------------------------------------------------------ extraction
    def extract(self, model):
        out = {}

        def ev(t):
            return _rat(model.eval(t, model_completion=True))
        total = 0
        for name, kind, p in self.inputs:
            if kind in ('int', 'real', 'bool'):
                out[name] = ev(p) if not isinstance(p, (int, float, bool)) else p
            elif kind in ('choice', 'text'):
                out[name] = p
            elif kind == 'array':
                shape, k = p
                sh = [ev(zint(d)) for d in shape]
                n = 1
                for d in sh:
                    n *= d
                total += n
                if n > 4000 or total > 20000:
                    raise ValueError('model too large')
                import itertools
                vals = []
                for idx in itertools.product(*[range(d) for d in sh]):
                    zi = [z3.IntVal(i) for i in idx]
                    if k == 'c':
                        re = T.uf(name + '.re', *([T.I] * len(sh)), T.R)(*zi)
                        im = T.uf(name + '.im', *([T.I] * len(sh)), T.R)(*zi)
                        vals.append([ev(re), ev(im)])
                    else:
                        rs = {'f': T.R, 'i': T.I, 'b': T.B}[k]
                        vals.append(ev(T.uf(name, *([T.I] * len(sh)), rs)(*zi) if sh else z3.Const(name, rs)))
                out[name] = dict(shape=sh, kind=k, data=vals)
        return out


def _sc(v):
    return v.item() if isinstance(v, SymArray) else v


def fact(c):
    """Known-true fact about an input element."""
    if isinstance(c, bool):
        return
    t = zbool(c)
    if CTX.bound and T.mentions(t, CTX.bound):
        CTX.solver.add(t)
    else:
        CTX.assume(t)


def _eq_cond(a, b):
    if isinstance(a, float) or isinstance(b, float):
        # inf / nan
        if isinstance(a, float) and isinstance(b, float):
            return a == b or (a != a and b != b)
        return False
    r = scalar_op('==', a, b)
    if r is NotImplemented:
        return a == b
    return r
