"""Symbolic replacement of the parts of numpy that SPECULA uses."""
import builtins
import itertools
import math as _math
from fractions import Fraction
import numpy as _np
import z3
from . import terms as T
from .terms import (CTX, Unsupported, Sym, SymInt, SymReal, SymBool, SymCplx, scalar_op, s_ite, s_and, s_or, s_not,
                    mk_int, mk_real, mk_bool, zint, zreal, zbool, same_int, uf, kind_of, is_sym, BoundVar, norm_const)
from .arr import SymArray, DT, Memo, dim_prod, idx_in, fresh_int, SMALL
from . import ho

_any, _all, _sum, _abs, _max, _min, _round, _int = (builtins.any, builtins.all, builtins.sum, builtins.abs,
                                                    builtins.max, builtins.min, builtins.round, builtins.int)

# ---------------------------------------------------------------- dtypes
bool_ = DT('bool', 'b', 1)
int8 = DT('int8', 'i', 1); int16 = DT('int16', 'i', 2); int32 = DT('int32', 'i', 4); int64 = DT('int64', 'i', 8)
uint8 = DT('uint8', 'i', 1); uint16 = DT('uint16', 'i', 2); uint32 = DT('uint32', 'i', 4); uint64 = DT('uint64', 'i', 8)
float16 = DT('float16', 'f', 2); float32 = DT('float32', 'f', 4); float64 = DT('float64', 'f', 8)
complex64 = DT('complex64', 'c', 8); complex128 = DT('complex128', 'c', 16)
int_ = intp = int64
float_ = double = float64
_DTS = {d.name: d for d in (bool_, int8, int16, int32, int64, uint8, uint16, uint32, uint64, float16, float32, float64,
                            complex64, complex128)}
_DTS['bool_'] = bool_
ndarray = SymArray


class _Abs(type):
    def __instancecheck__(cls, x):
        if isinstance(x, bool):
            return False
        return cls.pred(x)


class number(metaclass=_Abs):
    pred = staticmethod(lambda x: isinstance(x, Sym) and kind_of(x) in 'ifc')


class integer(metaclass=_Abs):
    pred = staticmethod(lambda x: isinstance(x, SymInt))


class floating(metaclass=_Abs):
    pred = staticmethod(lambda x: isinstance(x, SymReal))


class generic(metaclass=_Abs):
    pred = staticmethod(lambda x: isinstance(x, Sym))


class complexfloating(metaclass=_Abs):
    pred = staticmethod(lambda x: isinstance(x, SymCplx))


def as_dtype(x):
    if x is None:
        return None
    if isinstance(x, DT):
        return x
    nm = getattr(x, '_pvc_dtype', None)
    if nm:
        return _DTS[nm]
    if x is bool:
        return bool_
    if x is _int:
        return int64
    if x is float:
        return float64
    if x is complex:
        return complex128
    if isinstance(x, str):
        x = x.strip('<>=')
    d = _np.dtype(x)
    if d.name in _DTS:
        return _DTS[d.name]
    raise Unsupported(f'dtype {x}')


def dtype(x):
    return as_dtype(x)


def issubdtype(d, base):
    d = as_dtype(d)
    table = {floating: 'f', integer: 'i', complexfloating: 'c', number: 'ifc'}
    if base in table:
        return d.kind in table[base]
    return d == as_dtype(base)


_KIND_DT = {'b': bool_, 'i': int64, 'f': float64, 'c': complex128}


def cast_scalar(x, dt):
    if dt is None:
        return x
    if isinstance(x, SymArray):
        return x.astype(dt)
    x = norm_const(x)
    k = dt.kind
    if k == 'O':
        return x
    if isinstance(x, str):
        x = T.to_frac(float(x))
    kx = kind_of(x)
    if k == kx:
        return x
    if k == 'b':
        if kx == 'c':
            return s_or(scalar_op('!=', x.re, 0), scalar_op('!=', x.im, 0))
        return scalar_op('!=', x, 0)
    if k == 'i':
        if kx == 'b':
            return _int(x) if isinstance(x, bool) else mk_int(zint(x))
        if kx == 'f':
            return T.s_trunc(x)
        if kx == 'c':
            return T.s_trunc(T.s_real(x))
    if k == 'f':
        if kx in 'bi':
            return T.to_frac(x) if not is_sym(x) else mk_real(zreal(x))
        if kx == 'c':
            return T.s_real(x)
    if k == 'c':
        return SymCplx(x, 0)
    if x is None:
        return float('nan')
    raise Unsupported(f'cast {type(x).__name__} to {dt}')


def can_cast_same_kind(a, b):
    order = 'bifc'
    return order.index(a.kind) <= order.index(b.kind)


def promote(*ds):
    r = _np.result_type(*[_np.dtype(d.name) for d in ds])
    return _DTS[r.name]


def result_type(*xs):
    return promote(*[as_dtype(getattr(x, 'dtype', x)) for x in xs])


def _weak(dt, kind):
    """Result dtype of an array dtype with a Python scalar of the given kind."""
    order = 'bifc'
    if order.index(kind) <= order.index(dt.kind):
        return dt
    if kind == 'i':
        return int64
    if kind == 'f':
        return float64
    return complex64 if dt.name in ('float32',) else complex128


def op_dtype(a, b):
    aa, bb = isinstance(a, SymArray), isinstance(b, SymArray)
    if aa and bb:
        return promote(a.dtype, b.dtype)
    if aa:
        return _weak(a.dtype, kind_of(b))
    if bb:
        return _weak(b.dtype, kind_of(a))
    return promote(_KIND_DT[kind_of(a)], _KIND_DT[kind_of(b)])


# ---------------------------------------------------------------- broadcasting
def broadcast_shapes_(*shapes):
    n = _max([len(s) for s in shapes]) if shapes else 0
    out = []
    for j in range(n):
        d = 1
        for s in shapes:
            k = j - (n - len(s))
            if k < 0:
                continue
            e = s[k]
            if isinstance(d, _int) and d == 1:
                d = e
                continue
            if isinstance(e, _int) and e == 1:
                continue
            if same_int(d, e):
                continue
            if isinstance(d, _int) and isinstance(e, _int):
                raise ValueError(f'operands could not be broadcast together with shapes {shapes}')
            if CTX.fork(zbool(scalar_op('==', d, e))):
                if isinstance(e, _int):
                    d = e
                continue
            if not isinstance(e, _int) and CTX.fork(zbool(scalar_op('==', e, 1))):
                continue
            if not isinstance(d, _int) and CTX.fork(zbool(scalar_op('==', d, 1))):
                d = e
                continue
            raise ValueError(f'operands could not be broadcast together with shapes {shapes}')
        out.append(d)
    return tuple(out)


def bcast_idx(idx, shape, oshape):
    """Index into an array of `shape` for index idx of the broadcast `oshape`."""
    off = len(oshape) - len(shape)
    r = []
    for j, d in enumerate(shape):
        i = idx[j + off]
        if isinstance(d, _int) and d == 1:
            o = oshape[j + off]
            r.append(0 if not (isinstance(o, _int) and o == 1) or not isinstance(i, _int) else i)
            if isinstance(r[-1], _int) and r[-1] != 0:
                r[-1] = 0
        elif not isinstance(d, _int) and not same_int(d, oshape[j + off]):
            # symbolic dim decided equal to the output dim or equal to 1 on this path
            if CTX.entails(zbool(scalar_op('==', d, oshape[j + off]))):
                r.append(i)
            else:
                r.append(0)
        else:
            r.append(i)
    return tuple(r)


def check_broadcast_to(vs, osh):
    vs = tuple(vs)
    while len(vs) > len(osh):
        if isinstance(vs[0], _int) and vs[0] == 1:
            vs = vs[1:]
        else:
            raise ValueError(f'could not broadcast input array from shape {vs} into shape {osh}')
    off = len(osh) - len(vs)
    for j, d in enumerate(vs):
        o = osh[j + off]
        if isinstance(d, _int) and d == 1:
            continue
        if same_int(d, o):
            continue
        if isinstance(d, _int) and isinstance(o, _int):
            raise ValueError(f'could not broadcast input array from shape {vs} into shape {osh}')
        if CTX.fork(zbool(scalar_op('==', d, o))):
            continue
        if not isinstance(d, _int) and CTX.fork(zbool(scalar_op('==', d, 1))):
            continue
        raise ValueError(f'could not broadcast input array from shape {vs} into shape {osh}')


def check_same_shape_for_out(r, out):
    if len(r.shape) > len(out.shape):
        raise ValueError('non-broadcastable output operand')
    check_broadcast_to(r.shape, out.shape)
    for d, o in zip(r.shape[::-1], out.shape[::-1]):
        if not same_int(d, o) and isinstance(d, _int) and d == 1:
            if not CTX.fork(zbool(scalar_op('==', o, 1))):
                pass


def as_arr(x):
    if isinstance(x, SymArray):
        return x
    return asarray(x)


def _is_arr(x):
    return isinstance(x, SymArray)


def binop(op, a, b, dt=None, f=None):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(b, (list, tuple)):
        b = array(b)
    a = norm_const(a) if not _is_arr(a) else a
    b = norm_const(b) if not _is_arr(b) else b
    if a is None or b is None or isinstance(a, (str, dict)) or isinstance(b, (str, dict)):
        if op == '==':
            return False if (a is None or b is None) else NotImplemented
        if op == '!=':
            return True
        if isinstance(a, dict) or isinstance(b, dict):
            return NotImplemented
        raise TypeError(f'unsupported operand type(s) for {op}')
    if not _is_arr(a) and kind_of(a) == 'O' or not _is_arr(b) and kind_of(b) == 'O':
        return NotImplemented
    if dt is None:
        if op in ('<', '<=', '>', '>=', '==', '!='):
            dt = bool_
        else:
            dt = op_dtype(a, b)
            if op == '/' and dt.kind in 'bi':
                dt = float64
            elif op in ('+', '*', '//', '%', '**') and dt.kind == 'b' and op not in ('&', '|', '^'):
                dt = bool_ if op in ('+', '*') else int8
            elif op == '-' and dt.kind == 'b':
                raise TypeError('numpy boolean subtract, the `-` operator, is not supported')
            if op in ('&', '|', '^') and dt.kind in 'fc':
                raise TypeError("ufunc 'bitwise_and' not supported for the input types")
    if f is None:
        if dt.kind == 'b' and op == '+':
            f = s_or
        elif dt.kind == 'b' and op == '*':
            f = s_and
        else:
            f = lambda x, y: scalar_op(op, x, y)
    tocast = dt.kind
    if not _is_arr(a) and not _is_arr(b):
        return f(a, b)

    def g(x, y):
        if op == '/' or op == '//' or op == '%':
            if T._conc(y) and not T.is_inf(y) and y == 0:
                if T._conc(x) and x == 0:
                    return float('nan')
                if T._conc(x):
                    return float('inf') if x > 0 else float('-inf')
                raise Unsupported('array division by literal zero')
        r = f(x, y)
        if kind_of(r) != tocast:
            r = cast_scalar(r, dt)
        return r
    if _is_arr(a) and _is_arr(b):
        sh = broadcast_shapes_(a.shape, b.shape)
        ra, rb, sa, sb = a.reader(), b.reader(), a.shape, b.shape
        out = SymArray(sh, lambda idx: g(ra(bcast_idx(idx, sa, sh)), rb(bcast_idx(idx, sb, sh))), dt)
        if a.masktag and b.masktag and a.masktag[0] is b.masktag[0]:
            fa, fb = a.masktag[1], b.masktag[1]
            out.masktag = (a.masktag[0], lambda idx: g(fa(idx), fb(idx)))
    elif _is_arr(a):
        ra, sh = a.reader(), a.shape
        out = SymArray(sh, lambda idx: g(ra(idx), b), dt)
        if a.masktag:
            fa = a.masktag[1]
            out.masktag = (a.masktag[0], lambda idx: g(fa(idx), b))
    else:
        rb, sh = b.reader(), b.shape
        out = SymArray(sh, lambda idx: g(a, rb(idx)), dt)
        if b.masktag:
            fb = b.masktag[1]
            out.masktag = (b.masktag[0], lambda idx: g(a, fb(idx)))
    return scalarize(out)


def scalarize(a):
    if isinstance(a, SymArray) and a.ndim == 0:
        return a.at(())
    return a


def ufunc1(f, x, dt):
    if isinstance(x, (list, tuple)):
        x = array(x)
    if not _is_arr(x):
        return f(norm_const(x))
    r = x.reader()
    out = SymArray(x.shape, lambda idx: f(r(idx)), dt)
    if x.masktag:
        fm = x.masktag[1]
        out.masktag = (x.masktag[0], lambda idx: f(fm(idx)))
    return scalarize(out)


def _fdt(x):
    if _is_arr(x):
        return x.dtype if x.kind in 'fc' else float64
    return float64


def _out(res, out, where=True, dtype=None, **k):
    for kk in k:
        if kk not in ('casting', 'order', 'subok'):
            raise Unsupported(f'ufunc kw {kk}')
    if dtype is not None:
        dt = as_dtype(dtype)
        res = res.astype(dt) if _is_arr(res) else cast_scalar(res, dt)
    if out is None:
        if where is not True:
            raise Unsupported('ufunc where without out')
        return res
    if isinstance(out, tuple):
        out = out[0]
    res = res if _is_arr(res) else array(res)
    if not can_cast_same_kind(res.dtype, out.dtype):
        raise TypeError('Cannot cast ufunc output')
    check_same_shape_for_out(res, out)
    rr = res.reader()
    rs, osh = res.shape, out.shape
    fn = lambda idx: rr(bcast_idx(idx, rs, osh))
    if where is not True:
        w = as_arr(where)
        wr, ws = w.reader(), w.shape
        old = out.reader()
        fn0 = fn
        fn = lambda idx: s_ite(wr(bcast_idx(idx, ws, osh)), fn0(idx), old(idx))
    out._write_all(fn)
    return out


def _mk1(f, fdt=None):
    def u(x, out=None, **k):
        if isinstance(x, (list, tuple)):
            x = array(x)
        dt = (fdt or _fdt)(x) if not isinstance(fdt, DT) else fdt
        return _out(ufunc1(f, x, dt), out, **k)
    return u


def _same(x):
    return x.dtype if _is_arr(x) else _KIND_DT[kind_of(norm_const(x))]


def _realdt(x):
    d = _same(x)
    if d.kind == 'c':
        return float32 if d == complex64 else float64
    return d


for _n in ('sin', 'cos', 'tan', 'exp', 'log', 'log10', 'log2', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh',
           'expm1', 'log1p'):
    globals()[_n] = _mk1((lambda n: (lambda x: T.s_fun(n, x)))(_n))
sqrt = _mk1(T.s_sqrt)
cbrt = _mk1(lambda x: T.s_fun('cbrt', x))
abs = absolute = fabs = _mk1(T.s_abs, _realdt)
floor = _mk1(lambda x: cast_scalar(T.s_floor(x), float64) if kind_of(x) == 'f' else x)
ceil = _mk1(lambda x: cast_scalar(T.s_ceil(x), float64) if kind_of(x) == 'f' else x)
fix = trunc = _mk1(lambda x: cast_scalar(T.s_trunc(x), float64) if kind_of(x) == 'f' else x)
rint = _mk1(lambda x: T.s_round(x, 0) if kind_of(x) == 'f' else x)
sign = _mk1(T.s_sign, _same)
negative = _mk1(lambda x: scalar_op('-', 0, x), _same)
positive = _mk1(lambda x: x, _same)
square = _mk1(lambda x: scalar_op('*', x, x), _same)
reciprocal = _mk1(lambda x: scalar_op('/', Fraction(1), x))
conj = conjugate = _mk1(lambda x: x.conjugate() if isinstance(x, SymCplx) else x, _same)
isnan = _mk1(lambda x: isinstance(x, float) and x != x, bool_)
isinf = _mk1(lambda x: isinstance(x, float) and _math.isinf(x), bool_)
isfinite = _mk1(lambda x: not isinstance(x, float), bool_)
logical_not = _mk1(lambda x: s_not(cast_scalar(x, bool_)), bool_)
radians = deg2rad = _mk1(lambda x: scalar_op('*', x, scalar_op('/', T.pi(), 180)))
degrees = rad2deg = _mk1(lambda x: scalar_op('*', x, scalar_op('/', 180, T.pi())))


def _around(x, decimals=0, out=None):
    if _is_arr(x) and x.kind in 'bi':
        return _out(x.copy(), out)
    r = ufunc1(lambda v: T.s_round(v, decimals), x, _same(x))
    return NpFrac(r) if isinstance(r, Fraction) and out is None else _out(r, out)


class NpFrac(Fraction):
    """A constant returned by a numpy function: numpy scalars have the array methods."""
    ndim, shape, size = 0, (), 1

    def astype(self, dt, copy=True):
        return cast_scalar(Fraction(self), as_dtype(dt))

    def item(self):
        return Fraction(self)


round_ = around = round = _around


def angle(z, deg=False):
    def f(v):
        return mk_real(uf('atan2', T.R, T.R, T.R)(zreal(T.s_imag(v)), zreal(T.s_real(v))))
    return ufunc1(f, z, _realdt(z) if _same(z).kind == 'c' else float64)


def real(x):
    if not _is_arr(x):
        return T.s_real(norm_const(x))
    if x.kind != 'c':
        return x
    return _cview(x, 0)


def imag(x):
    if not _is_arr(x):
        return T.s_imag(norm_const(x))
    if x.kind != 'c':
        return zeros(x.shape, dtype=x.dtype)
    return _cview(x, 1)


class _CView(SymArray):
    """Read/write view on the real or imaginary part."""
    def __init__(self, src, part):
        self._shape = src.shape
        self.src = src
        self.part = part
        self.view = None
        self._dt = _realdt(src)

    @property
    def dtype(self):
        return self._dt

    @property
    def kind(self):
        return 'f'

    @property
    def store(self):
        # materialised copy for reading through generic paths
        from .arr import Store
        st = Store(self._shape, self.reader(), self._dt)
        return st

    def at(self, idx):
        v = self.src.at(idx)
        return cast_scalar(T.s_real(v) if self.part == 0 else T.s_imag(v), self._dt)

    def reader(self):
        r = self.src.reader()
        if self.part == 0:
            return Memo(lambda idx: cast_scalar(T.s_real(r(idx)), self._dt))
        return Memo(lambda idx: cast_scalar(T.s_imag(r(idx)), self._dt))

    def _write_all(self, fn):
        old = self.src.reader()
        if self.part == 0:
            self.src._write_all(lambda idx: SymCplx(fn(idx), T.s_imag(old(idx))))
        else:
            self.src._write_all(lambda idx: SymCplx(T.s_real(old(idx)), fn(idx)))

    def __setitem__(self, key, value):
        c = self.copy()
        c[key] = value
        self._write_all(c.reader())


def _cview(x, part):
    return _CView(x, part)


def _mk2(op, dt=None, f=None):
    def u(a, b, out=None, dtype=None, **k):
        return _out(binop(op, a, b, dt=dt, f=f), out, dtype=dtype, **k)
    return u


add = _mk2('+'); subtract = _mk2('-'); multiply = _mk2('*'); divide = true_divide = _mk2('/')
floor_divide = _mk2('//'); mod = remainder = _mk2('%'); power = float_power = _mk2('**')
less = _mk2('<'); less_equal = _mk2('<='); greater = _mk2('>'); greater_equal = _mk2('>=')
equal = _mk2('=='); not_equal = _mk2('!=')
bitwise_and = _mk2('&'); bitwise_or = _mk2('|')
_b = lambda x: cast_scalar(x, bool_)
logical_and = _mk2('l&', dt=bool_, f=lambda x, y: s_and(_b(x), _b(y)))
logical_or = _mk2('l|', dt=bool_, f=lambda x, y: s_or(_b(x), _b(y)))
logical_xor = _mk2('l^', dt=bool_, f=lambda x, y: scalar_op('!=', _b(x), _b(y)))
minimum = fmin = _mk2('min', f=T.s_min)
maximum = fmax = _mk2('max', f=T.s_max)


def arctan2(a, b, out=None):
    f = lambda y, x: mk_real(uf('atan2', T.R, T.R, T.R)(zreal(y), zreal(x)))
    return _out(binop('atan2', a, b, dt=float64 if not (_is_arr(a) or _is_arr(b)) else (
        op_dtype(a, b) if op_dtype(a, b).kind == 'f' else float64), f=f), out)


def hypot(a, b):
    return sqrt(add(square(a), square(b)))


def clip(a, a_min=None, a_max=None, out=None, min=None, max=None):
    if a_min is None:
        a_min = min
    if a_max is None:
        a_max = max
    r = a
    if a_min is not None:
        r = maximum(r, a_min)
    if a_max is not None:
        r = minimum(r, a_max)
    if r is a and _is_arr(a):
        r = a.copy()
    if _is_arr(r) and _is_arr(a) and r.dtype != a.dtype and a.kind == r.kind:
        r = r.astype(a.dtype)
    return _out(r, out)


def where(c, a=None, b=None):
    if a is None and b is None:
        return nonzero(c)
    if not _is_arr(c) and not _is_arr(a) and not _is_arr(b):
        return s_ite(_b(c), a, b)
    c, a0, b0 = as_arr(c), a, b
    dt = op_dtype(a if _is_arr(a) else norm_const(a), b if _is_arr(b) else norm_const(b)) \
        if (not isinstance(a, (list, tuple)) and not isinstance(b, (list, tuple))) else None
    a, b = as_arr(a), as_arr(b)
    if dt is None:
        dt = promote(a.dtype, b.dtype)
    sh = broadcast_shapes_(c.shape, a.shape, b.shape)
    rc, ra, rb = c.reader(), a.reader(), b.reader()
    sc, sa, sb = c.shape, a.shape, b.shape

    def f(idx):
        cc = _b(rc(bcast_idx(idx, sc, sh)))
        if cc is True:
            return cast_scalar(ra(bcast_idx(idx, sa, sh)), dt)
        if cc is False:
            return cast_scalar(rb(bcast_idx(idx, sb, sh)), dt)
        return s_ite(cc, cast_scalar(ra(bcast_idx(idx, sa, sh)), dt), cast_scalar(rb(bcast_idx(idx, sb, sh)), dt))
    return SymArray(sh, f, dt)


def choose_cond(*a, **k):
    raise Unsupported('choose')


# ---------------------------------------------------------------- creation
def norm_shape(shape):
    if isinstance(shape, SymArray):
        shape = tuple(shape)
    if isinstance(shape, (_int, SymInt)):
        shape = (shape,)
    if hasattr(shape, '_is_symseq'):
        shape = tuple(shape)
    r = []
    for d in shape:
        d = norm_const(d)
        if isinstance(d, SymArray):
            d = d.item()
        if isinstance(d, (Fraction, SymReal, float)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(d, SymInt):
            if CTX.fork(d.t < 0):
                raise ValueError('negative dimensions are not allowed')
        elif d < 0:
            raise ValueError('negative dimensions are not allowed')
        r.append(d)
    return tuple(r)


def const_array(shape, v, dt):
    v = cast_scalar(v, dt)
    return SymArray(shape, lambda idx: v, dt)


def zeros(shape, dtype=None, order='C', **k):
    dt = as_dtype(dtype) or float64
    return const_array(norm_shape(shape), 0, dt)


def ones(shape, dtype=None, order='C', **k):
    dt = as_dtype(dtype) or float64
    return const_array(norm_shape(shape), 1, dt)


def empty(shape, dtype=None, order='C', **k):
    dt = as_dtype(dtype) or float64
    return ho.fresh_array('empty', norm_shape(shape), dt)


def full(shape, fill_value, dtype=None, order='C', **k):
    shape = norm_shape(shape)
    if isinstance(fill_value, (list, tuple)):
        fill_value = array(fill_value)
    if _is_arr(fill_value):
        dt = as_dtype(dtype) or fill_value.dtype
        r = SymArray(shape, lambda idx: cast_scalar(0, dt), dt)
        r[...] = fill_value
        return r
    fill_value = norm_const(fill_value)
    dt = as_dtype(dtype) or _KIND_DT[kind_of(fill_value)]
    return const_array(shape, fill_value, dt)


def _like(a, dtype, shape):
    a = as_arr(a)
    return (a.shape if shape is None else norm_shape(shape)), (as_dtype(dtype) or a.dtype)


def zeros_like(a, dtype=None, shape=None, **k):
    s, d = _like(a, dtype, shape)
    return const_array(s, 0, d)


def ones_like(a, dtype=None, shape=None, **k):
    s, d = _like(a, dtype, shape)
    return const_array(s, 1, d)


def empty_like(a, dtype=None, shape=None, **k):
    s, d = _like(a, dtype, shape)
    return ho.fresh_array('empty', s, d)


def full_like(a, v, dtype=None, shape=None, **k):
    s, d = _like(a, dtype, shape)
    return full(s, v, dtype=d)


def from_elements(shape, flat, dt):
    """Array from an explicit flat list of scalars (concrete shape)."""
    n = len(flat)
    strides = []
    acc = 1
    for d in reversed(shape):
        strides.append(acc)
        acc *= d
    strides = list(reversed(strides))

    def f(idx):
        if _all(isinstance(i, _int) for i in idx):
            p = _sum(i * s for i, s in zip(idx, strides))
            if 0 <= p < n and _all(0 <= i < d for i, d in zip(idx, shape)):
                return flat[p]
            return cast_scalar(0, dt)
        if n > 600:
            raise Unsupported('symbolic index into a large explicit array')

        def pick(j, base):
            if j == len(shape):
                return flat[base]
            i = idx[j]
            if isinstance(i, _int):
                if not 0 <= i < shape[j]:
                    return cast_scalar(0, dt)
                return pick(j + 1, base + i * strides[j])
            r = None
            for v in range(shape[j] - 1, -1, -1):
                e = pick(j + 1, base + v * strides[j])
                r = e if r is None else s_ite(scalar_op('==', i, v), e, r)
            return r if r is not None else cast_scalar(0, dt)
        return pick(0, 0)
    return SymArray(shape, f, dt)


def array(x, dtype=None, copy=True, order=None, ndmin=0, **k):
    dt = as_dtype(dtype)
    if _is_arr(x):
        r = x.astype(dt) if (dt is not None and dt != x.dtype) else (x.copy() if copy else x)
    elif isinstance(x, _np.ndarray):
        r = from_numpy(x)
        if dt is not None:
            r = r.astype(dt)
    elif hasattr(x, '_is_symseq'):
        r = x.to_array()
        if dt is not None:
            r = r.astype(dt)
    else:
        if isinstance(x, (range, map, zip)) or hasattr(x, '__next__'):
            x = list(x)
        if isinstance(x, (list, tuple)):
            shape, flat, dts = _collect(x)
            if shape is None:
                # list of arrays with symbolic shapes
                return _stack_list(x, dt)
            if dt is None:
                if dts:
                    dt = promote(*dts) if dts else float64
                else:
                    dt = float64
            flat = [cast_scalar(v, dt) for v in flat]
            r = from_elements(shape, flat, dt)
        else:
            x = norm_const(x)
            if isinstance(x, str) or x is None or kind_of(x) == 'O':
                if x is None or isinstance(x, str) or isinstance(x, dict):
                    raise Unsupported(f'array of object {type(x).__name__}')
                raise Unsupported(f'array of {type(x).__name__}')
            if dt is None:
                dt = _KIND_DT[kind_of(x)]
            v = cast_scalar(x, dt)
            r = SymArray((), lambda idx: v, dt)
    while r.ndim < ndmin:
        r = r[None]
    return r


def _collect(x):
    """shape, flat element list, element dtypes of nested lists (concrete shape)."""
    if _is_arr(x):
        c = x.concrete_size()
        if c is None:
            return None, None, None
        rd = x.reader()
        return x.shape, [rd(i) for i in itertools.product(*[range(d) for d in x.shape])], [x.dtype]
    if hasattr(x, '_is_symseq'):
        return None, None, None
    if isinstance(x, _np.ndarray):
        return _collect(from_numpy(x))
    if isinstance(x, (list, tuple)):
        if not x:
            return (0,), [], []
        subs = [_collect(e) for e in x]
        if _any(s[0] is None for s in subs):
            return None, None, None
        sh = subs[0][0]
        if _any(s[0] != sh for s in subs):
            raise ValueError('setting an array element with a sequence. inhomogeneous shape')
        dts = set()
        for s in subs:
            dts.update(s[2])
        return (len(x),) + tuple(sh), [v for s in subs for v in s[1]], list(dts)
    x = norm_const(x)
    if x is None:
        raise Unsupported('array from None')
    k = kind_of(x)
    if k == 'O':
        raise Unsupported(f'array of {type(x).__name__}')
    return (), [x], [_KIND_DT[k]]


def _stack_list(x, dt):
    arrs = [as_arr(e) for e in x]
    r = stack(arrs, axis=0)
    return r if dt is None else r.astype(dt)


def from_numpy(x):
    dt = as_dtype(x.dtype)
    flat = [norm_const(v) for v in x.ravel().tolist()]
    return from_elements(tuple(x.shape), flat, dt)


def asarray(x, dtype=None, **k):
    if _is_arr(x) and (dtype is None or as_dtype(dtype) == x.dtype):
        return x
    return array(x, dtype=dtype)


ascontiguousarray = asanyarray = asfortranarray = asarray


def atleast_1d(x):
    x = as_arr(x)
    return x.reshape(1) if x.ndim == 0 else x


def atleast_2d(x):
    x = as_arr(x)
    if x.ndim == 0:
        return x.reshape(1, 1)
    return x[None, :] if x.ndim == 1 else x


def arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    start, stop, step = norm_const(start), norm_const(stop), norm_const(step)
    ks = [kind_of(start), kind_of(stop), kind_of(step)]
    dt = as_dtype(dtype)
    if 'f' in ks:
        n = T.s_ceil(scalar_op('/', scalar_op('-', stop, start), step))
        edt = float64
    else:
        d = scalar_op('-', stop, start)
        if isinstance(step, _int) and step == 1:
            n = d
        elif isinstance(step, _int) and step > 0:
            n = scalar_op('//', scalar_op('+', d, step - 1), step)
        elif isinstance(step, _int) and step < 0:
            n = scalar_op('//', scalar_op('+', scalar_op('-', 0, d), -step - 1), -step)
        else:
            n = T.s_ceil(scalar_op('/', d, step))
        edt = int64
    if isinstance(n, _int):
        n = _max(n, 0)
    elif CTX.fork(n.t < 0):
        n = 0
    dt = dt or edt
    a = SymArray((n,), lambda idx: cast_scalar(scalar_op('+', start, scalar_op('*', idx[0], step)), dt), dt)
    if isinstance(step, _int) and step == 1 and dt.kind == 'i':
        st, ln = start, n
        a.inverse = lambda b: (s_and(scalar_op('>=', b, st), scalar_op('<', b, scalar_op('+', st, ln))),
                               scalar_op('-', b, st))
    return a


def linspace(start, stop, num=50, endpoint=True, dtype=None, retstep=False):
    start, stop = norm_const(start), norm_const(stop)
    if _is_arr(start):
        start = start.item()
    if _is_arr(stop):
        stop = stop.item()
    div = scalar_op('-', num, 1) if endpoint else num
    dt = as_dtype(dtype) or float64
    d = scalar_op('-', stop, start)
    if isinstance(div, _int) and div <= 0:
        step = Fraction(0)
    else:
        step = scalar_op('/', cast_scalar(d, float64), div)
    a = SymArray(norm_shape(num), lambda idx: cast_scalar(scalar_op('+', start, scalar_op('*', idx[0], step)), dt), dt)
    return (a, step) if retstep else a


def logspace(*a, **k):
    return power(Fraction(10), linspace(*a, **k))


def eye(n, m=None, k=0, dtype=None):
    m = n if m is None else m
    dt = as_dtype(dtype) or float64
    return SymArray(norm_shape((n, m)), lambda idx: cast_scalar(
        s_ite(scalar_op('==', scalar_op('-', idx[1], idx[0]), k), 1, 0), dt), dt)


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def diag(v, k=0):
    v = as_arr(v)
    r = v.reader()
    if v.ndim == 1:
        if k != 0:
            raise Unsupported('diag k')
        n = v.shape[0]
        z = cast_scalar(0, v.dtype)
        return SymArray((n, n), lambda idx: s_ite(scalar_op('==', idx[0], idx[1]), r((idx[0],)), z), v.dtype)
    return diagonal(v, k)


def diagonal(v, offset=0):
    if offset != 0 or v.ndim != 2:
        raise Unsupported('diagonal offset')
    n = v.shape[0] if same_int(*v.shape) else T.s_min(*v.shape)
    r = v.reader()
    return SymArray((n,), lambda idx: r((idx[0], idx[0])), v.dtype)


def fill_diagonal(a, v):
    old = a.reader()
    v = norm_const(v)
    a._write_all(lambda idx: s_ite(scalar_op('==', idx[0], idx[1]), v, old(idx)))


def trace(a):
    return sum(diagonal(a))


def meshgrid(*xs, indexing='xy', sparse=False, copy=True):
    xs = [as_arr(x) for x in xs]
    n = len(xs)
    dims = [x.shape[0] for x in xs]
    if indexing == 'xy' and n >= 2:
        dims = [dims[1], dims[0]] + dims[2:]
    out = []
    for j, x in enumerate(xs):
        ax = j
        if indexing == 'xy' and n >= 2 and j < 2:
            ax = 1 - j
        r = x.reader()
        out.append(SymArray(tuple(dims), (lambda r, ax: (lambda idx: r((idx[ax],))))(r, ax), x.dtype))
    return out


class _Grid:
    def __init__(self, sparse=False):
        self.sparse = sparse

    def __getitem__(self, key):
        single = not isinstance(key, tuple)
        key = (key,) if single else key
        axes = []
        for s in key:
            st = s.start if s.start is not None else 0
            if isinstance(s.step, complex):
                axes.append(linspace(st, s.stop, _int(_abs(s.step))))
            else:
                axes.append(arange(st, s.stop, 1 if s.step is None else s.step))
        if single:
            return axes[0]
        dims = tuple(a.shape[0] for a in axes)
        dt = promote(*[a.dtype for a in axes])
        rs = [a.reader() for a in axes]
        if self.sparse:
            raise Unsupported('ogrid')

        def f(idx):
            out = None
            for j in range(len(rs) - 1, -1, -1):
                v = cast_scalar(rs[j]((idx[j + 1],)), dt)
                out = v if out is None else s_ite(scalar_op('==', idx[0], j), v, out)
            return out
        return SymArray((len(axes),) + dims, f, dt)


mgrid = _Grid()


class _S:
    def __getitem__(self, k):
        return k


s_ = index_exp = _S()


def indices(dims, dtype=None):
    return mgrid[tuple(slice(0, d) for d in dims)]


def ix_(*xs):
    out = []
    n = len(xs)
    for j, x in enumerate(xs):
        x = as_arr(x)
        if x.kind == 'b':
            x = nonzero(x)[0]
        sh = [1] * n
        sh[j] = x.shape[0]
        r = x.reader()
        a = SymArray(tuple(sh), (lambda r, j: (lambda idx: r((idx[j],))))(r, j), x.dtype)
        if getattr(x, 'inverse', None) is not None:
            a.inverse = x.inverse
        if getattr(x, 'in_range_of', None) is not None:
            a.in_range_of = x.in_range_of
        out.append(a)
    return tuple(out)


# ---------------------------------------------------------------- shape manipulation
def _flat_index(idx, shape):
    """Row-major flat index, structurally tagged."""
    f = None
    for i, n in zip(idx, shape):
        if f is None:
            f = i
            continue
        hi, lo = f, i
        v = scalar_op('+', scalar_op('*', hi, n), lo)
        if isinstance(v, SymInt):
            v = SymInt(v.t, ('div', hi, n, lo))
        f = v
    return 0 if f is None else f


def _unflat(k, shape):
    """Inverse of _flat_index."""
    out = []
    for n in reversed(shape[1:]):
        if isinstance(n, _int) and n == 1:
            out.append(0)
            continue
        out.append(T.int_mod(k, n) if not (isinstance(k, _int) and isinstance(n, _int) and n > 0) else k % n)
        k = T.int_div(k, n) if not (isinstance(k, _int) and isinstance(n, _int) and n > 0) else k // n
    if shape:
        out.append(k)
    return tuple(reversed(out))


def _strip1(shape):
    return [d for d in shape if not (isinstance(d, _int) and d == 1)]


def reshape_view(a, shape, order='C'):
    if order not in ('C', 'A', None):
        raise Unsupported('reshape order')
    shape = [norm_const(d) for d in shape]
    for d in shape:
        if isinstance(d, (Fraction, SymReal)):
            raise TypeError("'float' object cannot be interpreted as an integer")
    neg = [i for i, d in enumerate(shape) if isinstance(d, _int) and d == -1]
    src = a.shape
    if len(neg) > 1:
        raise ValueError('can only specify one unknown dimension')
    if neg:
        others = [d for i, d in enumerate(shape) if i != neg[0]]
        rem = list(src)
        left = []
        for d in others:                      # cancel structurally equal dims first
            for i, e in enumerate(rem):
                if same_int(d, e):
                    rem.pop(i)
                    break
            else:
                left.append(d)
        p = dim_prod(rem)
        q = dim_prod(left)
        if isinstance(q, _int) and q == 1:
            shape[neg[0]] = p
        else:
            if not CTX.fork(zbool(scalar_op('==', scalar_op('%', p, q), 0))):
                raise ValueError('cannot reshape array')
            shape[neg[0]] = scalar_op('//', p, q)
    else:
        p, q = dim_prod(src), dim_prod(shape)
        if not same_int(p, q):
            if isinstance(p, _int) and isinstance(q, _int):
                raise ValueError(f'cannot reshape array of size {p} into shape {tuple(shape)}')
            if not CTX.fork(zbool(scalar_op('==', p, q))):
                raise ValueError(f'cannot reshape array into shape {tuple(shape)}')
    shape = tuple(shape)
    s1, s2 = _strip1(src), _strip1(shape)
    if len(s1) == len(s2) and _all(same_int(x, y) for x, y in zip(s1, s2)):
        # only unit axes inserted/removed
        def m(frm, to):
            fpos = [i for i, d in enumerate(frm) if not (isinstance(d, _int) and d == 1)]
            tpos = [i for i, d in enumerate(to) if not (isinstance(d, _int) and d == 1)]

            def f(idx):
                r = [0] * len(to)
                for x, y in zip(fpos, tpos):
                    r[y] = idx[x]
                return tuple(r)
            return f
        ts, fs = m(shape, src), m(src, shape)
        return a.mkview(shape, ts, lambda s: (True, fs(s)))
    # runs of axes with the same product stay separate
    groups = []
    i = j = 0
    while i < len(src) and j < len(shape):
        hit = None
        for tot in range(2, len(src) - i + len(shape) - j + 1):
            for ni in range(1, tot):
                nj = tot - ni
                if i + ni <= len(src) and j + nj <= len(shape) and same_int(dim_prod(src[i:i + ni]), dim_prod(shape[j:j + nj])):
                    hit = (ni, nj)
                    break
            if hit:
                break
        if not hit:
            break
        groups.append((i, i + hit[0], j, j + hit[1]))
        i, j = i + hit[0], j + hit[1]
    one = lambda d: isinstance(d, _int) and d == 1
    if (i < len(src) or j < len(shape)) and not (_all(one(d) for d in src[i:]) and _all(one(d) for d in shape[j:])):
        if groups:
            groups[-1] = (groups[-1][0], len(src), groups[-1][2], len(shape))
            if not (i < len(src) and j < len(shape)):
                pass
            elif same_int(dim_prod(src[i:]), dim_prod(shape[j:])):
                groups[-1] = (groups[-1][0], i, groups[-1][2], j)
                groups.append((i, len(src), j, len(shape)))
        else:
            groups = [(0, len(src), 0, len(shape))]
    elif i < len(src) or j < len(shape):
        if groups:
            groups[-1] = (groups[-1][0], len(src), groups[-1][2], len(shape))
        else:
            groups = [(0, len(src), 0, len(shape))]

    def conv(idx, frm, to, side):
        r = []
        for g in groups:
            f0, f1, t0, t1 = g if side else (g[2], g[3], g[0], g[1])
            if f1 - f0 == 1 and t1 - t0 == 1:
                r.append(idx[f0])
            else:
                r += list(_unflat(_flat_index(idx[f0:f1], frm[f0:f1]), to[t0:t1]))
        return tuple(r)

    def to_src(idx):
        return conv(idx, shape, src, False)

    def from_src(s):
        return True, conv(s, src, shape, True)
    return a.mkview(shape, to_src, from_src)


def reshape(a, shape, order='C'):
    return as_arr(a).reshape(shape, order=order)


def ravel(a, order='C'):
    return as_arr(a).ravel(order)


def squeeze(a, axis=None):
    a = as_arr(a)
    if axis is None:
        drop = [i for i, d in enumerate(a.shape) if isinstance(d, _int) and d == 1]
        for i, d in enumerate(a.shape):
            if not isinstance(d, _int) and CTX.fork(zbool(scalar_op('==', d, 1))):
                drop.append(i)
    else:
        drop = [axis % a.ndim] if isinstance(axis, _int) else [x % a.ndim for x in axis]
    key = tuple(0 if i in drop else slice(None) for i in range(a.ndim))
    sp = [d for i, d in enumerate(a.shape) if i not in drop]
    keep = [i for i in range(a.ndim) if i not in drop]

    def ts(idx):
        r = [0] * a.ndim
        for x, i in zip(keep, idx):
            r[x] = i
        return tuple(r)
    return a.mkview(tuple(sp), ts, lambda s: (True, tuple(s[x] for x in keep)))


def expand_dims(a, axis):
    a = as_arr(a)
    axis = axis % (a.ndim + 1)
    return a[tuple([slice(None)] * axis + [None])]


def transpose(a, axes=None):
    return as_arr(a).transpose(axes)


def swapaxes(a, i, j):
    return as_arr(a).swapaxes(i, j)


def moveaxis(a, s, d):
    n = a.ndim
    s, d = s % n, d % n
    order = [i for i in range(n) if i != s]
    order.insert(d, s)
    return a.transpose(order)


def _index_map(a, f, shape=None):
    """Copy of a with elements at f(idx)."""
    r = a.reader()
    return SymArray(shape if shape is not None else a.shape, lambda idx: r(f(idx)), a.dtype)


def flip(a, axis=None):
    a = as_arr(a)
    ax = range(a.ndim) if axis is None else ([axis] if isinstance(axis, _int) else axis)
    return a[tuple(slice(None, None, -1) if i in [x % a.ndim for x in ax] else slice(None) for i in range(a.ndim))]


def flipud(a):
    return flip(a, 0)


def fliplr(a):
    return flip(a, 1)


def rot90(a, k=1, axes=(0, 1)):
    a = as_arr(a)
    k = norm_const(k)
    if isinstance(k, SymInt):
        k = k.__index__()
    k = k % 4
    x, y = axes
    if k == 0:
        return a
    if k == 2:
        return flip(flip(a, x), y)
    tr = list(range(a.ndim))
    tr[x], tr[y] = tr[y], tr[x]
    if k == 1:
        return flip(a, y).transpose(tr)
    return flip(a.transpose(tr), y)


def roll(a, shift, axis=None):
    a = as_arr(a)
    if _is_arr(shift):
        shift = tuple(shift) if shift.ndim else shift.item()
    if axis is None:
        return roll(a.ravel(), shift, 0).reshape(a.shape)
    if isinstance(axis, (tuple, list)):
        sh = shift if isinstance(shift, (tuple, list)) else (shift,) * len(axis)
        for s, x in zip(sh, axis):
            a = roll(a, s, x)
        return a
    axis = axis % a.ndim
    n = a.shape[axis]
    shift = norm_const(shift)

    def f(idx):
        i = scalar_op('-', idx[axis], shift)
        if isinstance(shift, _int) and not (isinstance(i, _int) and isinstance(n, _int)):
            # one wrap suffices when |shift| <= n
            if isinstance(n, _int) and _abs(shift) <= n or not isinstance(n, _int) and CTX.entails(zint(n) >= _abs(shift)):
                if shift > 0:
                    j = s_ite(scalar_op('<', i, 0), scalar_op('+', i, n), i)
                elif shift < 0:
                    j = s_ite(scalar_op('>=', i, n), scalar_op('-', i, n), i)
                else:
                    j = i
                return tuple(idx[:axis]) + (j,) + tuple(idx[axis + 1:])
        j = scalar_op('%', i, n)
        return tuple(idx[:axis]) + (j,) + tuple(idx[axis + 1:])
    return _index_map(a, f)


def repeat(a, repeats, axis=None):
    a = as_arr(a)
    if isinstance(repeats, (list, tuple)):
        repeats = array(repeats)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis = axis % a.ndim
    if _is_arr(repeats) and repeats.ndim == 0:
        repeats = repeats.item()
    if _is_arr(repeats):
        if isinstance(repeats.shape[0], _int) and repeats.shape[0] == 1:
            repeats = repeats[0]
        else:
            n = repeats.shape[0]
            if not isinstance(n, _int):
                raise Unsupported('repeat with a symbolic number of counts')
            parts = []
            for j in range(n):
                c = repeats[j]
                sl = a[tuple([slice(None)] * axis + [slice(j, j + 1)])]
                parts.append(repeat(sl, c, axis))
            return concatenate(parts, axis=axis)
    m = repeats
    n = a.shape[axis]
    if isinstance(m, _int) and m < 0:
        raise ValueError('repeats may not contain negative values.')
    if isinstance(n, _int) and n == 1:
        sh = a.shape[:axis] + (m,) + a.shape[axis + 1:]
        sh = norm_shape(sh)
        return _index_map(a, lambda idx: tuple(idx[:axis]) + (0,) + tuple(idx[axis + 1:]), sh)
    sh = a.shape[:axis] + (scalar_op('*', n, m),) + a.shape[axis + 1:]
    return _index_map(a, lambda idx: tuple(idx[:axis]) + (scalar_op('//', idx[axis], m),) + tuple(idx[axis + 1:]), sh)


def tile(a, reps):
    a = as_arr(a)
    reps = tuple(reps) if isinstance(reps, (list, tuple)) or (_is_arr(reps) and reps.ndim) else (reps,)
    while len(reps) < a.ndim:
        reps = (1,) + reps
    while a.ndim < len(reps):
        a = a[None]
    src = a.shape
    sh = tuple(scalar_op('*', n, m) for n, m in zip(src, reps))

    def f(idx):
        return tuple(i if isinstance(m, _int) and m == 1 else (0 if isinstance(n, _int) and n == 1 else scalar_op('%', i, n))
                     for i, n, m in zip(idx, src, reps))
    return _index_map(a, f, sh)


def broadcast_to(a, shape):
    a = as_arr(a)
    shape = norm_shape(shape)
    check_broadcast_to(a.shape, shape)
    sa = a.shape
    return _index_map(a, lambda idx: bcast_idx(idx, sa, shape), shape)


def concatenate(xs, axis=0, out=None, dtype=None):
    if hasattr(xs, '_is_symseq'):
        raise Unsupported('concatenate a symbolic list')
    xs = [as_arr(x) for x in xs]
    if not xs:
        raise ValueError('need at least one array to concatenate')
    if axis is None:
        xs = [x.ravel() for x in xs]
        axis = 0
    nd = xs[0].ndim
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    axis = axis % nd
    for x in xs[1:]:
        if x.ndim != nd:
            raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
        for j in range(nd):
            if j != axis and not same_int(x.shape[j], xs[0].shape[j]):
                if not CTX.fork(zbool(scalar_op('==', x.shape[j], xs[0].shape[j]))):
                    raise ValueError('all the input array dimensions must match exactly')
    dt = as_dtype(dtype) or promote(*[x.dtype for x in xs])
    if len(xs) == 1:
        return xs[0].astype(dt)
    offs = []
    tot = 0
    for x in xs:
        offs.append(tot)
        tot = scalar_op('+', tot, x.shape[axis])
    rs = [x.reader() for x in xs]
    ends = offs[1:] + [tot]

    def f(idx):
        i = idx[axis]
        if isinstance(i, _int) and _all(isinstance(e, _int) for e in ends):
            for q, e in enumerate(ends):
                if i < e:
                    return cast_scalar(rs[q](tuple(idx[:axis]) + (i - offs[q],) + tuple(idx[axis + 1:])), dt)
            return cast_scalar(0, dt)
        res = None
        for q in range(len(rs) - 1, -1, -1):
            c = True if q == len(rs) - 1 else scalar_op('<', i, ends[q])
            if c is False:
                continue
            if res is not None and is_sym(c) and not CTX.bound:
                pass
            v = cast_scalar(rs[q](tuple(idx[:axis]) + (scalar_op('-', i, offs[q]),) + tuple(idx[axis + 1:])), dt)
            res = v if c is True or res is None else s_ite(c, v, res)
        return res
    sh = xs[0].shape[:axis] + (tot,) + xs[0].shape[axis + 1:]
    out = SymArray(sh, f, dt)
    if nd == 1 and not isinstance(tot, _int):
        out.parts = lambda: [SymArray(x.shape, r, x.dtype) for x, r in zip(xs, rs)]
    return out


def stack(xs, axis=0, out=None):
    if hasattr(xs, '_is_symseq'):
        r = xs.to_array()
        return moveaxis(r, 0, axis) if axis else r
    xs = [as_arr(x) for x in xs]
    if not xs:
        raise ValueError('need at least one array to stack')
    for x in xs[1:]:
        if x.ndim != xs[0].ndim:
            raise ValueError('all input arrays must have the same shape')
        for d, e in zip(x.shape, xs[0].shape):
            if not same_int(d, e) and not CTX.fork(zbool(scalar_op('==', d, e))):
                raise ValueError('all input arrays must have the same shape')
    axis = axis % (xs[0].ndim + 1)
    return concatenate([expand_dims(x, axis) for x in xs], axis=axis)


def vstack(xs):
    if hasattr(xs, '_is_symseq'):
        return xs.to_array()
    return concatenate([atleast_2d(x) for x in xs], axis=0)


def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, axis=0 if xs[0].ndim == 1 else 1)


def dstack(xs):
    ys = []
    for x in xs:
        x = atleast_2d(x)
        ys.append(x if x.ndim == 3 else x[:, :, None])
    return concatenate(ys, axis=2)


def column_stack(xs):
    ys = []
    for x in xs:
        x = as_arr(x)
        ys.append(x[:, None] if x.ndim < 2 else x)
    return concatenate(ys, axis=1)


def append(a, v, axis=None):
    if axis is None:
        return concatenate([ravel(a), ravel(v)])
    return concatenate([a, v], axis=axis)


def delete(a, i, axis=None):
    a = as_arr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    n = a.shape[axis]
    if not isinstance(i, (_int, SymInt)):
        raise Unsupported('delete with an index list')
    if isinstance(i, _int) and i < 0:
        i = scalar_op('+', n, i)
    sh = a.shape[:axis] + (scalar_op('-', n, 1),) + a.shape[axis + 1:]
    return _index_map(a, lambda idx: tuple(idx[:axis]) + (
        s_ite(scalar_op('<', idx[axis], i), idx[axis], scalar_op('+', idx[axis], 1)),) + tuple(idx[axis + 1:]), sh)


def pad(a, pw, mode='constant', constant_values=0, **k):
    a = as_arr(a)
    if mode != 'constant':
        raise Unsupported('pad mode ' + mode)
    if isinstance(pw, (_int, SymInt)):
        pw = [(pw, pw)] * a.ndim
    elif isinstance(pw[0], (_int, SymInt)):
        pw = [tuple(pw)] * a.ndim
    sh = tuple(scalar_op('+', n, scalar_op('+', b, e)) for n, (b, e) in zip(a.shape, pw))
    for (b, e) in pw:
        for v in (b, e):
            if isinstance(v, _int):
                if v < 0:
                    raise ValueError("index can't contain negative values")
            elif CTX.fork(v.t < 0):
                raise ValueError("index can't contain negative values")
    r, src = a.reader(), a.shape
    cv = cast_scalar(constant_values, a.dtype)

    def f(idx):
        j = tuple(scalar_op('-', i, b) for i, (b, e) in zip(idx, pw))
        c = idx_in(j, src)
        if c is False:
            return cv
        return s_ite(c, r(j), cv)
    return SymArray(sh, f, a.dtype)


def take(a, ind, axis=None):
    a = as_arr(a)
    if axis is None:
        return a.ravel()[ind]
    return a[tuple([slice(None)] * (axis % a.ndim) + [ind])]


def put(a, ind, v, mode='raise'):
    a.ravel()[ind] = v


def copyto(dst, src, where=True):
    if where is not True:
        raise Unsupported('copyto where')
    dst[...] = src


def copy(a):
    return as_arr(a).copy()


def split(a, n, axis=0):
    raise Unsupported('split')


def triu(a, k=0):
    r = a.reader()
    z = cast_scalar(0, a.dtype)
    return SymArray(a.shape, lambda idx: s_ite(scalar_op('>=', scalar_op('-', idx[1], idx[0]), k), r(idx), z), a.dtype)


def tril(a, k=0):
    r = a.reader()
    z = cast_scalar(0, a.dtype)
    return SymArray(a.shape, lambda idx: s_ite(scalar_op('<=', scalar_op('-', idx[1], idx[0]), k), r(idx), z), a.dtype)


def shape(a):
    return as_arr(a).shape


def ndim(a):
    return as_arr(a).ndim if not (is_sym(a) or isinstance(a, (_int, Fraction, float, bool))) else 0


def size(a, axis=None):
    a = as_arr(a)
    return a.size if axis is None else a.shape[axis]


def isscalar(x):
    return (is_sym(x) or isinstance(x, (bool, _int, float, Fraction, complex, str)))


def iscomplexobj(x):
    return _is_arr(x) and x.kind == 'c' or isinstance(x, SymCplx)


def isrealobj(x):
    return not iscomplexobj(x)


def may_share_memory(a, b):
    return a.store is b.store


shares_memory = may_share_memory


def unravel_index(k, shape, order='C'):
    shape = tuple(shape)
    if _is_arr(k):
        r = k.reader()
        outs = []
        for j in range(len(shape)):
            a = SymArray(k.shape, (lambda j: (lambda idx: _unflat(r(idx), shape)[j]))(j), int64)
            a.in_range_of = [shape[j]]
            outs.append(a)
        return tuple(outs)
    return _unflat(k, shape)


def ravel_multi_index(mi, dims, mode='raise', order='C'):
    mi = tuple(mi)
    if _any(_is_arr(x) for x in mi):
        arrs = [as_arr(x) for x in mi]
        sh = broadcast_shapes_(*[x.shape for x in arrs])
        rs = [x.reader() for x in arrs]
        return SymArray(sh, lambda idx: _flat_index([r(bcast_idx(idx, x.shape, sh)) for r, x in zip(rs, arrs)], dims), int64)
    return _flat_index(mi, dims)


# ---------------------------------------------------------------- nonzero / masks
def _settled(v):
    """Truth value of a condition where the path fixes it."""
    t = zbool(v)
    if CTX.bound and T.mentions(t, CTX.bound):
        return v
    if CTX.entails(t):
        return True
    if CTX.entails(z3.Not(t)):
        return False
    return v


class NZ:
    def __init__(self, mask):
        self.mask = mask
        self.nd = mask.ndim
        rd = mask.reader()
        rd = (lambda r0: (lambda idx: cast_scalar(r0(idx), bool_)))(rd)
        self.rd = rd
        self.shape = mask.shape
        conc = None
        cs = mask.concrete_size()
        if cs is not None and cs <= 4096:
            conc = []
            for idx in itertools.product(*[range(d) for d in mask.shape]):
                v = rd(idx)
                if not isinstance(v, bool) and cs <= 64:
                    v = _settled(v)
                if not isinstance(v, bool):
                    conc = None
                    break
                if v:
                    conc.append(idx)
        self.conc = conc
        self.full = False
        if conc is None and self.nd == 1:
            i = SymInt(z3.Int(CTX.fresh_name('nzi')))
            n = mask.shape[0]
            v = rd((i,))
            if v is True or isinstance(v, SymBool) and CTX.entails(z3.Implies(z3.And(i.t >= 0, i.t < zint(n)), zbool(v))):
                # every entry is set
                self.full = True
                self.count = n
                a = SymArray((n,), lambda idx: idx[0], int64)
                a.in_range_of = [n]
                a.inverse = lambda b: (True, (b,))
                self.arrays = [a]
                a.multi_inverse = (self.arrays, self.inverse)
                return
        if conc is not None:
            self.count = len(conc)
            self.arrays = []
            pos = {c: i for i, c in enumerate(conc)}
            self.pos = pos
            for j in range(self.nd):
                a = from_elements((len(conc),), [c[j] for c in conc], int64)
                a.in_range_of = [mask.shape[j]]
                self.arrays.append(a)
        else:
            self.lam = ho.lam_of(lambda idx: rd(idx), mask.shape, 'b')
            self.key = ('nz', self.lam.get_id()) + tuple(str(d) for d in mask.shape)
            self.dimt = [zint(d) for d in mask.shape]
            self.count = mk_int(ho.nz_count(self.nd, self.lam, self.dimt))
            if isinstance(self.count, SymInt):
                CTX.defer(self.count.t, [self.count.t >= 0, self.count.t <= zint(dim_prod(mask.shape))])
            self.arrays = []
            for j in range(self.nd):
                a = SymArray((self.count,), (lambda j: (lambda idx: self.coord(j, idx[0])))(j), int64)
                a.in_range_of = [mask.shape[j]]
                a.nzref = (self, j)
                if self.nd == 1:
                    a.inverse = lambda b: self.inverse((b,))
                self.arrays.append(a)
        mi = (self.arrays, self.inverse)
        for a in self.arrays:
            a.multi_inverse = mi

    def coord(self, j, k):
        if isinstance(k, SymInt) and k.tag is not None and k.tag[0] == 'rank' and k.tag[1] == self.key:
            return k.tag[2][j]      # the rank of an entry is only used where the mask is true
        t = ho.ho_app(f'NZ_{j}', self.nd, [self.lam], self.dimt, [zint(k)], T.I)
        return SymInt(t, ('nz', self.key, j, k))

    def inverse(self, s):
        if self.full:
            return True, tuple(s)
        if self.conc is not None:
            if _all(isinstance(x, _int) for x in s):
                p = self.pos.get(tuple(s))
                return (p is not None), (p if p is not None else 0,)
            r = 0
            for c, p in self.pos.items():
                r = s_ite(s_and(*[scalar_op('==', x, y) for x, y in zip(s, c)]), p, r)
            return self.rd(s), (r,)
        if _all(isinstance(x, SymInt) and x.tag is not None and x.tag[0] == 'nz' and x.tag[1] == self.key and
                x.tag[2] == j for j, x in enumerate(s)):
            ks = [x.tag[3] for x in s]
            if _all(same_int(ks[0], k) for k in ks):
                return True, (ks[0],)
        c = self.rd(s)
        rank = mk_int(ho.ho_app('NZ_RANK', self.nd, [self.lam], self.dimt, [zint(x) for x in s], T.I))
        if isinstance(rank, SymInt):
            rank = SymInt(rank.t, ('rank', self.key, tuple(s)))
        return c, (rank,)


def nonzero_info(mask):
    cache = CTX.__dict__.setdefault('_nzcache', [])
    st = mask.store if type(mask) is SymArray else None
    if st is not None:
        for m_st, fn, view, nz in cache:
            if m_st is st and fn is st.fn and view is mask.view and len(nz.shape) == mask.ndim:
                return nz
    nz = NZ(mask)
    if st is not None:
        cache.append((st, st.fn, mask.view, nz))
    return nz


def nonzero(a):
    return tuple(nonzero_info(as_arr(a)).arrays)


def argwhere(a):
    nz = nonzero_info(as_arr(a))
    return stack(nz.arrays, axis=1)


def flatnonzero(a):
    return nonzero_info(as_arr(a).ravel()).arrays[0]


def count_nonzero(a, axis=None):
    a = as_arr(a)
    return sum(a != 0 if a.kind != 'b' else a, axis=axis)


# ---------------------------------------------------------------- reductions
def sum_scalar(f, n, kind):
    """Sum_{k<n} f(k) as a scalar."""
    zero = 0 if kind in 'bi' else Fraction(0)
    if isinstance(n, _int):
        if n <= SMALL:
            r = None
            for k in range(n):
                v = f(k)
                v = cast_scalar(v, int64) if kind == 'b' else v
                r = v if r is None else scalar_op('+', r, v)
            return (SymCplx(zero, zero) if kind == 'c' else zero) if r is None else r
    return ho.big_sum(f, n, kind)


def _norm_axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(sorted(x % nd for x in axis))
    if not -nd <= axis < nd:
        raise ValueError('axis out of bounds')
    return (axis % nd,)


def _reduce(a, axis, keepdims, f, dt):
    """f(fn over reduced index tuple, reduced dims) -> scalar"""
    axes = _norm_axes(axis, a.ndim)
    keep = [i for i in range(a.ndim) if i not in axes]
    rd = a.reader()
    rdims = [a.shape[x] for x in axes]

    def el(idx):
        def g(ks):
            full = [None] * a.ndim
            for x, i in zip(keep, idx):
                full[x] = i
            for x, k in zip(axes, ks):
                full[x] = k
            return rd(tuple(full))
        return f(g, rdims)
    if keepdims:
        sh = tuple(1 if i in axes else d for i, d in enumerate(a.shape))
        return SymArray(sh, lambda idx: el(tuple(idx[i] for i in keep)), dt)
    return scalarize(SymArray(tuple(a.shape[i] for i in keep), el, dt))


def _nsum(g, dims, kind):
    if not dims:
        return g(())

    def level(pref, ds):
        if len(ds) == 1:
            return sum_scalar(lambda k: g(pref + (k,)), ds[0], kind)
        return sum_scalar(lambda k: level(pref + (k,), ds[1:]), ds[0], 'i' if kind == 'b' else kind)
    return level((), list(dims))


def sum(a, axis=None, dtype=None, out=None, keepdims=False, where=None, **k):
    if where is not None:
        raise Unsupported('sum where')
    a = as_arr(a)
    dt = as_dtype(dtype)
    if dt is not None and dt.kind != a.kind:
        a = a.astype(dt)
    if a.kind in 'bi':
        odt = dt or int64
    else:
        odt = dt or a.dtype
    kind = a.kind
    if a.masktag is not None and axis is None and a.ndim == 1 and a.masktag[0].conc is None and not a.masktag[0].full:
        nz, full = a.masktag
        z = cast_scalar(0, odt)
        src = SymArray(nz.shape, lambda idx: s_ite(nz.rd(idx), cast_scalar(full(idx), odt), z), odt)
        return _out(_reduce(src, None, keepdims, lambda g, d: _nsum(g, d, odt.kind), odt), out)
    if a.ndim == 1 and a.parts is not None and not keepdims and kind != 'b':
        r = None
        for x in a.parts():
            v = sum(x)
            r = v if r is None else r + v
        return _out(r, out)
    r = _reduce(a, axis, keepdims, lambda g, d: _nsum(g, d, kind), odt)
    return _out(r, out)


def mean(a, axis=None, dtype=None, out=None, keepdims=False):
    a = as_arr(a)
    axes = _norm_axes(axis, a.ndim)
    n = dim_prod([a.shape[x] for x in axes])
    s = sum(a, axis=axis, keepdims=keepdims)
    dt = a.dtype if a.kind in 'fc' else float64
    return _out(binop('/', s, n, dt=dt), out, dtype=dtype)


def var(a, axis=None, ddof=0, keepdims=False, dtype=None):
    a = as_arr(a)
    axes = _norm_axes(axis, a.ndim)
    n = dim_prod([a.shape[x] for x in axes])
    m = mean(a, axis=axis, keepdims=True)
    d = a - m
    return sum(d * d, axis=axis, keepdims=keepdims) / (n if isinstance(ddof, _int) and ddof == 0 else scalar_op('-', n, ddof))


def std(a, axis=None, ddof=0, keepdims=False, dtype=None):
    return sqrt(var(a, axis, ddof, keepdims))


def prod(a, axis=None, **k):
    a = as_arr(a)

    def f(g, dims):
        r = 1
        for d in dims:
            if not isinstance(d, _int):
                raise Unsupported('prod over a symbolic axis')
        for ks in itertools.product(*[range(d) for d in dims]):
            r = scalar_op('*', r, g(ks))
        return r
    return _reduce(a, axis, False, f, a.dtype if a.kind != 'b' else int64)


def _extreme(name, better):
    def f(a, axis=None, out=None, keepdims=False, **k):
        a = as_arr(a)

        def red(g, dims):
            if _all(isinstance(d, _int) for d in dims) and _math.prod(dims) <= SMALL:
                r = None
                for ks in itertools.product(*[range(d) for d in dims]):
                    v = g(ks)
                    r = v if r is None else better(r, v)
                if r is None:
                    raise ValueError('zero-size array to reduction operation has no identity')
                return r
            return ho.big_extreme(name, g, dims, a.kind)
        return _out(_reduce(a, axis, keepdims, red, a.dtype), out)
    return f


amax = max = nanmax = _extreme('MAX', T.s_max)
amin = min = nanmin = _extreme('MIN', T.s_min)


def ptp(a, axis=None):
    return amax(a, axis) - amin(a, axis)


def any(a, axis=None, out=None, keepdims=False):
    a = as_arr(a)

    def red(g, dims):
        if _all(isinstance(d, _int) for d in dims) and _math.prod(dims) <= SMALL:
            return s_or(*[cast_scalar(g(ks), bool_) for ks in itertools.product(*[range(d) for d in dims])])
        return ho.big_any(lambda ks: cast_scalar(g(ks), bool_), dims)
    return _out(_reduce(a, axis, keepdims, red, bool_), out)


def all(a, axis=None, out=None, keepdims=False):
    a = as_arr(a)

    def red(g, dims):
        if _all(isinstance(d, _int) for d in dims) and _math.prod(dims) <= SMALL:
            return s_and(*[cast_scalar(g(ks), bool_) for ks in itertools.product(*[range(d) for d in dims])])
        return s_not(ho.big_any(lambda ks: s_not(cast_scalar(g(ks), bool_)), dims))
    return _out(_reduce(a, axis, keepdims, red, bool_), out)


def _arg(name, better):
    def f(a, axis=None, **k):
        a = as_arr(a)
        if axis is None:
            a = a.ravel()
            axis = 0

        def red(g, dims):
            n = dims[0]
            if isinstance(n, _int) and n <= SMALL:
                bi, bv = 0, g((0,))
                for i in range(1, n):
                    v = g((i,))
                    c = better(v, bv)
                    bi = s_ite(c, i, bi)
                    bv = s_ite(c, v, bv)
                return bi
            return ho.big_arg(name, g, dims, a.kind)
        return _reduce(a, axis, False, red, int64)
    return f


argmax = _arg('ARGMAX', lambda v, b: scalar_op('>', v, b))
argmin = _arg('ARGMIN', lambda v, b: scalar_op('<', v, b))


def cumsum(a, axis=None, dtype=None, out=None):
    a = as_arr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis = axis % a.ndim
    rd = a.reader()
    k = a.kind

    def el(idx):
        n = scalar_op('+', idx[axis], 1)
        return sum_scalar(lambda q: rd(tuple(idx[:axis]) + (q,) + tuple(idx[axis + 1:])), n, k)
    dt = as_dtype(dtype) or (a.dtype if k in 'fc' else int64)
    return SymArray(a.shape, lambda idx: cast_scalar(el(idx), dt), dt)


def diff(a, n=1, axis=-1):
    a = as_arr(a)
    axis = axis % a.ndim
    s1 = tuple(slice(1, None) if i == axis else slice(None) for i in range(a.ndim))
    s0 = tuple(slice(None, -1) if i == axis else slice(None) for i in range(a.ndim))
    return a[s1] - a[s0]


def nansum(a, axis=None):
    return sum(a, axis)


nanmean = mean


def average(a, axis=None, weights=None):
    if weights is None:
        return mean(a, axis)
    return sum(a * weights, axis) / sum(weights, axis)


def median(a, axis=None):
    return ho.opaque_scalar('median', [as_arr(a)]) if axis is None else _unsup('median axis')


def _unsup(m):
    raise Unsupported(m)


def dot(a, b, out=None):
    if not _is_arr(a) and not isinstance(a, (list, tuple)) or not _is_arr(b) and not isinstance(b, (list, tuple)):
        return _out(binop('*', a, b), out)
    return _out(matmul(a, b), out)


def matmul(a, b, out=None):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    dt = promote(a.dtype, b.dtype)
    ra, rb = a.reader(), b.reader()
    n = a.shape[-1]
    m = b.shape[-2] if b.ndim > 1 else b.shape[0]
    if not same_int(n, m):
        if isinstance(n, _int) and isinstance(m, _int) or not CTX.fork(zbool(scalar_op('==', n, m))):
            raise ValueError(f'matmul: Input operand 1 has a mismatch in its core dimension 0 (size {m} is different from {n})')
        if isinstance(m, _int):
            n = m
    if a.ndim > 2 or b.ndim > 2:
        if a.ndim > 2 and b.ndim > 2:
            raise Unsupported('batched matmul')
    k = dt.kind

    def el(idx):
        ia = tuple(idx[:a.ndim - 1])
        ib = tuple(idx[a.ndim - 1:])
        if b.ndim == 1:
            return sum_scalar(lambda q: scalar_op('*', ra(ia + (q,)), rb((q,))), n, k)
        if b.ndim == 2:
            return sum_scalar(lambda q: scalar_op('*', ra(ia + (q,)), rb((q,) + ib)), n, k)
        raise Unsupported('matmul nd')
    sh = a.shape[:-1] + (b.shape[:-2] + b.shape[-1:] if b.ndim > 1 else ())
    r = SymArray(sh, lambda idx: cast_scalar(el(idx), dt), dt)
    return _out(scalarize(r), out)


def tensordot(a, b, axes=2):
    a, b = as_arr(a), as_arr(b)
    if isinstance(axes, _int):
        axa = list(range(a.ndim - axes, a.ndim))
        axb = list(range(axes))
    else:
        axa, axb = axes
        axa = [axa] if isinstance(axa, _int) else list(axa)
        axb = [axb] if isinstance(axb, _int) else list(axb)
    axa = [x % a.ndim for x in axa]
    axb = [x % b.ndim for x in axb]
    ka = [i for i in range(a.ndim) if i not in axa]
    kb = [i for i in range(b.ndim) if i not in axb]
    dims = [a.shape[x] for x in axa]
    for x, y in zip(axa, axb):
        if not same_int(a.shape[x], b.shape[y]) and not CTX.fork(zbool(scalar_op('==', a.shape[x], b.shape[y]))):
            raise ValueError('shape-mismatch for sum')
    dt = promote(a.dtype, b.dtype)
    ra, rb = a.reader(), b.reader()

    def el(idx):
        def g(ks):
            fa = [None] * a.ndim
            fb = [None] * b.ndim
            for x, i in zip(ka, idx[:len(ka)]):
                fa[x] = i
            for x, i in zip(kb, idx[len(ka):]):
                fb[x] = i
            for x, y, k in zip(axa, axb, ks):
                fa[x] = k
                fb[y] = k
            return scalar_op('*', ra(tuple(fa)), rb(tuple(fb)))
        return _nsum(g, dims, dt.kind)
    return scalarize(SymArray(tuple(a.shape[i] for i in ka) + tuple(b.shape[i] for i in kb), el, dt))


def outer(a, b, out=None):
    a, b = ravel(a), ravel(b)
    return _out(a[:, None] * b[None, :], out)


def einsum(*a, **k):
    raise Unsupported('einsum')


def inner(a, b):
    return matmul(a, b)


vdot = inner


def convolve(a, v, mode='full'):
    a, v = as_arr(a), as_arr(v)
    n, m = a.shape[0], v.shape[0]
    if not (isinstance(n, _int) and isinstance(m, _int)):
        raise Unsupported('convolve with symbolic lengths')
    ra, rv = a.reader(), v.reader()
    dt = promote(a.dtype, v.dtype)
    full = []
    for k in range(n + m - 1):
        r = 0
        for i in range(n):
            if 0 <= k - i < m:
                r = scalar_op('+', r, scalar_op('*', ra((i,)), rv((k - i,))))
        full.append(cast_scalar(r, dt))
    if mode == 'full':
        return from_elements((n + m - 1,), full, dt)
    if mode == 'same':
        L = builtins.max(n, m)
        st = (n + m - 1 - L) // 2
        return from_elements((L,), full[st:st + L], dt)
    raise Unsupported('convolve mode')


def polyval(p, x):
    p = as_arr(p)
    if not isinstance(p.shape[0], _int):
        raise Unsupported('polyval symbolic')
    r = Fraction(0)
    for c in p:
        r = r * x + c
    return r


def poly(roots):
    r = as_arr(roots)
    if not isinstance(r.shape[0], _int):
        raise Unsupported('poly symbolic')
    c = array([Fraction(1)])
    for z in r:
        c = convolve(c, array([Fraction(1), scalar_op('-', 0, z)]))
    return c


def trapezoid(y, x=None, dx=1):
    if x is not None:
        raise Unsupported('trapz x')
    return sum((y[1:] + y[:-1]) / 2) * dx


def nan_to_num(a, copy=True, nan=0, posinf=None, neginf=None):
    def f(v):
        if isinstance(v, float):
            if v != v:
                return cast_scalar(nan, float64)
            raise Unsupported('nan_to_num inf')
        return v
    r = ufunc1(f, a, _same(a))
    if not copy and _is_arr(a):
        a._write_all(r.reader())
        return a
    return r


def isclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10 ** 8), equal_nan=False):
    return less_equal(abs(subtract(a, b)), add(atol, multiply(rtol, abs(b))))


def allclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10 ** 8), equal_nan=False):
    return all(isclose(a, b, rtol, atol))


def array_equal(a, b, equal_nan=False):
    try:
        a, b = as_arr(a), as_arr(b)
    except Unsupported:
        return False
    if a.ndim != b.ndim:
        return False
    for d, e in zip(a.shape, b.shape):
        if not same_int(d, e) and not CTX.fork(zbool(scalar_op('==', d, e))):
            return False
    return all(a == b) if a.ndim else scalar_op('==', a.at(()), b.at(()))


def lcm(a, b):
    if isinstance(a, _int) and isinstance(b, _int):
        return _math.lcm(a, b)
    raise Unsupported('lcm symbolic')


def sort(a, axis=-1):
    a = as_arr(a)
    if a.ndim == 1 and isinstance(a.shape[0], _int) and a.shape[0] <= 8:
        v = list(a)
        n = len(v)
        for i in range(n):
            for j in range(n - 1 - i):
                c = scalar_op('<=', v[j], v[j + 1])
                v[j], v[j + 1] = s_ite(c, v[j], v[j + 1]), s_ite(c, v[j + 1], v[j])
        return array(v, dtype=a.dtype)
    return ho.opaque('sort', [a], [], a.shape, a.dtype)


def argsort(a, axis=-1, kind=None):
    a = as_arr(a)
    return ho.opaque('argsort', [a], [], a.shape, int64)


def unique(a, return_inverse=False, return_counts=False, return_index=False):
    a = as_arr(a).ravel()
    if isinstance(a.shape[0], _int):
        v = list(a)
        if _all(T._conc(x) for x in v):
            return array(sorted(set(v)), dtype=a.dtype)
    raise Unsupported('unique')


def searchsorted(a, v, side='left', sorter=None):
    a = as_arr(a)
    if sorter is None and a.ndim == 1 and isinstance(a.shape[0], _int):
        op = '<' if side == 'left' else '<='
        xs = list(a)
        if not CTX.entails(zbool(s_and(*[scalar_op('<=', x, y) for x, y in zip(xs, xs[1:])]))):
            raise Unsupported('searchsorted in an array not known to be sorted')

        def count(x):
            return _sum_list([s_ite(scalar_op(op, y, x), 1, 0) for y in xs])
        return ufunc1(count, as_arr(v), int64) if _is_arr(v) else count(v)
    raise Unsupported('searchsorted')


def _sum_list(xs):
    r = 0
    for x in xs:
        r = scalar_op('+', r, x)
    return r


def isin(a, b):
    a, b = as_arr(a), as_arr(b).ravel()
    rb = b.reader()
    n = b.shape[0]

    def f(v):
        if isinstance(n, _int):
            return s_or(*[scalar_op('==', v, rb((j,))) for j in range(n)])
        return ho.big_any(lambda ks: scalar_op('==', v, rb(ks)), [n])
    return ufunc1(f, a, bool_)


in1d = isin


def interp(x, xp, fp):
    return ho.opaque('interp', [as_arr(x), as_arr(xp), as_arr(fp)], [], as_arr(x).shape, float64)


def gradient(a, *args, axis=None, **k):
    """Central differences, one-sided at both ends; unit or constant spacing."""
    a = as_arr(a)
    nd = a.ndim
    axes = list(range(nd)) if axis is None else [_norm_axes(x, nd)[0] for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
    if k or _any(isinstance(x, SymArray) and x.ndim for x in args) or len(args) not in (0, 1, len(axes)):
        raise Unsupported('gradient with these arguments')
    steps = [norm_const(x) for x in args] or [1]
    steps = steps * len(axes) if len(steps) == 1 else steps
    res = []
    for ax, h in zip(axes, steps):
        n = a.shape[ax]
        if (n < 2) if isinstance(n, _int) else CTX.fork(zbool(scalar_op('<', n, 2))):
            raise ValueError('Shape of array too small to calculate a numerical gradient')

        def at(*s):
            return tuple([slice(None)] * ax + [slice(*s) if len(s) > 1 else s[0]])
        out = zeros(a.shape, dtype=float64)
        out[at(1, -1)] = (a[at(2, None)] - a[at(None, -2)]) / (2 * h)
        out[at(0)] = (a[at(1)] - a[at(0)]) / h
        out[at(-1)] = (a[at(-1)] - a[at(-2)]) / h
        res.append(out)
    return res[0] if len(res) == 1 else res


def bincount(x, weights=None, minlength=0):
    raise Unsupported('bincount')


def histogram(*a, **k):
    raise Unsupported('histogram')


def percentile(*a, **k):
    raise Unsupported('percentile')


def corrcoef(*a, **k):
    raise Unsupported('corrcoef')


def roots(p):
    raise Unsupported('roots')


def modf(x):
    fr = ufunc1(lambda v: scalar_op('-', v, T.s_trunc(v)), x, _fdt(x))
    it = ufunc1(lambda v: cast_scalar(T.s_trunc(v), float64), x, _fdt(x))
    return fr, it


def finfo(d):
    return _np.finfo(as_dtype(d).name)


def iinfo(d):
    return _np.iinfo(as_dtype(d).name)


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def seterr(**k):
    return {}


def array_split(*a):
    raise Unsupported('array_split')


def shape_eq(a, b):
    return s_and(*[scalar_op('==', x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False


class _FFT:
    def _f(name):
        def f(self, a, *args, **k):
            over = k.get('overwrite_x')
            k = {kk: v for kk, v in k.items() if kk not in ('overwrite_x', 'workers')}
            if args or _any(v is not None for kk, v in k.items() if kk not in ('norm', 'axes')):
                if args:
                    raise Unsupported(f'{name} with extra args')
            src = a
            a = as_arr(a)
            axes = k.get('axes')
            two = name.endswith('2')
            if axes is not None and two and [x % a.ndim for x in axes] == [a.ndim - 2, a.ndim - 1]:
                axes = None
            norm = k.get('norm') if k.get('norm') != 'backward' else None
            scale = None
            if two and norm == 'forward' and axes is None:
                scale, norm = scalar_op('*', a.shape[-2], a.shape[-1]), None
            nm = name + (f"_{norm}" if norm else '') + (f"_ax{axes}" if axes else '')
            dt = complex64 if a.dtype in (complex64, float32) else complex128
            if two and a.ndim > 2 and axes is None:
                nb = a.ndim - 2
                frozen = a.copy()           # one transform for every leading index
                memo = {}

                def g(idx):
                    key = idx[:nb] if _all(isinstance(i, _int) for i in idx[:nb]) else None
                    r = memo.get(key) if key is not None else None
                    if r is None:
                        r = ho.opaque(nm, [SymArray(a.shape[nb:], lambda j, b=tuple(idx[:nb]): frozen.at(b + tuple(j)), a.dtype)], [], a.shape[nb:], dt)
                        if key is not None:
                            memo[key] = r
                    return r.at(tuple(idx[nb:]))
                out = SymArray(a.shape, g, dt)
            else:
                out = ho.opaque(nm, [a], [], a.shape, dt)
            if scale is not None:
                out = out * scale if name.startswith('i') else out / scale
            if over and isinstance(src, SymArray) and src.dtype in (complex64, complex128):
                src[...] = out              # scipy transforms complex arrays in place
            return out
        return f
    fft2 = _f('fft2'); ifft2 = _f('ifft2'); fft = _f('fft'); ifft = _f('ifft'); rfft = _f('rfft')

    def fftshift(self, a, axes=None):
        a = as_arr(a)
        axes = tuple(range(a.ndim)) if axes is None else ((axes,) if isinstance(axes, _int) else axes)
        for x in axes:
            a = roll(a, scalar_op('//', a.shape[x], 2), x)
        return a

    def ifftshift(self, a, axes=None):
        a = as_arr(a)
        axes = tuple(range(a.ndim)) if axes is None else ((axes,) if isinstance(axes, _int) else axes)
        for x in axes:
            a = roll(a, scalar_op('-', 0, scalar_op('//', a.shape[x], 2)), x)
        return a

    def fftfreq(self, n, d=1):
        half = scalar_op('//', scalar_op('-', n, 1), 2)
        val = scalar_op('/', 1, scalar_op('*', n, d))

        def f(idx):
            i = idx[0]
            return cast_scalar(scalar_op('*', s_ite(scalar_op('<=', i, half), i, scalar_op('-', i, n)), val), float64)
        return SymArray(norm_shape(n), f, float64)

    def next_fast_len(self, n, *a):
        raise Unsupported('next_fast_len')


fft = _FFT()


class _Linalg:
    class LinAlgError(ValueError):
        pass

    def pinv(self, a, *args, **k):
        a = as_arr(a)
        if args or k:
            return ho.opaque('pinv_args', [a], [norm_const(x) for x in list(args) + list(k.values())],
                             (a.shape[1], a.shape[0]), a.dtype)
        return ho.opaque('pinv', [a], [], (a.shape[1], a.shape[0]), a.dtype)

    def inv(self, a):
        a = as_arr(a)
        return ho.opaque('inv', [a], [], a.shape, a.dtype)

    def norm(self, a, axis=None):
        return sqrt(sum(square(abs(a)), axis=axis))

    def solve(self, a, b):
        return ho.opaque('solve', [as_arr(a), as_arr(b)], [], as_arr(b).shape, as_arr(a).dtype)

    def svd(self, *a, **k):
        raise Unsupported('svd')

    qr = lstsq = eigvals = eigh = eig = svd


linalg = _Linalg()


class Generator:
    """Seeded random source: draw number c of seed s is an uninterpreted function of (s, c, index)."""
    def __init__(self, seed=None):
        if seed is None:
            seed = SymInt(z3.Int(CTX.fresh_name('entropy')))
        if isinstance(seed, SymArray):
            seed = seed.item()
        seed = norm_const(seed)
        if isinstance(seed, (Fraction, SymReal)):
            seed = T.s_trunc(seed)
        self.seed = seed
        self.c = 0

    def _draw(self, name, size, params=(), dt=float64):
        c = self.c
        self.c += 1
        pars = [p for p in params]
        if size is None:
            sh = None
            for p in pars:
                if _is_arr(p):
                    sh = p.shape if sh is None else broadcast_shapes_(sh, p.shape)
            scalar = sh is None
            sh = () if sh is None else sh
        else:
            sh, scalar = norm_shape(size), False
        rds = [(p.reader(), p.shape) if _is_arr(p) else None for p in pars]

        def el(idx):
            ts = [zint(self.seed), z3.IntVal(c)]
            for p, r in zip(pars, rds):
                v = norm_const(p) if r is None else r[0](bcast_idx(idx, r[1], sh))
                ts.append(zreal(v))
            ts += [zint(i) for i in idx]
            f = uf(f'rng_{name}_{len(pars)}_{len(sh)}', *[t.sort() for t in ts], T.R if dt.kind == 'f' else T.I)
            t = f(*ts)
            return mk_real(t) if dt.kind == 'f' else mk_int(t)
        a = SymArray(sh, el, dt)
        return a.at(()) if scalar else a

    def normal(self, loc=0, scale=1, size=None):
        return self._draw('normal', size) * scale + loc if size is not None else self._draw('normal2', None, (loc, scale))

    def standard_normal(self, size=None, dtype=None):
        r = self._draw('normal', size)
        return r.astype(dtype) if dtype is not None and _is_arr(r) else r

    def randn(self, *size):
        return self._draw('normal', size if size else None)

    def uniform(self, low=0, high=1, size=None):
        return self._draw('random', size) * (high - low) + low

    def random(self, size=None, dtype=None, out=None):
        r = self._draw('random', size)
        if out is not None:
            out[...] = self._draw('random', out.shape)
            return out
        return r.astype(dtype) if dtype is not None and _is_arr(r) else r

    def rand(self, *size):
        return self._draw('random', size if size else None)

    random_sample = random

    def poisson(self, lam=1, size=None):
        return self._draw('poisson', size, (lam,), int64)

    def gamma(self, shape, scale=1, size=None):
        return self._draw('gamma', size, (shape, scale))

    def binomial(self, n, p, size=None):
        return self._draw('binomial', size, (n, p), int64)

    def integers(self, low, high=None, size=None, **k):
        return self._draw('integers', size, (low,) if high is None else (low, high), int64)

    def randint(self, low, high=None, size=None, **k):
        return self.integers(low, high, size)

    def choice(self, *a, **k):
        raise Unsupported('choice')

    shuffle = permutation = choice


class _Random:
    Generator = Generator

    @staticmethod
    def default_rng(seed=None):
        return Generator(seed)

    @staticmethod
    def RandomState(seed=None):
        return Generator(seed)

    def __getattr__(self, n):
        g = CTX.__dict__.setdefault('_global_rng', {})
        if 'g' not in g:
            g['g'] = Generator(None)
        if n == 'seed':
            def seed(s):
                g['g'] = Generator(s)
            return seed
        return getattr(g['g'], n)


random = _Random()


class _MA:
    class MaskedArray:
        pass

    def __getattr__(self, n):
        raise Unsupported('numpy.ma')


ma = _MA()

newaxis = None
nan = NaN = float('nan')
inf = Inf = float('inf')
__name__ = 'numpy'
__version__ = _np.__version__


class _ex:
    ComplexWarning = Warning


exceptions = _ex
ComplexWarning = Warning


def __getattr__(n):
    if n == 'pi':
        return T.pi()
    if n == 'e':
        return T.s_fun('exp', 1)
    if n.startswith('__'):
        raise AttributeError(n)
    raise Unsupported(f'numpy.{n}')
