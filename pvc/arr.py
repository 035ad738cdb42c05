"""Symbolic arrays: concrete rank, possibly symbolic dimensions, contents given by a
function from indices to scalars.  Views share a Store with their base."""
from fractions import Fraction
import z3
from . import terms as T
from .terms import (CTX, Unsupported, SymInt, SymReal, SymBool, SymCplx, scalar_op, s_ite, s_and, s_or, s_not,
                    mk_int, mk_real, mk_bool, zint, zreal, zbool, same_int, uf, kind_of, is_sym)

SMALL = 40           # concrete reductions up to this many terms are expanded


class DT:
    """Numpy-like dtype object; behaves as the scalar type as well."""
    def __init__(self, name, kind, size):
        self.name = name
        self.kind = kind
        self.itemsize = size
        self.__name__ = name
        self.str = name

    def __call__(self, x=0):
        from . import facade
        if isinstance(x, SymArray):
            return x.astype(self)
        if isinstance(x, (list, tuple)):
            return facade.array(x, dtype=self)
        return facade.cast_scalar(x, self)

    @property
    def type(self):
        return self

    @property
    def char(self):
        return self.name

    def __eq__(self, o):
        from . import facade
        if isinstance(o, DT):
            return self.name == o.name
        try:
            return facade.as_dtype(o).name == self.name
        except Exception:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name

    def newbyteorder(self, *a):
        return self

    def __instancecheck__(self, x):
        # isinstance(x, np.float32): symbolic scalars are not told apart by width
        return kind_of(x) == self.kind and not isinstance(x, (bool, int, float, Fraction))

    def __or__(self, o):
        return object

    __ror__ = __or__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def ikey(idx):
    return tuple(i if isinstance(i, int) else ('s', i.t.get_id()) for i in idx)


class Memo:
    __slots__ = ('f', 'm')

    def __init__(self, f):
        self.f = f
        self.m = {}

    def __call__(self, idx):
        k = ikey(idx)
        r = self.m.get(k)
        if r is not None:
            return r[0]
        v = self.f(idx)
        self.m[k] = (v, idx)
        return v


class Store:
    __slots__ = ('fn', 'shape', 'dtype', 'name')

    def __init__(self, shape, fn, dtype, name=None):
        self.shape = shape
        self.fn = Memo(fn)
        self.dtype = dtype
        self.name = name


class View:
    __slots__ = ('to_base', 'from_base')

    def __init__(self, to_base, from_base):
        self.to_base = to_base
        self.from_base = from_base


def dim_prod(shape):
    r = 1
    for d in shape:
        r = scalar_op('*', r, d)
    return r


def idx_in(idx, shape):
    c = []
    for i, n in zip(idx, shape):
        c.append(scalar_op('>=', i, 0))
        c.append(scalar_op('<', i, n))
    return s_and(*c)


def fresh_int(name, lo=None, hi=None):
    v = SymInt(z3.Int(CTX.fresh_name(name)))
    if lo is not None:
        CTX.assume(zbool(scalar_op('>=', v, lo)))
    if hi is not None:
        CTX.assume(zbool(scalar_op('<', v, hi)))
    return v


WRITE_LOG = []       # stack of lists collecting written stores (loop inference)


def _note(name):
    """Something known of an array's contents: forgotten when the array is written to."""
    key = '_note_' + name

    def get(self):
        n = self.__dict__.get(key)
        return n[1] if n is not None and n[0] is self.store.fn else None

    def put(self, v):
        if v is None:
            self.__dict__.pop(key, None)
        else:
            self.__dict__[key] = (self.store.fn, v)
    return property(get, put)


class SymArray:
    _is_symarray = True
    masktag = _note('masktag')
    inverse = _note('inverse')
    multi_inverse = _note('multi_inverse')
    in_range_of = _note('in_range_of')
    nzref = _note('nzref')
    parts = _note('parts')          # the arrays this one is the concatenation of (a function giving them)
    __array_priority__ = 1e9
    __array_ufunc__ = None

    def __init__(self, shape, fn, dtype, store=None, view=None):
        self._shape = tuple(shape)
        if store is None:
            store = Store(self._shape, fn, dtype)
        self.store = store
        self.view = view

    # -------------------------------------------------------------- basics
    @property
    def dtype(self):
        return self.store.dtype

    @property
    def shape(self):
        return self._shape

    @shape.setter
    def shape(self, s):
        r = self.reshape(s)
        self._shape, self.store, self.view = r._shape, r.store, r.view

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        return dim_prod(self._shape)

    @property
    def nbytes(self):
        return scalar_op('*', self.size, self.dtype.itemsize)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def kind(self):
        return self.store.dtype.kind

    def at(self, idx):
        """Element at an index tuple assumed in range."""
        b = self.view.to_base(idx) if self.view is not None else tuple(idx)
        return self.store.fn(b)

    def reader(self):
        """Snapshot of the current contents as idx -> scalar."""
        f = self.store.fn
        v = self.view
        if v is None:
            return f
        tb = v.to_base
        return Memo(lambda idx: f(tb(idx)))

    def __len__(self):
        n = self.len_()
        if isinstance(n, int):
            return n
        return n.__index__()

    def len_(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        return self._shape[0]

    def __iter__(self):
        if not self._shape:
            raise TypeError('iteration over a 0-d array')
        n = self._shape[0]
        if not isinstance(n, int):
            v = T.unique_value(n)
            if v is None:
                raise Unsupported('iteration over an axis of symbolic length')
            n = v
        return (self[i] for i in range(n))

    def __bool__(self):
        c = self.concrete_size()
        if c == 1:
            return bool(self.at(self._one_idx()))
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def _one_idx(self):
        return tuple(0 for _ in self._shape)

    def concrete_size(self):
        r = 1
        for d in self._shape:
            if not isinstance(d, int):
                return None
            r *= d
        return r

    def __float__(self):
        raise Unsupported('float(array) native')

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self._shape == ():
            return self.item().__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def item(self, *args):
        if args:
            return self[args if len(args) > 1 else args[0]]
        c = self.concrete_size()
        if c is None:
            if not CTX.fork(zbool(scalar_op('==', self.size, 1))):
                raise ValueError('can only convert an array of size 1 to a Python scalar')
        elif c != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self.at(self._one_idx())

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f'SymArray{self._shape}:{self.dtype}'

    def __format__(self, spec):
        return repr(self)

    def get(self, out=None):
        return self

    def __deepcopy__(self, memo):
        r = self.copy()
        memo[id(self)] = r
        return r

    def __copy__(self):
        return self.copy()

    def __array__(self, *a, **k):
        raise Unsupported('symbolic array escaped into real numpy')

    @property
    def flags(self):
        class F:
            writeable = True
            c_contiguous = True
        return F()

    @property
    def base(self):
        return None if self.view is None else self

    # -------------------------------------------------------------- conversion
    def copy(self, order=None):
        r = self.reader()
        a = SymArray(self._shape, r, self.dtype)
        a.masktag = self.masktag
        a.parts = self.parts
        return a

    def astype(self, dt, copy=True, **k):
        from . import facade
        dt = facade.as_dtype(dt)
        if dt is None:
            dt = facade.float64
        if not copy and dt == self.dtype:
            return self
        r = self.reader()
        if dt.kind == self.kind:
            a = SymArray(self._shape, r, dt)
        else:
            a = SymArray(self._shape, lambda idx: facade.cast_scalar(r(idx), dt), dt)
        return a

    def tolist(self):
        if not self._shape:
            return self.item()
        return [x.tolist() if isinstance(x, SymArray) else x for x in self]

    def fill(self, v):
        self[...] = v

    # -------------------------------------------------------------- arithmetic
    def _binop(self, op, other, rev):
        from . import facade
        return facade.binop(op, other, self) if rev else facade.binop(op, self, other)

    def __add__(self, o): return self._binop('+', o, False)
    def __radd__(self, o): return self._binop('+', o, True)
    def __sub__(self, o): return self._binop('-', o, False)
    def __rsub__(self, o): return self._binop('-', o, True)
    def __mul__(self, o): return self._binop('*', o, False)
    def __rmul__(self, o): return self._binop('*', o, True)
    def __truediv__(self, o): return self._binop('/', o, False)
    def __rtruediv__(self, o): return self._binop('/', o, True)
    def __floordiv__(self, o): return self._binop('//', o, False)
    def __rfloordiv__(self, o): return self._binop('//', o, True)
    def __mod__(self, o): return self._binop('%', o, False)
    def __rmod__(self, o): return self._binop('%', o, True)
    def __pow__(self, o): return self._binop('**', o, False)
    def __rpow__(self, o): return self._binop('**', o, True)
    def __and__(self, o): return self._binop('&', o, False)
    def __rand__(self, o): return self._binop('&', o, True)
    def __or__(self, o): return self._binop('|', o, False)
    def __ror__(self, o): return self._binop('|', o, True)
    def __xor__(self, o): return self._binop('^', o, False)
    def __lt__(self, o): return self._binop('<', o, False)
    def __le__(self, o): return self._binop('<=', o, False)
    def __gt__(self, o): return self._binop('>', o, False)
    def __ge__(self, o): return self._binop('>=', o, False)
    def __eq__(self, o): return self._binop('==', o, False)
    def __ne__(self, o): return self._binop('!=', o, False)

    def __neg__(self):
        from . import facade
        return facade.ufunc1(lambda x: scalar_op('-', 0, x), self, self.dtype)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        from . import facade
        return facade.abs(self)

    def __invert__(self):
        from . import facade
        if self.kind == 'b':
            return facade.ufunc1(s_not, self, self.dtype)
        return facade.ufunc1(lambda x: scalar_op('-', -1, x), self, self.dtype)

    def __matmul__(self, o):
        from . import facade
        return facade.matmul(self, o)

    def __rmatmul__(self, o):
        from . import facade
        return facade.matmul(o, self)

    def _iop(self, op, o):
        from . import facade
        r = facade.binop(op, self, o)
        if r.dtype.kind != self.kind and not facade.can_cast_same_kind(r.dtype, self.dtype):
            raise TypeError(f'Cannot cast ufunc output from {r.dtype} to {self.dtype} with casting rule same_kind')
        facade.check_same_shape_for_out(r, self)
        self._write_all(r.reader())
        return self

    def __iadd__(self, o): return self._iop('+', o)
    def __isub__(self, o): return self._iop('-', o)
    def __imul__(self, o): return self._iop('*', o)
    def __itruediv__(self, o): return self._iop('/', o)
    def __ifloordiv__(self, o): return self._iop('//', o)
    def __imod__(self, o): return self._iop('%', o)
    def __ipow__(self, o): return self._iop('**', o)
    def __iand__(self, o): return self._iop('&', o)
    def __ior__(self, o): return self._iop('|', o)

    def _write_all(self, fn):
        """Replace every element of this (view of an) array by fn(idx)."""
        from . import facade
        st = self.store
        if WRITE_LOG:
            for l in WRITE_LOG:
                l.append(st)
        dt = st.dtype
        cast = lambda v: facade.cast_scalar(v, dt)
        if self.view is None:
            st.fn = Memo(lambda b: cast(fn(b)))
        else:
            old = st.fn
            fb = self.view.from_base
            if fb is None:
                raise Unsupported('write through a non-invertible view')

            def new(b):
                c, idx = fb(b)
                if c is False:
                    return old(b)
                v = cast(fn(idx))
                if c is True:
                    return v
                return s_ite(c, v, old(b))
            st.fn = Memo(new)

    # -------------------------------------------------------------- indexing
    def __getitem__(self, key):
        from . import indexing
        return indexing.getitem(self, key)

    def __setitem__(self, key, value):
        from . import indexing
        indexing.setitem(self, key, value)

    # -------------------------------------------------------------- views
    def mkview(self, shape, to_src, from_src):
        """View of self: to_src maps view idx to self idx; from_src the partial inverse."""
        if self.view is None:
            tb, fb = to_src, from_src
        else:
            t0, f0 = self.view.to_base, self.view.from_base
            tb = lambda idx: t0(to_src(idx))
            if from_src is None or f0 is None:
                fb = None
            else:
                def fb(b):
                    c, s = f0(b)
                    if c is False:
                        return False, None
                    c2, v = from_src(s)
                    return s_and(c, c2), v
        return SymArray(shape, None, None, store=self.store, view=View(tb, fb))

    def transpose(self, *axes):
        if len(axes) == 1 and (isinstance(axes[0], (tuple, list)) or axes[0] is None):
            axes = axes[0]
        n = self.ndim
        if not axes:
            axes = tuple(reversed(range(n)))
        axes = tuple(a % n for a in axes)
        inv = [0] * n
        for k, a in enumerate(axes):
            inv[a] = k
        shape = tuple(self._shape[a] for a in axes)
        return self.mkview(shape, lambda idx: tuple(idx[inv[j]] for j in range(n)),
                           lambda s: (True, tuple(s[a] for a in axes)))

    @property
    def T(self):
        return self.transpose()

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(ax)

    def reshape(self, *shape, order='C'):
        from . import facade
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, SymArray)):
            shape = tuple(shape[0])
        return facade.reshape_view(self, shape, order)

    def ravel(self, order='C'):
        return self.reshape(-1, order=order) if order == 'C' else self.T.reshape(-1)

    def flatten(self, order='C'):
        return self.ravel(order).copy()

    @property
    def flat(self):
        return self.ravel()

    def squeeze(self, axis=None):
        from . import facade
        return facade.squeeze(self, axis)

    def view_as(self):
        return self

    @property
    def real(self):
        from . import facade
        return facade.real(self)

    @property
    def imag(self):
        from . import facade
        return facade.imag(self)

    def conj(self):
        from . import facade
        return facade.conj(self)

    conjugate = conj

    # -------------------------------------------------------------- reductions etc. (delegated)
    def _d(name):
        def f(self, *a, **k):
            from . import facade
            return getattr(facade, name)(self, *a, **k)
        return f

    sum = _d('sum'); mean = _d('mean'); max = _d('amax'); min = _d('amin'); std = _d('std'); var = _d('var')
    any = _d('any'); all = _d('all'); prod = _d('prod'); dot = _d('dot'); clip = _d('clip')
    repeat = _d('repeat'); argmax = _d('argmax'); argmin = _d('argmin'); round = _d('round_'); nonzero = _d('nonzero')
    cumsum = _d('cumsum'); take = _d('take'); trace = _d('trace'); diagonal = _d('diagonal'); argsort = _d('argsort')
    ptp = _d('ptp')

    def put(self, ind, v):
        self.ravel()[ind] = v

    def sort(self, axis=-1):
        from . import facade
        r = facade.sort(self, axis)
        self[...] = r

    def byteswap(self, *a):
        return self

    def newbyteorder(self, *a):
        return self

    def tobytes(self):
        raise Unsupported('tobytes')

    def set(self, v):
        self[...] = v
