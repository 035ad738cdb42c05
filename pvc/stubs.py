"""Stand-ins for external modules imported by the code under verification."""
import builtins
import functools as _ft
import math as _math
import os
import types
from fractions import Fraction
import z3
from . import terms as T
from . import facade, ho
from .terms import CTX, Unsupported, SymInt, SymReal, scalar_op, mk_real, mk_int, zreal, zint, zbool
from .arr import SymArray


class Stub(types.ModuleType):
    """Module whose attributes are callables outside the verified subset."""
    def __init__(self, name):
        super().__init__(name)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Missing(f'{self.__name__}.{n}')


class Missing:
    def __init__(self, name):
        self._n = name

    def __call__(self, *a, **k):
        if self._n.endswith('pyplot.get_cmap'):      # colours of the diagrams, evaluated at import
            return types.SimpleNamespace(colors=tuple((0, 0, i) for i in range(10)))
        if self._n.endswith('createTurbolenceFormulary'):   # formulas of the covariances, read at import
            return Missing(self._n + '()')
        raise Unsupported(f'call of {self._n}')

    def __getitem__(self, k):
        return Missing(f'{self._n}[{k!r}]')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Missing(f'{self._n}.{n}')

    def __mro_entries__(self, bases):
        return (object,)


def opaque_text(v):
    return '<sym>'


# ---------------------------------------------------------------- functools
def _lru_cache(maxsize=128, typed=False):
    def deco(f):
        cache = {}
        epoch = [None]

        @_ft.wraps(f)
        def g(*a, **k):
            if epoch[0] is not CTX.solver:
                cache.clear()
                epoch[0] = CTX.solver
            try:
                key = (a, tuple(sorted(k.items())))
                hash(key)
            except (TypeError, Unsupported):
                return f(*a, **k)
            if key not in cache:
                cache[key] = f(*a, **k)
            return cache[key]
        g.cache_clear = cache.clear
        return g
    if callable(maxsize):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


functools_ = types.ModuleType('functools')
functools_.__dict__.update({k: v for k, v in vars(_ft).items() if not k.startswith('__')})
functools_.lru_cache = _lru_cache
functools_.cache = _lru_cache(None)

# ---------------------------------------------------------------- math
math_ = types.ModuleType('math')


def _m1(n):
    def f(x):
        if isinstance(x, SymArray):
            x = x.item()
        return T.s_fun(n, x)
    return f


for _n in ('sin', 'cos', 'tan', 'exp', 'log10', 'log2'):
    setattr(math_, _n, _m1(_n))


def _log(x, base=None):
    r = T.s_fun('log', x)
    return r if base is None else scalar_op('/', r, T.s_fun('log', base))


math_.log = _log
math_.sqrt = T.s_sqrt
math_.floor = T.s_floor
math_.ceil = T.s_ceil
math_.trunc = T.s_trunc
math_.fabs = T.s_abs
math_.pow = T.s_pow
math_.inf = float('inf')
math_.nan = float('nan')
math_.isnan = lambda x: isinstance(x, float) and x != x
math_.isinf = lambda x: isinstance(x, float) and _math.isinf(x)
math_.isfinite = lambda x: not isinstance(x, float)
math_.atan2 = lambda y, x: facade.arctan2(y, x)
math_.hypot = lambda x, y: T.s_sqrt(scalar_op('+', scalar_op('*', x, x), scalar_op('*', y, y)))
math_.factorial = lambda n: _math.factorial(n)
math_.gcd = _math.gcd
math_.modf = lambda x: (scalar_op('-', x, T.s_trunc(x)), scalar_op('*', 1, T.s_trunc(x)))
math_.lcm = getattr(_math, 'lcm', None)
math_.prod = lambda xs: _prodl(xs)
math_.radians = facade.radians
math_.degrees = facade.degrees
math_.comb = _math.comb


def _prodl(xs):
    r = 1
    for x in xs:
        r = scalar_op('*', r, x)
    return r


class _MathMod(types.ModuleType):
    pass


def _math_getattr(n):
    if n == 'pi':
        return T.pi()
    raise Unsupported('math.' + n)


math_.__getattr__ = _math_getattr

# ---------------------------------------------------------------- scipy
ndimage = Stub('scipy.ndimage')


def _rotate(a, angle, axes=(1, 0), reshape=True, output=None, order=3, mode='constant', cval=0, prefilter=True):
    if reshape:
        raise Unsupported('rotate reshape')
    return ho.opaque(f'ndimage.rotate_{axes}_{mode}_{cval}_{order}', [facade.as_arr(a)], [angle], a.shape, a.dtype)


def _shift(a, shift, output=None, order=3, mode='constant', cval=0, prefilter=True):
    sh = list(shift) if not isinstance(shift, (int, SymInt, SymReal, Fraction)) else [shift]
    return ho.opaque(f'ndimage.shift_{mode}_{order}', [facade.as_arr(a)], sh, a.shape, a.dtype)


ndimage.rotate = _rotate
ndimage.shift = _shift
sfft = Stub('scipy.fft')
sfft.fft2 = lambda a, **k: facade.fft.fft2(a, **k)
sfft.ifft2 = lambda a, **k: facade.fft.ifft2(a, **k)
sfft.fftshift = facade.fft.fftshift
slinalg = Stub('scipy.linalg')
slinalg.pinv = lambda a, *r, **k: facade.linalg.pinv(a, *r, **k)


def _block_diag(*ms):
    ms = [facade.atleast_2d(m) for m in ms]
    rows = 0
    cols = 0
    for m in ms:
        rows = scalar_op('+', rows, m.shape[0])
        cols = scalar_op('+', cols, m.shape[1])
    out = facade.zeros((rows, cols), dtype=facade.promote(*[m.dtype for m in ms]))
    r = c = 0
    for m in ms:
        out[r:scalar_op('+', r, m.shape[0]), c:scalar_op('+', c, m.shape[1])] = m
        r = scalar_op('+', r, m.shape[0])
        c = scalar_op('+', c, m.shape[1])
    return out


slinalg.block_diag = _block_diag
sspecial = Stub('scipy.special')
sinterp = Stub('scipy.interpolate')


def bilinear(a):
    """Bilinear interpolation of a 2D array at real coordinates: an unknown but fixed function of values and coordinates."""
    base = ho._opq_args([a], [])

    def at(y, x):
        y, x = T.norm_const(y), T.norm_const(x)
        if all(isinstance(v, (int, Fraction)) for v in (y, x) + tuple(a.shape)) and 0 <= y <= a.shape[0] - 1 and 0 <= x <= a.shape[1] - 1:
            i, j = min(_math.floor(y), a.shape[0] - 2), min(_math.floor(x), a.shape[1] - 2)
            r = 0
            for p, wy in ((i, 1 - (y - i)), (i + 1, y - i)):
                for q, wx in ((j, 1 - (x - j)), (j + 1, x - j)):
                    if wy and wx:
                        r = scalar_op('+', r, scalar_op('*', wy * wx, a.at((p, q))))
            return r
        args, groups = base
        return mk_real(ho._opq_app('bilinear', (args + [zreal(y), zreal(x)], groups), (), T.R))
    return at


class RegularGridInterpolator:
    def __init__(self, points, values, method='linear', bounds_error=True, fill_value=None):
        values = facade.as_arr(values)
        if method != 'linear' or len(points) != 2 or values.ndim != 2:
            raise Unsupported('RegularGridInterpolator')
        for p, n in zip(points, values.shape):
            p = facade.as_arr(p)
            if not T.CTX.fork(zbool(scalar_op('==', p.shape[0], n))):
                raise ValueError('points and values do not match')
            q = facade.fresh_int('grid')
            ok = T.CTX.entails(zbool(T.s_or(scalar_op('<', q, 0), scalar_op('>=', q, n), scalar_op('==', p.at((q,)), q))))
            if not ok:
                raise Unsupported('grid other than 0, 1, 2...')
        self.f = bilinear(values.copy())

    def __call__(self, xi, method=None):
        y, x = [facade.as_arr(v) for v in xi]
        ry, rx = y.reader(), x.reader()
        return facade.SymArray(y.shape, lambda idx: self.f(ry(idx), rx(idx)), facade.float64)


sinterp.RegularGridInterpolator = RegularGridInterpolator


def _binary_dilation(a, *r, **k):
    if r or k:
        raise Unsupported('binary_dilation with options')
    a = facade.as_arr(a)
    H, W = a.shape
    g = a.reader()

    def el(idx):
        y, x = idx
        c = []
        for dy, dx in ((0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)):
            p, q = scalar_op('+', y, dy), scalar_op('+', x, dx)
            ok = T.s_and(scalar_op('>=', p, 0), scalar_op('<', p, H), scalar_op('>=', q, 0), scalar_op('<', q, W))
            if ok is False:
                continue
            v = g((p, q))
            c.append(T.s_and(ok, v if facade.kind_of(v) == 'b' else scalar_op('!=', v, 0)))
        return T.s_or(*c)
    return facade.SymArray(a.shape, el, facade.bool_)


ndimage.binary_dilation = _binary_dilation
scipy_ = Stub('scipy')
for _n, _m in (('ndimage', ndimage), ('fft', sfft), ('linalg', slinalg), ('special', sspecial), ('interpolate', sinterp)):
    setattr(scipy_, _n, _m)

# ---------------------------------------------------------------- astropy fits (in-memory model)
FS = {}          # path -> list of (header dict, data)


class Header(dict):
    """Keyword/value cards; values come back as they were stored (numbers, strings, bools)."""
    def __init__(self, *a, **k):
        super().__init__()

    def __setitem__(self, k, v):
        if isinstance(v, tuple):
            v = v[0]
        from .symstr import SymStr
        if isinstance(v, (SymArray, list)):
            raise ValueError('illegal header value')
        if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
            raise ValueError('Floating point inf/nan values are not allowed in FITS headers.')
        super().__setitem__(self._k(k), v)

    def _k(self, k):
        return k.upper() if isinstance(k, str) else k

    def __getitem__(self, k):
        return super().__getitem__(self._k(k))

    def __contains__(self, k):
        return super().__contains__(self._k(k))

    def get(self, k, d=None):
        return super().get(self._k(k), d)

    def add_comment(self, *a, **k):
        pass

    def copy(self):
        h = Header()
        for k, v in self.items():
            dict.__setitem__(h, k, v)
        return h


class HDU:
    def __init__(self, data=None, header=None, name=None):
        data = _chk(data)
        self.data = data.copy() if isinstance(data, SymArray) else data
        self.header = header.copy() if header is not None else Header()
        if name is not None:
            self.header['EXTNAME'] = name


class HDUList(list):
    def __getitem__(self, k):
        if isinstance(k, str):
            for h in self:
                if h.header.get('EXTNAME') == k.upper():
                    return h
            raise KeyError(f'Extension {k} not found.')
        return super().__getitem__(k)

    def writeto(self, fn, overwrite=False, **k):
        key = _fkey(fn)
        if key in FS and not overwrite:
            raise OSError('file exists')
        FS[key] = [(h.header.copy(), h.data.copy() if isinstance(h.data, SymArray) else h.data) for h in self]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _fkey(fn):
    from .symstr import SymStr
    return fn.key() if isinstance(fn, SymStr) else str(fn)


def _chk(data):
    if isinstance(data, SymArray) and data.kind == 'c':
        raise KeyError('complex data are not FITS images')
    if isinstance(data, SymArray) and data.kind == 'b':
        raise KeyError('bool')
    return data


class _Fits:
    Header = Header
    HDUList = HDUList
    PrimaryHDU = HDU
    ImageHDU = HDU

    @staticmethod
    def open(fn, **k):
        key = _fkey(fn)
        if key not in FS:
            raise FileNotFoundError(fn)
        return HDUList([HDU(d, h) for h, d in FS[key]])

    @staticmethod
    def writeto(fn, data, header=None, overwrite=False, **k):
        HDUList([HDU(_chk(data), header)]).writeto(fn, overwrite=overwrite)

    @staticmethod
    def append(fn, data, header=None, **k):
        key = _fkey(fn)
        FS.setdefault(key, []).append((header.copy() if header is not None else Header(),
                                       _chk(data).copy() if isinstance(data, SymArray) else data))

    @staticmethod
    def _norm(args, kw):
        ext = args[0] if args else kw.get('ext', None)
        return ext

    @staticmethod
    def getheader(fn, *a, **k):
        key = _fkey(fn)
        if key not in FS:
            raise FileNotFoundError(fn)
        ext = _Fits._norm(a, k) or 0
        l = FS[key]
        if ext >= len(l):
            raise IndexError('Extension not found')
        return l[ext][0].copy()

    @staticmethod
    def getdata(fn, *a, header=False, **k):
        key = _fkey(fn)
        if key not in FS:
            raise FileNotFoundError(fn)
        ext = _Fits._norm(a, k)
        l = FS[key]
        if ext is None:
            ext = 0
            if l[0][1] is None and len(l) > 1:
                ext = 1
        if ext >= len(l):
            raise IndexError('Extension not found')
        d = l[ext][1]
        d = d.copy() if isinstance(d, SymArray) else d
        return (d, l[ext][0].copy()) if header else d


fits_ = _Fits()
astropy_io = types.ModuleType('astropy.io')
astropy_io.fits = fits_
astropy_ = Stub('astropy')
astropy_.io = astropy_io


# ---------------------------------------------------------------- os: paths of the in-memory model never touch the disk
VROOT = '/pvc-memory-fs'
DIRS = set()


def _virtual(p):
    from .symstr import SymStr
    return isinstance(p, SymStr) or isinstance(p, str) and (p == VROOT or p.startswith(VROOT + '/'))


def _os_model():
    m, mp = types.ModuleType('os'), types.ModuleType('os.path')
    m.__dict__.update({k: v for k, v in vars(os).items() if not k.startswith('__')})
    mp.__dict__.update({k: v for k, v in vars(os.path).items() if not k.startswith('__')})
    m.path = mp

    def isdir(p):
        return p == VROOT or isinstance(p, str) and p.rstrip('/') in DIRS if _virtual(p) else os.path.isdir(p)

    def isfile(p):
        return _fkey(p) in FS if _virtual(p) else os.path.isfile(p)

    def exists(p):
        return isdir(p) or isfile(p) if _virtual(p) else os.path.exists(p)

    def makedirs(p, mode=0o777, exist_ok=False):
        if not _virtual(p):
            return os.makedirs(p, mode, exist_ok)
        if isfile(p) or isdir(p) and not exist_ok:
            raise FileExistsError(p)
        while _virtual(p) and p != VROOT:
            DIRS.add(p.rstrip('/'))
            p = os.path.dirname(p)

    def mkdir(p, mode=0o777):
        if not _virtual(p):
            return os.mkdir(p, mode)
        if exists(p):
            raise FileExistsError(p)
        DIRS.add(p.rstrip('/'))

    def remove(p):
        if not _virtual(p):
            return os.remove(p)
        if not isfile(p):
            raise FileNotFoundError(p)
        del FS[_fkey(p)]
    mp.isdir, mp.isfile, mp.exists, m.makedirs, m.mkdir, m.remove, m.unlink = isdir, isfile, exists, makedirs, mkdir, remove, remove
    return m


os_ = _os_model()

matplotlib_ = Stub('matplotlib')
MODS = {}


def lookup(name, fromlist):
    top = name.split('.')[0]
    if top == 'numpy':
        if name == 'numpy' or not fromlist:
            return facade
        sub = name.split('.', 1)[1]
        return getattr(facade, sub, Stub(name))
    if name == 'functools':
        return functools_
    if name == 'math':
        return math_
    if top == 'os':
        return os_.path if name == 'os.path' and fromlist else os_
    if top == 'scipy':
        if name == 'scipy' or not fromlist:
            return scipy_
        m = {'scipy.ndimage': ndimage, 'scipy.fft': sfft, 'scipy.linalg': slinalg, 'scipy.special': sspecial,
             'scipy.interpolate': sinterp}.get(name)
        return m if m is not None else Stub(name)
    if top == 'astropy':
        if name == 'astropy.io' and fromlist:
            return astropy_io
        if not fromlist:
            return astropy_
        return Stub(name)
    if top in ('cupy', 'cupyx', 'control', 'mpi4py', 'numba', 'line_profiler', 'torch'):
        raise ImportError(name)
    if top in ('matplotlib', 'socketio', 'flask', 'flask_socketio', 'symao', 'seeing', 'skimage', 'synim', 'orthogram',
               'graphviz', 'nvtx', 'PIL'):
        return Stub(name)
    return None
