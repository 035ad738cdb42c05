"""The concrete side of the harness interface: the same contracts evaluated on the real,
unmodified code (cross-check of the verifier, and replay of counter-models)."""
import itertools
import types
import random
import zlib
import math
import numpy as np
from .api import StaleHarness

_ABSENT = object()


class Skip(BaseException):
    """Assumption not met by this trial."""


class Violated(BaseException):
    def __init__(self, label, detail):
        self.label = label
        self.detail = detail


class ConcEnv:
    symbolic = False

    def __init__(self, seed, inputs=None, tmp=None, size=4):
        self.given = inputs
        self.rnd = random.Random(seed)
        self._reals = []
        self.nprng = np.random.default_rng(self.rnd.getrandbits(60))
        self.np = self.xp = np
        self.used = {}
        self.reached = {}
        self.tmp = tmp
        self.size = size
        self.mode = 'concrete'
        self.viol = None
        self.notes = {}
        self.poked = False
        self.undo = []

    # ------------------------------------------------------------ inputs
    def _given(self, name):
        if self.given is not None and name in self.given:
            return True
        return False

    def _rec(self, name, v):
        if name in self.used:
            raise StaleHarness(f'duplicate input {name}')
        self.used[name] = v

    def dim(self, name, lo=1, hi=None):
        if self._given(name):
            v = int(self.given[name])
        else:
            top = lo + self.size if hi is None else min(hi, lo + self.size)
            v = self.rnd.randint(lo, top)
        self._rec(name, v)
        return v

    def int(self, name, lo=None, hi=None):
        if self._given(name):
            v = int(self.given[name])
        else:
            if lo is None and hi is None:
                lo, hi = -6, 6
            elif lo is None:
                lo = hi - 12
            elif hi is None:
                hi = lo + 12
            lo, hi = int(lo), int(hi)
            if hi < lo:
                raise Skip()
            v = self.rnd.randint(lo, hi) if self.rnd.random() < 0.7 else self.rnd.choice([lo, hi, min(lo + 1, hi)])
        self._rec(name, v)
        return v

    def real(self, name, lo=None, hi=None, strict=False):
        if self._given(name):
            v = float(self.given[name])
        else:
            a = -3.0 if lo is None else float(lo)
            b = a + 6.0 if hi is None else float(hi)
            if lo is None and hi is not None:
                a = b - 6.0
            v = self.rnd.uniform(a, b)
            r = self.rnd.random()
            if r < 0.12 and a <= 0 <= b and not strict:
                v = 0.0
            elif r < 0.2 and a <= 1 <= b:
                v = 1.0
            elif r < 0.26 and not strict:
                v = self.rnd.choice([a, b])
            elif r < 0.36:
                v = self.rnd.choice([x for x in self._reals if a <= x <= b] or [v])
            self._reals.append(v)
        self._rec(name, v)
        return v

    def cplx(self, name):
        return complex(self.real(name + '_re'), self.real(name + '_im'))

    def bool(self, name):
        v = bool(self.given[name]) if self._given(name) else self.rnd.random() < 0.5
        self._rec(name, v)
        return v

    def flag(self, name):
        return bool(self.choice(name, [False, True]))

    def choice(self, name, options):
        k = int(self.given[name]) if self._given(name) else self.rnd.randrange(len(options))
        if k >= len(options):
            raise Skip()
        self._rec(name, k)
        return options[k]

    def array(self, name, shape, kind='f', lo=None, hi=None, dtype=None):
        if not isinstance(shape, tuple):
            shape = (shape,)
        shape = tuple(int(d) for d in shape)
        dt = dtype if dtype is not None else {'f': np.float64, 'i': np.int64, 'b': np.bool_, 'c': np.complex128}[kind]
        k = np.dtype(dt).kind
        g = self.given.get(name) if self.given is not None else None
        if g is not None and tuple(g['shape']) == shape:
            if k == 'c':
                d = np.array([complex(*x) for x in g['data']], dtype=dt) if g['data'] else np.zeros(0, dt)
            else:
                d = np.array(g['data'], dtype=dt)
            v = d.reshape(shape)
        else:
            v = self._rand_array(shape, k, lo, hi, dt)
        data = v.ravel()
        rec = [[x.real, x.imag] for x in data.tolist()] if k == 'c' else data.tolist()
        self._rec(name, dict(shape=list(shape), kind=k, data=rec))
        return v

    def indices(self, name, shape, size, coords=0):
        if not isinstance(shape, tuple):
            shape = (shape,)
        shape = tuple(int(d) for d in shape)
        sizes = tuple(int(x) for x in size) if coords else (int(size),)
        n, tot = int(np.prod(shape)), int(np.prod(sizes))
        full = ((coords,) + shape) if coords else shape
        g = self.given.get(name) if self.given is not None else None
        if g is not None and tuple(g['shape']) == full:
            v = np.array(g['data'], dtype=np.int64).reshape(full)
            c = v.reshape(coords or 1, -1)
            if len(set(map(tuple, c.T))) < n or any((c[k] < 0).any() or (c[k] >= sizes[k]).any() for k in range(len(sizes))):
                raise Skip()
        else:
            if tot < n:
                raise Skip()
            flat = self.nprng.permutation(tot)[:n]
            v = np.array(np.unravel_index(flat, sizes)).reshape(full) if coords else flat.reshape(full)
        self._rec(name, dict(shape=list(full), kind='i', data=v.ravel().tolist()))
        return v.astype(np.int64)

    def _rand_array(self, shape, k, lo, hi, dt):
        r = self.nprng
        if k == 'b':
            p = self.rnd.choice([0.5, 0.8, 0.3, 0.9])
            return r.random(shape) < p
        if k in 'iu':
            a = -5 if lo is None else int(lo)
            b = a + 10 if hi is None else int(hi)
            return r.integers(a, b + 1, size=shape).astype(dt)
        if k == 'c':
            return (r.normal(size=shape) + 1j * r.normal(size=shape)).astype(dt)
        a = -3.0 if lo is None else float(lo)
        b = a + 6.0 if hi is None else float(hi)
        v = r.uniform(a, b, size=shape).astype(dt)
        how = self.rnd.random()
        if how < 0.1:        # ties: constant, few values, integers
            v = np.full(shape, r.uniform(a, b)).astype(dt)
        elif how < 0.16:
            v = r.choice([r.uniform(a, b), r.uniform(a, b)], size=shape).astype(dt)
        elif how < 0.22 and np.ceil(a) <= np.floor(b):
            v = r.integers(int(np.ceil(a)), int(np.floor(b)) + 1, size=shape).astype(dt)
        elif a <= 0 <= b and self.rnd.random() < 0.3 and np.size(v):
            v = np.where(r.random(shape) < 0.25, 0.0, v).astype(dt)
        return v

    def text(self, name):
        if self._given(name):
            v = str(self.given[name])
        else:
            r = self.rnd
            v = r.choice('abcXYZ') + ''.join(r.choice('abcdefgXYZ0189') for _ in range(r.randrange(0, 5))) + str(len(self.used))
        self._rec(name, v)
        return v

    def int_text(self, v):
        return str(int(v))

    def cat(self, *parts):
        return ''.join(parts)

    def bilinear(self, a):
        return lambda y, x: self._bilinear(a, y, x)

    def _bilinear(self, a, y, x):
        H, W = a.shape
        i, j = min(max(int(np.floor(y)), 0), H - 2), min(max(int(np.floor(x)), 0), W - 2)
        t, u = y - i, x - j
        return (a[i, j] * (1 - t) * (1 - u) + a[i, j + 1] * (1 - t) * u + a[i + 1, j] * t * (1 - u)
                + a[i + 1, j + 1] * t * u)

    def floor(self, v):
        return int(np.floor(v))

    def func(self, name, *args):
        h = zlib.crc32(repr((name,) + tuple(round(float(a), 9) for a in args)).encode())
        return (h % 10007) / 5003.0 - 1.0

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise Skip()

    def assume_forall(self, dims, fn, inst=None):
        dims = dims if isinstance(dims, tuple) else (dims,)
        for idx in itertools.product(*[range(int(d)) for d in dims]):
            if not fn(*idx):
                raise Skip()

    # ------------------------------------------------------------ logic
    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not a

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def sum(self, n, f):
        r = 0
        for i in range(int(n)):
            r = r + f(i)
        return r

    def case(self, cond):
        return bool(cond)

    # ------------------------------------------------------------ checks
    def ensure(self, label, cond, detail=''):
        self.reached[label] = self.reached.get(label, 0) + 1
        if not bool(np.all(cond)):
            raise Violated(label, detail or 'condition is false')
        return True

    def _close(self, a, b, tol, least=1e-12):
        tol = 1e-7 if tol is None else tol
        with np.errstate(all='ignore'):
            a = np.asarray(a)
            b = np.asarray(b)
            if a.dtype.kind == 'O' or b.dtype.kind == 'O' or a.dtype.kind in 'US' or b.dtype.kind in 'US':
                return bool(np.all(a == b))
            if a.dtype.kind in 'iub' and b.dtype.kind in 'iub':
                return bool(np.all(a == b))
            fb = b[np.isfinite(b)] if b.ndim else (b if np.isfinite(b) else np.zeros(0))
            scale = float(np.max(np.abs(fb))) if np.size(fb) else 0.0
            return bool(np.allclose(a, b, rtol=tol, atol=tol * max(scale, least) + 1e-13, equal_nan=True))

    def eq(self, label, a, b, tol=None, shape_only=False):
        self.reached[label] = self.reached.get(label, 0) + 1
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if not (a is b or (type(a) is type(b) and a == b)):
                raise Violated(label, f'{a!r} != {b!r}')
            return True
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                raise Violated(label, f'length {len(a)} != {len(b)}')
            for x, y in zip(a, b):
                self.eq(label, x, y, tol)
            return True
        aa, bb = np.asarray(a), np.asarray(b)
        if aa.size != 1 or bb.size != 1:
            if aa.shape != bb.shape and not (aa.shape == () or bb.shape == ()):
                raise Violated(label, f'shape {aa.shape} != {bb.shape}')
        if not self._close(aa, bb, tol):
            raise Violated(label, f'{_short(aa)} != {_short(bb)}')
        return True

    def eq_fn(self, label, a, shape, fn, tol=None, least=1e-12):
        shape = tuple(int(d) for d in (shape if isinstance(shape, tuple) else (shape,)))
        self.reached[label] = self.reached.get(label, 0) + 1
        a = np.asarray(a)
        if a.shape != shape:
            raise Violated(label, f'shape {a.shape} != {shape}')
        b = self.mk(shape, fn, 'c' if a.dtype.kind == 'c' else 'f')
        if not self._close(a, b, tol, least):
            raise Violated(label, f'{_short(a)} != {_short(b)}')
        return True

    def forall(self, label, dims, fn):
        dims = dims if isinstance(dims, tuple) else (dims,)
        self.reached[label] = self.reached.get(label, 0) + 1
        for idx in itertools.product(*[range(int(d)) for d in dims]):
            if not bool(np.all(fn(*idx))):
                raise Violated(label, f'fails at index {idx}')
        return True

    def raises(self, label, exc, fn, *a, **k):
        self.reached[label] = self.reached.get(label, 0) + 1
        try:
            fn(*a, **k)
        except exc:
            return True
        except Exception as e:
            raise Violated(label, f'raised {type(e).__name__}: {e} instead of {exc}')
        raise Violated(label, f'did not raise {exc}')

    def snap(self, a):
        if isinstance(a, (list, tuple)):
            return [self.snap(x) for x in a]
        return np.array(a, copy=True) if isinstance(a, np.ndarray) else a

    def mk(self, shape, fn, kind='f'):
        shape = tuple(int(d) for d in (shape if isinstance(shape, tuple) else (shape,)))
        dt = {'f': np.float64, 'i': np.int64, 'b': np.bool_, 'c': np.complex128}[kind]
        out = np.zeros(shape, dt)
        for idx in itertools.product(*[range(d) for d in shape]):
            out[idx] = fn(*idx)
        return out

    def setattr(self, obj, name, val):
        if not hasattr(obj, name):
            raise StaleHarness(f'{type(obj).__name__} has no attribute {name}')
        self.poked = True
        if isinstance(obj, (type, types.ModuleType)):        # shared with other harnesses
            self.undo.append((obj, name, vars(obj).get(name, _ABSENT)))
        setattr(obj, name, val)

    def restore(self):
        while self.undo:
            obj, name, old = self.undo.pop()
            if old is _ABSENT:
                delattr(obj, name)
            else:
                setattr(obj, name, old)

    def tmpfile(self, name='f.fits'):
        import os
        import shutil
        p = os.path.join(self.tmp, name)
        if os.path.isdir(p):
            shutil.rmtree(p)
        elif os.path.exists(p):
            os.remove(p)
        return p


def _short(x):
    s = np.array2string(np.asarray(x), precision=8, threshold=12)
    return ' '.join(s.split())[:300]
