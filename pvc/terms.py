"""Symbolic scalars and the path context of the pvc verifier.

Concrete values stay ordinary Python values: bool, int, Fraction (a "float" under
the exact-real reading), and float inf/nan.  Symbolic values are SymBool, SymInt,
SymReal (z3 terms) and SymCplx (pair of real-like values).
"""
import sys
from fractions import Fraction
import math as _math

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3

z3.set_param('model.completion', True)


class Unsupported(Exception):
    """A construct outside the verifier's subset: the harness is undecided."""


class PathEnd(BaseException):
    """The current path is infeasible or finished early."""


class Budget(BaseException):
    """Too many paths / too much time: undecided."""


# ---------------------------------------------------------------- context
_PC = {}


def plain_consts(t):
    """Names of the constants of a term without functions, arrays and quantifiers (empty set otherwise)."""
    k = t.get_id()
    hit = _PC.get(k)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    out = set()
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if len(seen) > 60 or not z3.is_app(x):
            out = set()
            break
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if x.num_args() or x.sort().kind() not in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT, z3.Z3_BOOL_SORT):
                out = set()
                break
            out.add(x.decl().name())
        stack += x.children()
    out = frozenset(out)
    _PC[k] = (t, out)
    return out


class Ctx:
    def __init__(self):
        self.reset([])
        self.deadline = None

    def reset(self, prefix):
        self.prefix = list(prefix)
        self.trace = []            # decisions taken: list of (bool, forced)
        self.pc = []               # z3 terms assumed on this path
        self.solver = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
        self.solver.set('timeout', 1500)
        self.fresh_n = 0
        self.events = []
        self.axioms_seen = set()
        self.eff_facts = {}
        self.bound = []
        self.rng_n = 0
        self.lazy = []             # (term, facts about it): assumed once the term matters
        self.decided = {}          # conditions already settled on this path (which only gains facts)
        for c in base_axioms():
            self.assume(c)

    def assume(self, t):
        if z3.is_true(t):
            return
        if self.lazy:
            self.need(t)
        self.pc.append(t)
        self.solver.add(t)

    def defer(self, app, facts):
        self.lazy.append((app, [f for f in facts if not z3.is_true(z3.simplify(f))]))

    def need(self, t):
        """Assume the deferred facts about the terms of t."""
        for app, facts in self.lazy:
            if facts and mentions(t, [app]):
                have = {c.get_id() for c in self.pc}
                for f in facts:
                    if f.get_id() not in have:
                        self.pc.append(f)
                        self.solver.add(f)

    def feasible(self, extra=None):
        if self.deadline is not None:
            import time
            if time.time() > self.deadline:
                raise Budget('time budget')
        if extra is not None and self.quick_unsat(extra):
            return False
        if extra is not None and self.lazy:
            self.need(extra)
        r = self.solver.check(*([extra] if extra is not None else []))
        return r != z3.unsat

    def quick_unsat(self, t):
        """t contradicts the facts about its own variables only (cheap; False means unknown)."""
        vs = plain_consts(t)
        if not vs or len(vs) > 4:
            return False
        key = (t.get_id(), len(self.pc))
        fs = [c for c in self.pc if (lambda w: w and w <= vs)(plain_consts(c))]
        if not fs:
            return False
        q = z3.Solver()
        q.set('timeout', 200)
        q.add(*fs)
        return q.check(t) == z3.unsat

    def entails(self, t, timeout=None):
        """True if the path condition provably entails t (sound, incomplete)."""
        if isinstance(t, bool):
            return t
        s = z3.simplify(t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.quick_unsat(z3.Not(s)):
            return True
        if self.lazy:
            self.need(s)
        return self.solver.check(z3.Not(s)) == z3.unsat

    def fork(self, t):
        """Decide the truth of t on this path (exploring both)."""
        s = z3.simplify(t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        known = self.decided.get(s.get_id())
        if known is not None:
            return known[1]
        if self.lazy:
            self.need(s)
        if self.bound and mentions(s, self.bound):
            # inside the body of a reduction / opaque argument: no case split on the bound index
            if self.solver.check(z3.Not(s)) == z3.unsat:
                return self.settle(s, True)
            if self.solver.check(s) == z3.unsat:
                return self.settle(s, False)
            raise Unsupported('case split on a bound index')
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k][0]
            forced = self.prefix[k][1]
        else:
            can_t = self.feasible(s)
            can_f = self.feasible(z3.Not(s)) if can_t else True
            if not can_t and not self.feasible(z3.Not(s)):
                raise PathEnd()
            if can_t and can_f:
                d, forced = True, False
                if FORKLOG is not None:
                    log_fork(s)
            else:
                d, forced = can_t, True
        self.trace.append((d, forced))
        if forced and self.bound:
            # may follow from the range of the bound index only: not a fact of the path
            self.solver.add(s if d else z3.Not(s))
        else:
            self.assume(s if d else z3.Not(s))
        return self.settle(s, d)

    def settle(self, s, d):
        self.decided[s.get_id()] = (s, d)
        return d

    def choose(self, n):
        """Nondeterministic choice 0..n-1 (all explored)."""
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k][0]
        else:
            d = 0
        self.trace.append((d, n))
        return d

    def fresh_name(self, base):
        self.fresh_n += 1
        return f'{base}!{self.fresh_n}'


FORKLOG = {} if __import__('os').environ.get('PVC_FORKS') else None


def log_fork(t):
    import sys
    f = sys._getframe(2)
    l = []
    while f is not None and len(l) < 6:
        if '/pvc/terms' not in f.f_code.co_filename:
            l.append(f'{f.f_code.co_filename.split("/")[-1]}:{f.f_lineno}')
        f = f.f_back
    k = (str(t)[:120], ' < '.join(l))
    FORKLOG[k] = FORKLOG.get(k, 0) + 1
    if sum(FORKLOG.values()) % 25 == 0:
        sys.stderr.write('\n'.join(f'{v} {k}' for k, v in sorted(FORKLOG.items(), key=lambda x: -x[1])[:30]) + '\n----\n')


def mentions(t, consts):
    ids = {c.get_id() for c in consts}
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


class BoundVar:
    '''with BoundVar(n1, n2..) as (k1, k2..): fresh bound indices with 0<=k<n assumed meanwhile.'''
    def __init__(self, *dims, name='bv'):
        self.dims = dims

    def __enter__(self):
        ks = [z3.Int(CTX.fresh_name('k')) for _ in self.dims]
        self.ks = ks
        self.npc = len(CTX.pc)
        self.decided = dict(CTX.decided)
        CTX.solver.push()
        CTX.bound = CTX.bound + ks
        for k, n in zip(ks, self.dims):
            CTX.solver.add(k >= 0)
            CTX.solver.add(k < zint(n))
        return [SymInt(k) for k in ks]

    def __exit__(self, *a):
        CTX.solver.pop()
        CTX.decided = self.decided
        CTX.bound = CTX.bound[:len(CTX.bound) - len(self.ks)]
        # facts assumed meanwhile (not mentioning the bound index) survive
        for t in CTX.pc[self.npc:]:
            CTX.solver.add(t)
        return False


CTX = None


def next_prefix(trace):
    """Depth-first successor of a finished decision trace (None if exhausted)."""
    tr = list(trace)
    while tr:
        d, forced = tr.pop()
        if isinstance(d, bool):
            if not forced and d is True:
                return tr + [(False, False)]
        else:
            if d + 1 < forced:
                return tr + [(d + 1, forced)]
    return None


# ---------------------------------------------------------------- helpers
def is_sym(x):
    return isinstance(x, Sym)


def to_frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        if _math.isinf(x) or _math.isnan(x):
            return x
        return Fraction(repr(float(x)))
    raise Unsupported(f'to_frac {type(x)}')


def norm_const(x):
    """Normalise concrete Python/numpy scalars to bool/int/Fraction/inf."""
    if isinstance(x, (bool, int, Fraction, Sym)):
        return x
    if isinstance(x, float):
        return to_frac(x)
    if isinstance(x, complex):
        return mk_cplx(to_frac(x.real), to_frac(x.imag))
    import numpy as _np
    if isinstance(x, _np.generic):
        return norm_const(x.item())
    return x


def zint(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction) and x.denominator == 1:
        return z3.IntVal(x.numerator)
    raise Unsupported(f'zint of {type(x).__name__}')


def zreal(x):
    if isinstance(x, SymReal):
        return x.t
    if isinstance(x, SymInt):
        return z3.ToReal(x.t)
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (bool, int)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, float):
        f = to_frac(x)
        if isinstance(f, Fraction):
            return z3.RealVal(str(f))
        raise Unsupported('inf/nan in real term')
    raise Unsupported(f'zreal of {type(x).__name__}')


def zbool(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SymInt):
        return x.t != 0
    if isinstance(x, SymReal):
        return x.t != 0
    if isinstance(x, (int, Fraction)):
        return z3.BoolVal(bool(x))
    raise Unsupported(f'zbool of {type(x).__name__}')


def mk_bool(t):
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def mk_int(t):
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def mk_real(t):
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return SymReal(t)


def mk_cplx(re, im):
    return SymCplx(re, im)


def kind_of(x):
    """'b','i','f','c' of a scalar."""
    if isinstance(x, (bool, SymBool)):
        return 'b'
    if isinstance(x, (int, SymInt)):
        return 'i'
    if isinstance(x, (Fraction, SymReal, float)):
        return 'f'
    if isinstance(x, (complex, SymCplx)):
        return 'c'
    import numpy as _np
    if isinstance(x, _np.generic):
        return kind_of(x.item())
    return 'O'


def is_inf(x):
    return isinstance(x, float) and (_math.isinf(x) or _math.isnan(x))


class Sym:
    __slots__ = ()
    # numpy must never try to swallow us
    __array_priority__ = 1e9
    __array_ufunc__ = None

    def item(self):
        return self

    def copy(self):
        return self

    def get(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def astype(self, dt, copy=True):
        from . import facade
        return facade.cast_scalar(self, facade.as_dtype(dt))

    @property
    def dtype(self):
        from . import facade
        return {'b': facade.bool_, 'i': facade.int64, 'f': facade.float64, 'c': facade.complex128}[kind_of(self)]

    def __array__(self, *a, **k):
        raise Unsupported('symbolic value escaped into real numpy')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _arith(op):
    def f(self, other):
        return scalar_op(op, self, other)
    return f


def _rarith(op):
    def f(self, other):
        return scalar_op(op, other, self)
    return f


class _Num(Sym):
    __slots__ = ()
    __add__ = _arith('+'); __radd__ = _rarith('+')
    __sub__ = _arith('-'); __rsub__ = _rarith('-')
    __mul__ = _arith('*'); __rmul__ = _rarith('*')
    __truediv__ = _arith('/'); __rtruediv__ = _rarith('/')
    __floordiv__ = _arith('//'); __rfloordiv__ = _rarith('//')
    __mod__ = _arith('%'); __rmod__ = _rarith('%')
    __pow__ = _arith('**'); __rpow__ = _rarith('**')
    __and__ = _arith('&'); __rand__ = _rarith('&')
    __or__ = _arith('|'); __ror__ = _rarith('|')
    __xor__ = _arith('^'); __rxor__ = _rarith('^')
    __lt__ = _arith('<'); __le__ = _arith('<=')
    __gt__ = _arith('>'); __ge__ = _arith('>=')
    __eq__ = _arith('=='); __ne__ = _arith('!=')

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __hash__(self):
        raise Unsupported('hash of a symbolic value')

    def __neg__(self):
        return scalar_op('-', 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __format__(self, spec):
        return f'<sym>'


class SymBool(_Num):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.fork(self.t)

    def __invert__(self):
        return mk_bool(z3.Not(self.t))

    def __hash__(self):
        raise Unsupported('hash of symbolic bool')

    def __index__(self):
        return 1 if CTX.fork(self.t) else 0

    def any(self):
        return self

    def all(self):
        return self

    def __repr__(self):
        return f'SymBool({self.t})'


class SymInt(_Num):
    __slots__ = ('t', 'tag')

    def __init__(self, t, tag=None):
        self.t = t
        # optional structural info: ('div', hi, n, lo) value == hi*n+lo, 0<=lo<n
        #                           ('nz', key, j, k)  j-th coordinate of the k-th true cell of mask `key`
        self.tag = tag

    def __bool__(self):
        return CTX.fork(self.t != 0)

    def __index__(self):
        v = unique_value(self)
        if v is not None:
            return v
        raise Unsupported('symbolic int used as a concrete index')

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported('float() of symbolic int')

    def __hash__(self):
        return hash(self.__index__())

    def __round__(self, nd=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __invert__(self):
        return scalar_op('-', -1, self)

    def conjugate(self):
        return self

    def __repr__(self):
        return f'SymInt({self.t})'


class SymReal(_Num):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.fork(self.t != 0)

    def __float__(self):
        raise Unsupported('float() of symbolic real (native)')

    def __int__(self):
        raise Unsupported('int() of symbolic real (native)')

    def __round__(self, nd=None):
        return s_round(self, nd)

    def __trunc__(self):
        return s_trunc(self)

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return s_ceil(self)

    def is_integer(self):
        return mk_bool(z3.IsInt(self.t))

    def conjugate(self):
        return self

    def conj(self):
        return self

    def __repr__(self):
        return f'SymReal({self.t})'


class SymCplx(_Num):
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SymCplx(self.re, scalar_op('-', 0, self.im))

    conj = conjugate

    def __bool__(self):
        return bool(s_or(scalar_op('!=', self.re, 0), scalar_op('!=', self.im, 0)))

    def __complex__(self):
        raise Unsupported('complex() native')

    def __repr__(self):
        return f'SymCplx({self.re},{self.im})'


def unique_value(x):
    """Concrete int value of x if the path condition forces it."""
    if isinstance(x, int):
        return int(x)
    s = z3.simplify(x.t)
    if z3.is_int_value(s):
        return s.as_long()
    if CTX.solver.check() == z3.sat:
        v = CTX.solver.model().eval(x.t, model_completion=True)
        if z3.is_int_value(v) and CTX.entails(x.t == v):
            return v.as_long()
    return None


# ---------------------------------------------------------------- scalar operations
_UF = {}


def uf(name, *sorts):
    key = (name, tuple(str(s) for s in sorts))
    f = _UF.get(key)
    if f is None:
        f = z3.Function(name, *sorts)
        _UF[key] = f
    return f


R = z3.RealSort()
I = z3.IntSort()
B = z3.BoolSort()

PI = None


def pi():
    global PI
    if PI is None:
        PI = z3.Const('pi', R)
    return SymReal(PI)


def base_axioms():
    p = pi().t
    return [p > z3.RealVal('3.14159'), p < z3.RealVal('3.1416')]


def s_not(a):
    if isinstance(a, bool):
        return not a
    return mk_bool(z3.Not(zbool(a)))


def s_and(*xs):
    ts = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        ts.append(zbool(x))
    if not ts:
        return True
    return mk_bool(ts[0] if len(ts) == 1 else z3.And(*ts))


def s_or(*xs):
    ts = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        ts.append(zbool(x))
    if not ts:
        return False
    return mk_bool(ts[0] if len(ts) == 1 else z3.Or(*ts))


def s_implies(a, b):
    return s_or(s_not(a), b)


def s_ite(c, a, b):
    """If-then-else on scalars (no forking)."""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if not is_sym(a) and not is_sym(b) and type(a) is type(b) and a == b:
        return a
    ct = zbool(c)
    if z3.is_true(ct):
        return a
    if z3.is_false(ct):
        return b
    ka, kb = kind_of(a), kind_of(b)
    if ka == 'c' or kb == 'c':
        return SymCplx(s_ite(c, s_real(a), s_real(b)), s_ite(c, s_imag(a), s_imag(b)))
    if ka == 'b' and kb == 'b':
        return mk_bool(z3.If(ct, zbool(a), zbool(b)))
    if ka in 'bi' and kb in 'bi':
        if isinstance(a, SymInt) and isinstance(b, SymInt) and a.t.eq(b.t):
            return a
        return mk_int(z3.If(ct, zint(a), zint(b)))
    if ka in 'bif' and kb in 'bif':
        if is_inf(a) or is_inf(b):
            if is_inf(a) and is_inf(b) and (a == b or (a != a and b != b)):
                return a
            # fork: infinities cannot live inside terms
            return a if CTX.fork(ct) else b
        ra, rb = zreal(a), zreal(b)
        if ra.eq(rb):
            return mk_real(ra)
        return mk_real(z3.If(ct, ra, rb))
    if a is b:
        return a
    return a if CTX.fork(ct) else b


def s_real(x):
    return x.re if isinstance(x, SymCplx) else (to_frac(x.real) if isinstance(x, complex) else x)


def s_imag(x):
    return x.im if isinstance(x, SymCplx) else (to_frac(x.imag) if isinstance(x, complex) else 0)


def _conc(x):
    return isinstance(x, (bool, int, Fraction)) or isinstance(x, float)


def scalar_op(op, a, b):
    a = norm_const(a)
    b = norm_const(b)
    # arrays handle themselves
    if hasattr(a, '_is_symarray'):
        return a._binop(op, b, False)
    if hasattr(b, '_is_symarray'):
        return b._binop(op, a, True)
    if a is None or b is None or isinstance(a, (str, tuple, list, dict)) or isinstance(b, (str, tuple, list, dict)):
        if op == '==':
            return False
        if op == '!=':
            return True
        if op == '%' and isinstance(a, str):
            return NotImplemented
        if op == '*' and isinstance(a, (list, tuple)) and isinstance(b, SymInt):
            v = unique_value(b)
            if v is not None:
                return a * v
            if len(a) == 1:
                from .seqs import SymSeq
                return SymSeq(b, lambda i: a[0])
            raise Unsupported('list repetition with symbolic count')
        if op == '*' and isinstance(b, (list, tuple)) and isinstance(a, SymInt):
            return scalar_op(op, b, a)
        return NotImplemented
    ca, cb = _conc(a), _conc(b)
    if ca and cb:
        return conc_op(op, a, b)
    ka, kb = kind_of(a), kind_of(b)
    if 'O' in (ka, kb):
        if op == '==':
            return False
        if op == '!=':
            return True
        return NotImplemented
    if ka == 'c' or kb == 'c':
        return cplx_op(op, a, b)
    if op in ('&', '|', '^'):
        if ka == 'b' and kb == 'b':
            if op == '&':
                return s_and(a, b)
            if op == '|':
                return s_or(a, b)
            return mk_bool(z3.Xor(zbool(a), zbool(b)))
        raise Unsupported('bitwise op on symbolic ints')
    if is_inf(a) or is_inf(b):
        return inf_op(op, a, b)
    intish = ka in 'bi' and kb in 'bi'
    if op in ('<', '<=', '>', '>=', '==', '!='):
        if ka == 'b' and kb == 'b' and op in ('==', '!='):
            r = zbool(a) == zbool(b)
            return mk_bool(r if op == '==' else z3.Not(r))
        if intish:
            x, y = zint(a), zint(b)
        else:
            x, y = zreal(a), zreal(b)
        if x.eq(y):
            return op in ('<=', '>=', '==')
        r = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
             '==': lambda: x == y, '!=': lambda: x != y}[op]()
        return mk_bool(r)
    if op == '+':
        if _conc(a) and a == 0 and not isinstance(a, bool):
            if intish and kb == 'b':
                return mk_int(zint(b))
            return b if (intish or kb == 'f') else mk_real(zreal(b))
        if _conc(b) and b == 0 and not isinstance(b, bool):
            if intish and ka == 'b':
                return mk_int(zint(a))
            return a if (intish or ka == 'f') else mk_real(zreal(a))
        return mk_int(zint(a) + zint(b)) if intish else mk_real(zreal(a) + zreal(b))
    if op == '-':
        if _conc(b) and b == 0 and not isinstance(b, bool):
            return a if ka == 'f' or (intish and ka == 'i') else (mk_int(zint(a)) if intish else mk_real(zreal(a)))
        if intish:
            x, y = zint(a), zint(b)
            return 0 if x.eq(y) else mk_int(x - y)
        x, y = zreal(a), zreal(b)
        return Fraction(0) if x.eq(y) else mk_real(x - y)
    if op == '*':
        for u, v in ((a, b), (b, a)):
            if _conc(u):
                if u == 0:
                    return 0 if intish else Fraction(0)
                if u == 1:
                    if intish:
                        return v if isinstance(v, SymInt) else mk_int(zint(v))
                    return mk_real(zreal(v))
        # bool * x  ->  ite (keeps the arithmetic linear)
        for u, v in ((a, b), (b, a)):
            if isinstance(u, SymBool):
                return s_ite(u, (v if intish else mk_real(zreal(v))), 0 if intish else Fraction(0)) \
                    if not (intish and kind_of(v) == 'b') else mk_int(zint(s_and(u, v)))
        return mk_int(zint(a) * zint(b)) if intish else mk_real(zreal(a) * zreal(b))
    if op == '/':
        if _conc(b) and b == 0:
            raise ZeroDivisionError('division by zero')
        if _conc(b) and b == 1:
            return mk_real(zreal(a))
        return mk_real(zreal(a) / zreal(b))
    if op == '//':
        if intish:
            return int_div(a, b)
        return mk_real(z3.ToReal(z3.ToInt(zreal(a) / zreal(b))))
    if op == '%':
        if intish:
            return int_mod(a, b)
        x, y = zreal(a), zreal(b)
        return mk_real(x - y * z3.ToReal(z3.ToInt(x / y)))
    if op == '**':
        return s_pow(a, b)
    raise Unsupported('op ' + op)


def int_div(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    tag = getattr(a, 'tag', None)
    if tag is not None and tag[0] == 'div' and same_int(tag[2], b):
        return tag[1]
    if isinstance(b, int):
        if b == 1:
            return a
        if b > 0:
            rd = reduce_divmod(a, b)
            if rd is not None:
                q, r = rd[3], norm_const(rd[1])
                return scalar_op('+', q, r // b if isinstance(r, int) else mk_int(zint(r) / z3.IntVal(b)))
            return mk_int(zint(a) / z3.IntVal(b))
        if b == 0:
            raise ZeroDivisionError('integer division by zero')
        return mk_int(-((zint(a)) / z3.IntVal(-b)) if False else _floordiv_neg(zint(a), b))
    rd = reduce_divmod(a, b)
    if rd is not None:
        g, a2, b2, q = rd
        if _within(a2, b2):
            return q
        return scalar_op('+', q, int_div(a2, b2))
    # symbolic divisor: python floor semantics for b>0 (z3 div is floor for b>0)
    if CTX.entails(zint(b) > 0):
        return mk_int(zint(a) / zint(b))
    if CTX.fork(zint(b) == 0):
        raise ZeroDivisionError('integer division by zero')
    if CTX.fork(zint(b) > 0):
        return mk_int(zint(a) / zint(b))
    raise Unsupported('negative symbolic divisor')


def reduce_divmod(a, b):
    """a = g*(a2 + q*b2), b = g*b2 with g > 0 a common monomial: (g, a2, b2, q) or None if nothing to reduce."""
    from .canon import Canon, Big
    try:
        c = Canon()
        pa, pb = c.poly(zint(a)), c.poly(zint(b))
    except (Big, Unsupported, RecursionError):
        return None
    if not pb or any(k.denominator != 1 for k in list(pa.values()) + list(pb.values())):
        return None
    for m in list(pa) + list(pb):
        for i, e in m:
            if c.atoms[i].sort() != I or e < 0:
                return None
    common = None
    for m in list(pb) + list(pa):
        d = dict(m)
        common = d if common is None else {i: min(e, d[i]) for i, e in common.items() if i in d}
    common = {i: e for i, e in (common or {}).items() if e > 0 and CTX.entails(c.atoms[i] > 0)}

    def strip(p, f):
        r = {}
        for m, k in p.items():
            d = dict(m)
            for i, e in f.items():
                d[i] -= e
            r[tuple(sorted((i, e) for i, e in d.items() if e))] = k
        return r

    def term(p):
        ts = []
        for m, k in sorted(p.items(), key=lambda x: str(x[0])):
            fs = [z3.IntVal(int(k))] if k != 1 or not m else []
            for i, e in m:
                fs += [c.atoms[i]] * e
            ts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        return z3.simplify(z3.Sum(*ts)) if len(ts) > 1 else (ts[0] if ts else z3.IntVal(0))
    pa2, pb2 = strip(pa, common), strip(pb, common)
    q = {}
    if len(pb2) == 1:
        (mb, kb), = pb2.items()
        db = dict(mb)
        rest = {}
        for m, k in pa2.items():
            d = dict(m)
            if all(d.get(i, 0) >= e for i, e in db.items()) and k % kb == 0 and (db or abs(kb) != 1 or True):
                for i, e in db.items():
                    d[i] -= e
                q[tuple(sorted((i, e) for i, e in d.items() if e))] = k / kb
            else:
                rest[m] = k
        pa2 = rest
    if not common and not q:
        return None
    g = {tuple(sorted(common.items())): 1}
    return mk_int(z3.simplify(term(g))), mk_int(z3.simplify(term(pa2))), mk_int(z3.simplify(term(pb2))), \
        mk_int(z3.simplify(term(q)))


def _floordiv_neg(x, b):
    # floor(x / b) for b<0  == floor((-x)/(-b))
    return (-x) / z3.IntVal(-b)


def _within(a, b):
    return not (isinstance(a, int) and isinstance(b, int)) and CTX.entails(z3.And(zint(a) >= 0, zint(a) < zint(b)))


def int_mod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    tag = getattr(a, 'tag', None)
    if tag is not None and tag[0] == 'div' and same_int(tag[2], b):
        return tag[3]
    if isinstance(b, int):
        if b > 0:
            rd = reduce_divmod(a, b)
            if rd is not None:
                r = norm_const(rd[1])
                return r % b if isinstance(r, int) else mk_int(zint(r) % z3.IntVal(b))
            return mk_int(zint(a) % z3.IntVal(b))
        if b == 0:
            raise ZeroDivisionError('integer modulo by zero')
        return mk_int(zint(a) - z3.IntVal(b) * _floordiv_neg(zint(a), b))
    rd = reduce_divmod(a, b)
    if rd is not None:
        g, a2, b2, q = rd
        return scalar_op('*', g, a2 if _within(a2, b2) else int_mod(a2, b2))
    if CTX.entails(zint(b) > 0):
        return mk_int(zint(a) % zint(b))
    if CTX.fork(zint(b) == 0):
        raise ZeroDivisionError('integer modulo by zero')
    if CTX.fork(zint(b) > 0):
        return mk_int(zint(a) % zint(b))
    raise Unsupported('negative symbolic modulus')


def same_int(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.t.eq(b.t) or z3.simplify(a.t - b.t).eq(z3.IntVal(0))
    return False


def conc_op(op, a, b):
    if op == '/':
        if is_inf(a) or is_inf(b):
            return float(a) / float(b)
        return to_frac(a) / to_frac(b)
    if is_inf(a) or is_inf(b):
        a, b = float(a), float(b)
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '//':
        r = a // b
        return r if isinstance(a, int) and isinstance(b, int) else to_frac(r)
    if op == '%':
        return a % b
    if op == '**':
        return s_pow(a, b)
    if op == '&':
        return a & b
    if op == '|':
        return a | b
    if op == '^':
        return a ^ b
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]


def inf_op(op, a, b):
    x = a if is_inf(a) else b
    if x != x:
        if op in ('<', '<=', '>', '>=', '=='):
            return False
        if op == '!=':
            return True
        return float('nan')
    if op in ('<', '<=', '>', '>=', '==', '!='):
        fa = a if is_inf(a) else 0.0
        fb = b if is_inf(b) else 0.0
        return {'<': fa < fb, '<=': fa <= fb, '>': fa > fb, '>=': fa >= fb, '==': fa == fb, '!=': fa != fb}[op]
    if op == '+':
        return x
    if op == '-':
        return x if is_inf(a) else -x
    if op == '/' and is_inf(b) and not is_inf(a):
        return Fraction(0)
    raise Unsupported('arithmetic with inf and symbolic value')


def cplx_op(op, a, b):
    ar, ai, br, bi = s_real(a), s_imag(a), s_real(b), s_imag(b)
    P = scalar_op
    if op == '+':
        return SymCplx(P('+', ar, br), P('+', ai, bi))
    if op == '-':
        return SymCplx(P('-', ar, br), P('-', ai, bi))
    if op == '*':
        if kind_of(a) != 'c':
            return SymCplx(P('*', ar, br), P('*', ar, bi))
        if kind_of(b) != 'c':
            return SymCplx(P('*', ar, br), P('*', ai, br))
        return SymCplx(P('-', P('*', ar, br), P('*', ai, bi)), P('+', P('*', ar, bi), P('*', ai, br)))
    if op == '/':
        if kind_of(b) != 'c':
            return SymCplx(P('/', ar, br), P('/', ai, br))
        d = P('+', P('*', br, br), P('*', bi, bi))
        return SymCplx(P('/', P('+', P('*', ar, br), P('*', ai, bi)), d),
                       P('/', P('-', P('*', ai, br), P('*', ar, bi)), d))
    if op == '==':
        return s_and(P('==', ar, br), P('==', ai, bi))
    if op == '!=':
        return s_not(s_and(P('==', ar, br), P('==', ai, bi)))
    if op == '**':
        if isinstance(b, (int, Fraction)) and b == int(b) and 0 <= b <= 8:
            r = 1
            for _ in range(int(b)):
                r = P('*', r, a)
            return r
        if not isinstance(a, SymCplx):
            # real ** complex : only e-like, unsupported
            raise Unsupported('real**complex')
    raise Unsupported('complex ' + op)


def s_pow(a, b):
    if isinstance(b, SymReal) or isinstance(b, SymInt):
        if _conc(a) and not is_inf(a):
            f = uf('pow', R, R, R)
            return mk_real(f(zreal(a), zreal(b)))
        f = uf('pow', R, R, R)
        return mk_real(f(zreal(a), zreal(b)))
    b = norm_const(b)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(b, (int, Fraction)) and b == int(b):
        n = int(b)
        if _conc(a):
            if isinstance(a, int) and isinstance(b, int) and n >= 0:
                return a ** n
            return to_frac(a) ** n
        ka = kind_of(a)
        if n == 0:
            return 1 if (ka == 'i' and isinstance(b, int)) else Fraction(1)
        if abs(n) <= 8:
            r = a if ka != 'b' else mk_int(zint(a))
            for _ in range(abs(n) - 1):
                r = scalar_op('*', r, a)
            if n < 0:
                return scalar_op('/', Fraction(1), r)
            if isinstance(b, Fraction) and kind_of(r) == 'i':
                return mk_real(zreal(r))
            return r
        f = uf('pow', R, R, R)
        return mk_real(f(zreal(a), zreal(b)))
    if b == Fraction(1, 2):
        return s_sqrt(a)
    if _conc(a) and _conc(b):
        a = to_frac(a)
        if a == 0:
            return Fraction(0)
        if a == 1:
            return Fraction(1)
        if not is_inf(a) and a > 0 and b == Fraction(-1, 2):
            return scalar_op('/', 1, s_sqrt(a))
    f = uf('pow', R, R, R)
    return mk_real(f(zreal(a), zreal(b)))


def s_abs(x):
    x = norm_const(x)
    if isinstance(x, SymCplx):
        s = scalar_op('+', scalar_op('*', x.re, x.re), scalar_op('*', x.im, x.im))
        if _conc(x.im) and x.im == 0:
            return s_abs(x.re)
        return s_sqrt(s)
    if _conc(x):
        return abs(x)
    k = kind_of(x)
    if k == 'b':
        return x
    if k == 'i':
        return mk_int(z3.If(x.t >= 0, x.t, -x.t))
    return mk_real(z3.If(x.t >= 0, x.t, -x.t))


def s_min(a, b):
    c = scalar_op('<', b, a)
    return s_ite(c, b, a)


def s_max(a, b):
    c = scalar_op('>', b, a)
    return s_ite(c, b, a)


def s_trunc(x):
    x = norm_const(x)
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int) or isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return mk_int(zint(x))
    if isinstance(x, Fraction):
        return int(x)
    if isinstance(x, float):
        if x != x:
            raise ValueError('cannot convert float NaN to integer')
        raise OverflowError('cannot convert float infinity to integer')
    ip = int_poly(x.t)
    if ip is not None:
        return mk_int(ip)
    return mk_int(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))


def int_poly(t):
    """Int term equal to the real term t when t is visibly an integer-coefficient polynomial of integers."""
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    from .canon import Canon, Big
    try:
        c = Canon()
        p = c.poly(t)
    except (Big, RecursionError):
        return None
    if len(p) > 40:
        return None
    ts = []
    for m, k in sorted(p.items(), key=lambda x: str(x[0])):
        if k.denominator != 1:
            return None
        fs = [z3.IntVal(int(k))] if k != 1 or not m else []
        for i, e in m:
            a = c.atoms[i]
            if z3.is_app_of(a, z3.Z3_OP_TO_REAL):
                a = a.arg(0)
            if a.sort() != I or e < 0:
                return None
            fs += [a] * e
        ts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
    return z3.simplify(z3.Sum(*ts)) if len(ts) > 1 else (ts[0] if ts else z3.IntVal(0))


def s_floor(x):
    x = norm_const(x)
    if isinstance(x, (bool, int, Fraction)):
        return _math.floor(x)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return mk_int(zint(x))
    if isinstance(x, SymReal):
        ip = int_poly(x.t)
        if ip is not None:
            return mk_int(ip)
        return mk_int(z3.ToInt(x.t))
    raise Unsupported('floor')


def s_ceil(x):
    x = norm_const(x)
    if isinstance(x, (bool, int, Fraction)):
        return _math.ceil(x)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return mk_int(zint(x))
    if isinstance(x, SymReal):
        ip = int_poly(x.t)
        if ip is not None:
            return mk_int(ip)
        return mk_int(-z3.ToInt(-x.t))
    raise Unsupported('ceil')


def s_round(x, nd=None):
    """Round half to even (exact reals)."""
    x = norm_const(x)
    if isinstance(x, (bool, int, SymInt)) and (nd is None or nd >= 0):
        return x if not isinstance(x, bool) else int(x)
    if isinstance(x, Fraction):
        return round(x) if nd is None else Fraction(round(x, nd))
    if isinstance(x, float):
        return round(x)
    t = zreal(x)
    if nd is not None and not (isinstance(nd, int)):
        raise Unsupported('round with symbolic digits')
    k = 10 ** (nd or 0) if (nd or 0) >= 0 else Fraction(1, 10 ** (-nd))
    y = t * z3.RealVal(str(k)) if nd else t
    ip = int_poly(y)
    if ip is not None:
        if nd:
            return mk_real(z3.simplify(t))
        r = ip
    else:
        fl = z3.ToInt(y)
        fr = y - z3.ToReal(fl)
        half = z3.RealVal('1/2')
        r = z3.If(fr < half, fl, z3.If(fr > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
    if nd is None:
        return mk_int(r)
    return mk_real(z3.ToReal(r) / z3.RealVal(str(k)))


def s_sqrt(x):
    x = norm_const(x)
    if isinstance(x, (bool, int, Fraction)):
        f = to_frac(x)
        if f >= 0:
            n, d = _math.isqrt(f.numerator), _math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return Fraction(n, d)
    if is_inf(x):
        return _math.sqrt(x)
    return mk_real(uf('sqrt', R, R)(zreal(x)))


def s_fun(name, x):
    """Transcendental functions as uninterpreted functions with concrete special points."""
    x = norm_const(x)
    if isinstance(x, SymCplx):
        if name == 'exp':
            m = s_fun('exp', x.re)
            return SymCplx(scalar_op('*', m, s_fun('cos', x.im)), scalar_op('*', m, s_fun('sin', x.im)))
        raise Unsupported(f'{name} of complex')
    if _conc(x) and not is_inf(x):
        if x == 0:
            if name in ('sin', 'tan', 'arctan', 'sinh', 'tanh', 'arcsin', 'expm1', 'log1p'):
                return Fraction(0)
            if name in ('exp', 'cos', 'cosh'):
                return Fraction(1)
        if x == 1 and name in ('log', 'log10', 'log2'):
            return Fraction(0)
        if name == 'log10' and x == 10:
            return Fraction(1)
    t = zreal(x)
    if name in ('sin', 'cos'):
        k = _turns(t)
        if k is not None and (2 * k).denominator == 1:      # multiples of a right angle
            q = int(2 * k) + (0 if name == 'sin' else 1)
            return Fraction((0, 1, 0, -1)[q % 4])
    return mk_real(uf(name, R, R)(t))


def _turns(t):
    """k when t is k*pi for a rational k."""
    if PI is None:
        return None
    s = z3.simplify(t)
    if s.eq(PI):
        return Fraction(1)
    if z3.is_mul(s) and s.num_args() == 2 and z3.is_rational_value(s.arg(0)) and s.arg(1).eq(PI):
        return Fraction(s.arg(0).numerator_as_long(), s.arg(0).denominator_as_long())
    return None


def s_sign(x):
    x = norm_const(x)
    if isinstance(x, (bool, int, Fraction)):
        return (x > 0) - (x < 0)
    if kind_of(x) == 'i':
        return mk_int(z3.If(x.t > 0, z3.IntVal(1), z3.If(x.t < 0, z3.IntVal(-1), z3.IntVal(0))))
    return mk_real(z3.If(zreal(x) > 0, z3.RealVal(1), z3.If(zreal(x) < 0, z3.RealVal(-1), z3.RealVal(0))))


def scalar_eq_term(a, b):
    """z3 Bool (or Python bool) stating that two scalars are equal."""
    r = scalar_op('==', a, b)
    if r is NotImplemented:
        return False
    return r


CTX = Ctx()
