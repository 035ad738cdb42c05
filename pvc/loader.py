"""Loads the real SPECULA sources from /repo and mechanically instruments them.

What the instrumentation changes (nothing else):
  * float and complex literals become exact rationals,
  * '/' and '**' (and their augmented forms) dispatch to exact/symbolic versions,
  * f-strings are formatted by a helper that accepts symbolic values,
  * for-loops and comprehensions over a symbolic number of items go through the loop rule,
  * a fixed set of builtins (len, int, float, isinstance, ...) and imports (numpy, scipy,
    astropy.io.fits, matplotlib, math, functools) resolve to symbolic counterparts.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys
import types
from fractions import Fraction
from . import terms as T
from . import facade
from .terms import (CTX, Unsupported, Sym, SymInt, SymReal, SymBool, SymCplx, scalar_op, zbool, zint)
from .arr import SymArray, DT
from . import stubs, loops

REPO = os.environ.get('PVC_REPO', '/repo')


# ---------------------------------------------------------------- AST transformation
class Instr(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.fn_depth = 0
        self.loop_n = 0

    def call(self, name, args, node):
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name(name, ast.Load()), node), args, []), node)

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return self.call('__pvc_q__', [ast.copy_location(ast.Constant(repr(n.value)), n)], n)
        if isinstance(n.value, complex):
            return self.call('__pvc_c__', [ast.copy_location(ast.Constant(repr(n.value.real)), n),
                                         ast.copy_location(ast.Constant(repr(n.value.imag)), n)], n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return self.call('__pvc_div__', [n.left, n.right], n)
        if isinstance(n.op, ast.Pow):
            return self.call('__pvc_pow__', [n.left, n.right], n)
        if isinstance(n.op, ast.Mult):
            return self.call('__pvc_mul__', [n.left, n.right], n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)):
            import copy
            load = copy.deepcopy(n.target)
            for x in ast.walk(load):
                if hasattr(x, 'ctx') and x is load:
                    x.ctx = ast.Load()
            f = '__pvc_idiv__' if isinstance(n.op, ast.Div) else '__pvc_ipow__'
            return ast.copy_location(ast.Assign([n.target], self.call(f, [load, n.value], n)), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'join' and isinstance(f.value, ast.Constant) and \
                isinstance(f.value.value, str) and len(n.args) == 1 and not n.keywords:
            return self.call('__pvc_sjoin__', [f.value, n.args[0]], n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.copy_location(ast.Constant(''), n)
                parts.append(self.call('__pvc_fmt__', [val, ast.copy_location(ast.Constant(v.conversion), n), spec], n))
        return self.call('__pvc_join__', [ast.copy_location(ast.List(parts, ast.Load()), n)], n)

    def visit_FormattedValue(self, n):
        return self.generic_visit(n)

    def visit_MatchValue(self, n):
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        return n

    # -- loops
    def visit_FunctionDef(self, n):
        self.fn_depth += 1
        # defaults and decorators may hold float literals, annotations are left alone
        n.args = self.visit_args(n.args)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        glob = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Global):
                glob.update(x.names)
        old = getattr(self, 'cur', None)
        self.cur = {'name': n.name, 'glob': glob}
        n.body = loops.visit_body(self, n.body)
        self.cur = old
        self.fn_depth -= 1
        return n

    def visit_args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        return a

    def visit_For(self, n):
        return loops.transform_for(self, n)

    def visit_ListComp(self, n):
        return loops.transform_comp(self, n)

    def visit_GeneratorExp(self, n):
        self.generic_visit(n)
        return n


def instrument(src, fname):
    tree = ast.parse(src, fname)
    tree = Instr(fname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, fname, 'exec', dont_inherit=True)


# ---------------------------------------------------------------- helpers visible to the code
def pvc_q(s):
    if s in ('inf', 'nan', '-inf'):
        return float(s)
    return Fraction(s)


def pvc_c(re, im):
    return SymCplx(pvc_q(re), pvc_q(im))


def _native(x):
    return isinstance(x, (int, Fraction, float)) and not isinstance(x, Sym)


def pvc_div(a, b):
    if isinstance(a, (Sym, SymArray)) or isinstance(b, (Sym, SymArray)):
        if isinstance(a, SymArray) or isinstance(b, SymArray):
            return facade.binop('/', a, b)
        return scalar_op('/', a, b)
    if _native(a) and _native(b):
        if T.is_inf(a) or T.is_inf(b):
            return float(a) / float(b)
        return T.to_frac(a) / T.to_frac(b)
    return a / b


def pvc_mul(a, b):
    if isinstance(a, float) and isinstance(b, Fraction) or isinstance(b, float) and isinstance(a, Fraction):
        return scalar_op('*', a, b)
    return a * b


def pvc_pow(a, b):
    if isinstance(a, SymArray) or isinstance(b, SymArray):
        return facade.binop('**', a, b)
    if isinstance(a, Sym) or isinstance(b, Sym) or (_native(a) and _native(b)):
        return scalar_op('**', a, b)
    return a ** b


def pvc_idiv(a, b):
    if isinstance(a, SymArray):
        a /= b
        return a
    return pvc_div(a, b)


def pvc_ipow(a, b):
    if isinstance(a, SymArray):
        a **= b
        return a
    return pvc_pow(a, b)


def _plain(x):
    if isinstance(x, Fraction):
        f = x.numerator / x.denominator
        return f
    if isinstance(x, (list, tuple)) and any(isinstance(e, Fraction) for e in x):
        return type(x)(_plain(e) for e in x)
    return x


def pvc_fmt(v, conv, spec):
    from .symstr import SymStr
    if isinstance(v, SymStr) and not spec:
        return v
    if isinstance(v, (Sym, SymArray)):
        if isinstance(v, SymInt):
            from .symstr import int_str
            u = T.unique_value(v)
            if u is not None:
                return format(u, spec if isinstance(spec, str) else '')
            return int_str(v)
        return stubs.opaque_text(v)
    v = _plain(v)
    if conv == ord('r'):
        v = repr(v)
    elif conv == ord('s'):
        v = str(v)
    return format(v, spec)


def pvc_join(parts):
    from .symstr import SymStr, concat
    if any(isinstance(p, SymStr) for p in parts):
        r = parts[0]
        for p in parts[1:]:
            r = concat(r, p)
        return r
    return ''.join(parts)


def pvc_sjoin(sep, items):
    from .symstr import SymStr
    items = list(items)
    if any(isinstance(p, SymStr) for p in items):
        parts = []
        for k, p in enumerate(items):
            parts += [sep, p] if k and sep else [p]
        return pvc_join(parts)
    return sep.join(items)


# ---------------------------------------------------------------- shadowed builtins
class _MInt(type):
    def __call__(cls, x=0, base=None):
        if base is not None:
            return int(x, base)
        if isinstance(x, SymArray):
            x = x.item()
        if isinstance(x, (Sym, Fraction, float)):
            if isinstance(x, SymCplx):
                raise TypeError("int() argument must be a real number, not 'complex'")
            return T.s_trunc(x)
        from .symstr import SymStr
        if isinstance(x, SymStr):
            if len(x.parts) == 1 and getattr(x.parts[0], 'val', None) is not None:
                return x.parts[0].val
            raise Unsupported('int of symbolic string')
        return int(x)

    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SInt(metaclass=_MInt):
    _pvc_dtype = 'int64'
    __name__ = 'int'
    from_bytes = int.from_bytes


class _MFloat(type):
    def __call__(cls, x=0):
        if isinstance(x, SymArray):
            x = x.item()
        if isinstance(x, Sym):
            return facade.cast_scalar(x, facade.float64)
        if isinstance(x, (bool, int, Fraction)):
            return T.to_frac(x)
        from .symstr import SymStr
        if isinstance(x, SymStr):
            raise Unsupported('float of symbolic string')
        return T.to_frac(float(x))

    def __instancecheck__(cls, x):
        return isinstance(x, (float, Fraction, SymReal))

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SFloat(metaclass=_MFloat):
    _pvc_dtype = 'float64'


class _MCplx(type):
    def __call__(cls, re=0, im=0):
        if isinstance(re, SymCplx):
            return re
        return SymCplx(re, im)

    def __instancecheck__(cls, x):
        return isinstance(x, (complex, SymCplx))

    def __eq__(cls, o):
        return o is cls or o is complex

    def __hash__(cls):
        return hash(complex)


class SComplex(metaclass=_MCplx):
    _pvc_dtype = 'complex128'


class SymSet(set):
    """A set some of whose elements are symbolic scalars: pairwise distinct on this path (each comparison splits)."""
    def __init__(self, xs):
        self.xs = []
        for x in xs:
            if not self.__contains__(x):
                self.xs.append(x)

    def __contains__(self, x):
        return any(bool(scalar_op('==', x, y)) for y in self.xs)

    def __len__(self):
        return len(self.xs)

    def __iter__(self):
        return iter(self.xs)

    def __bool__(self):
        return bool(self.xs)

    def pop(self):
        return self.xs.pop()

    def _no(self, *a, **k):
        raise Unsupported('operation on a set of symbolic values')
    add = remove = discard = update = union = intersection = difference = issubset = issuperset = _no
    __or__ = __and__ = __sub__ = __xor__ = __eq__ = __ne__ = __le__ = __lt__ = __ge__ = __gt__ = __ror__ = __rand__ = __rsub__ = _no
    symmetric_difference = isdisjoint = clear = copy = _no
    __hash__ = None


class _MSet(type):
    def __call__(cls, xs=()):
        xs = list(xs)
        if any(isinstance(x, SymInt) and T.unique_value(x) is None or isinstance(x, SymReal) for x in xs):
            return SymSet(xs)
        return set(xs)

    def __instancecheck__(cls, x):
        return isinstance(x, set)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, set)

    def __eq__(cls, o):
        return o is cls or o is set

    def __hash__(cls):
        return hash(set)


class SSet(metaclass=_MSet):
    __name__ = 'set'


def s_isinstance(x, t):
    if isinstance(t, tuple):
        return any(s_isinstance(x, e) for e in t)
    if t is int:
        t = SInt
    elif t is float:
        t = SFloat
    elif t is complex:
        t = SComplex
    elif t is s_type:
        t = type
    elif t is bool:
        return isinstance(x, (bool, SymBool))
    if isinstance(t, DT):
        return t.__instancecheck__(x)
    if t is str:
        from .symstr import SymStr
        return isinstance(x, (str, SymStr))
    if t is SInt and isinstance(x, SymBool):
        return True
    if t is SInt or t is SFloat or t is SComplex:
        return isinstance(x, t)
    if isinstance(t, types.UnionType):
        return any(s_isinstance(x, e) for e in t.__args__)
    if t is list and hasattr(x, '_is_symseq'):
        return True
    return isinstance(x, t)


def s_type(x, *rest):
    if rest:
        return type(x, *rest)
    if isinstance(x, (SymInt,)) or type(x) is int:
        return SInt
    if isinstance(x, (SymReal, Fraction, float)) and not isinstance(x, (SymCplx,)):
        return SFloat
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymCplx):
        return SComplex
    if type(x) in (SymArray, facade._CView):
        return SymArray
    from .symstr import SymStr
    if isinstance(x, SymStr):
        return str
    return type(x)


def s_len(x):
    if isinstance(x, SymArray):
        return x.len_()
    if hasattr(x, '_is_symseq'):
        return x.len_()
    from .symstr import SymStr
    if isinstance(x, SymStr):
        return x.len_()
    return len(x)


class SymRange:
    _is_symseq = True

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        d = scalar_op('-', stop, start)
        if step == 1:
            n = d
        elif isinstance(step, int) and step > 0:
            n = scalar_op('//', scalar_op('+', d, step - 1), step)
        elif isinstance(step, int) and step < 0:
            n = scalar_op('//', scalar_op('+', scalar_op('-', 0, d), -step - 1), -step)
        else:
            raise Unsupported('range step')
        if isinstance(n, int):
            n = max(n, 0)
        elif CTX.fork(n.t <= 0):
            n = 0
        self.n = n

    def len_(self):
        return self.n

    def get(self, i):
        return scalar_op('+', self.start, scalar_op('*', i, self.step))

    def __iter__(self):
        n = self.n if isinstance(self.n, int) else T.unique_value(self.n)
        if n is None:
            raise Unsupported('iteration over a range of symbolic length')
        return (self.get(i) for i in range(n))

    def to_array(self):
        return facade.arange(self.start, self.stop, self.step)

    def __getitem__(self, i):
        return self.get(i)

    def __contains__(self, x):
        if self.step != 1:
            raise Unsupported('in range with step')
        return bool(T.s_and(scalar_op('>=', x, self.start), scalar_op('<', x, self.stop)))


def s_range(*a):
    a = [x.item() if isinstance(x, SymArray) else x for x in a]
    a = [T.norm_const(x) for x in a]
    for x in a:
        if isinstance(x, (Fraction, SymReal, float)):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        a = [0, a[0], 1]
    elif len(a) == 2:
        a = a + [1]
    r = SymRange(*a)
    if isinstance(r.n, int):
        return [r.get(i) for i in range(r.n)]
    return r


def s_max(*a, **k):
    if len(a) == 1:
        if isinstance(a[0], SymArray):
            return facade.amax(a[0])
        l = list(a[0])
        if not l and 'default' in k:
            return k['default']
    else:
        l = list(a)
    k.pop('default', None)
    if k.get('key') is None and l and all(isinstance(x, (Sym, int, Fraction, float)) for x in l) and \
            any(isinstance(x, Sym) for x in l):
        r = l[0]
        for x in l[1:]:
            r = T.s_max(r, x)
        return r
    return max(l, **{kk: v for kk, v in k.items() if kk == 'key'})


def s_min(*a, **k):
    if len(a) == 1:
        if isinstance(a[0], SymArray):
            return facade.amin(a[0])
        l = list(a[0])
        if not l and 'default' in k:
            return k['default']
    else:
        l = list(a)
    k.pop('default', None)
    if k.get('key') is None and l and all(isinstance(x, (Sym, int, Fraction, float)) for x in l) and \
            any(isinstance(x, Sym) for x in l):
        r = l[0]
        for x in l[1:]:
            r = T.s_min(r, x)
        return r
    return min(l, **{kk: v for kk, v in k.items() if kk == 'key'})


def s_round(x, ndigits=None):
    if isinstance(x, SymArray):
        if x.ndim == 0:
            return T.s_round(x.item(), ndigits)
        return facade.round_(x, ndigits or 0)
    if isinstance(x, Sym):
        return T.s_round(x, ndigits)
    return round(x, ndigits) if ndigits is not None else round(x)


def s_sum(x, start=0):
    if isinstance(x, SymArray):
        if x.ndim == 1:
            return scalar_op('+', facade.sum(x), start)
    if hasattr(x, '_is_symseq'):
        return scalar_op('+', facade.sum(facade.array(x)), start)
    r = start
    for e in x:
        r = r + e
    return r


def s_print(*a, **k):
    return None


class _MStr(type):
    def __call__(cls, x='', *a):
        from .symstr import SymStr
        if isinstance(x, SymStr):
            return x
        if isinstance(x, (Sym, SymArray)):
            return pvc_fmt(x, -1, '')
        return str(_plain(x), *a)

    def __instancecheck__(cls, x):
        from .symstr import SymStr
        return isinstance(x, (str, SymStr))

    def __eq__(cls, o):
        return o is cls or o is str

    def __hash__(cls):
        return hash(str)

    def __getattr__(cls, n):
        return getattr(str, n)


class SStr(metaclass=_MStr):
    pass


def s_repr(x):
    return pvc_fmt(x, -1, '') if isinstance(x, Sym) else repr(_plain(x))


def s_abs(x):
    return abs(x)


def s_bool(x=False):
    if isinstance(x, SymBool):
        return x
    return bool(x)


def s_open(*a, **k):
    raise Unsupported('open()')


def s_any(x):
    if isinstance(x, SymArray) and x.ndim == 1:
        return facade.any(x)
    for e in x:
        if e:
            return True
    return False


def s_all(x):
    if isinstance(x, SymArray) and x.ndim == 1:
        return facade.all(x)
    for e in x:
        if not e:
            return False
    return True


def s_enumerate(x, start=0):
    if hasattr(x, '_is_symseq') or isinstance(x, SymArray) and not isinstance(x.shape[0], int):
        return loops.SymEnum(loops.as_seq(x), start)
    return enumerate(x, start)


def s_zip(*xs, **k):
    if any(hasattr(x, '_is_symseq') or (isinstance(x, SymArray) and x.ndim and not isinstance(x.shape[0], int)) for x in xs):
        return loops.SymZip([loops.as_seq(x) for x in xs])
    return zip(*xs, **k)


BUILTINS = dict(vars(builtins))
BUILTINS.update(len=s_len, int=SInt, float=SFloat, complex=SComplex, isinstance=s_isinstance, type=s_type, range=s_range,
                max=s_max, min=s_min, round=s_round, sum=s_sum, print=s_print, str=SStr, repr=s_repr, open=s_open,
                any=s_any, all=s_all, set=SSet, enumerate=s_enumerate, zip=s_zip, input=s_open)


def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        m = stubs.lookup(name, fromlist)
        if m is not None:
            return m
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS['__import__'] = s_import
HELPERS = dict(__pvc_q__=pvc_q, __pvc_c__=pvc_c, __pvc_div__=pvc_div, __pvc_pow__=pvc_pow, __pvc_idiv__=pvc_idiv, __pvc_mul__=pvc_mul,
               __pvc_ipow__=pvc_ipow, __pvc_fmt__=pvc_fmt, __pvc_join__=pvc_join, __pvc_sjoin__=pvc_sjoin, __pvc_loop__=loops.run_loop,
               __pvc_symiter__=loops.is_symiter, __pvc_comp__=loops.run_comp, __pvc_star__=loops.star)
BUILTINS.update(HELPERS)


# ---------------------------------------------------------------- import hook
class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, roots):
        self.roots = roots          # package name -> directory
        self.loaded = []

    def find_spec(self, name, path, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split('.')[1:])
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            if os.path.exists(f):
                s = importlib.util.spec_from_file_location(name, f, loader=self, submodule_search_locations=[base])
                return s
            s = importlib.util.spec_from_loader(name, self, is_package=True)
            s.submodule_search_locations = [base]
            s.origin = None
            return s
        f = base + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        module.__dict__['__builtins__'] = BUILTINS
        if f is None:
            return
        with open(f) as fh:
            src = fh.read()
        code = instrument(src, f)
        self.loaded.append(f)
        exec(code, module.__dict__)


FINDER = None


def install(contracts_dir=None):
    global FINDER
    roots = {'specula': os.path.join(REPO, 'specula')}
    if contracts_dir:
        roots['contracts'] = contracts_dir
    FINDER = Finder(roots)
    sys.meta_path.insert(0, FINDER)
    sys.dont_write_bytecode = True
    T.CTX.reset([])
    import specula
    specula.init(-1, precision=0)
    return FINDER
