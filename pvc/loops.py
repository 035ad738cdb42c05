"""Loop rule.  Loops over a concrete number of items run natively."""
import ast
from . import terms as T
from .terms import CTX, Unsupported, SymInt, scalar_op
from .arr import SymArray
from .seqs import SymSeq


class SymEnum:
    _is_symseq = True

    def __init__(self, s, start):
        self.s, self.start = s, start

    def len_(self):
        return self.s.len_()

    def get(self, i):
        return (scalar_op('+', i, self.start), self.s.get(i))

    def __iter__(self):
        return ((i, x) for i, x in zip(range(self.start, 10 ** 9), self.s))


class SymZip:
    _is_symseq = True

    def __init__(self, l):
        self.l = l
        n = l[0].len_()
        for s in l[1:]:
            m = s.len_()
            if T.same_int(n, m):
                continue
            n = T.s_min(n, m)
        self.n = n

    def len_(self):
        return self.n

    def get(self, i):
        return tuple(s.get(i) for s in self.l)

    def __iter__(self):
        return zip(*self.l)


class _ArrSeq:
    _is_symseq = True

    def __init__(self, a):
        self.a = a

    def len_(self):
        return self.a.shape[0]

    def get(self, i):
        return self.a[i]

    def __iter__(self):
        return iter(self.a)


class _ListSeq:
    _is_symseq = True

    def __init__(self, l):
        self.l = list(l)

    def len_(self):
        return len(self.l)

    def get(self, i):
        from .seqs import _pick
        return _pick(self.l, i)

    def __iter__(self):
        return iter(self.l)


def as_seq(x):
    if hasattr(x, '_is_symseq'):
        return x
    if isinstance(x, SymArray):
        return _ArrSeq(x)
    return _ListSeq(x)


def is_symiter(x):
    """True if x has a number of items not fixed by the path condition."""
    if isinstance(x, SymArray):
        if not x.ndim:
            return False
        n = x.shape[0]
    elif hasattr(x, '_is_symseq'):
        n = x.len_()
    else:
        return False
    if isinstance(n, int):
        return False
    return T.unique_value(n) is None


# ---------------------------------------------------------------- AST side
def visit_body(instr, body):
    return [instr.visit(s) for s in body]


def transform_for(instr, n):
    instr.generic_visit(n)
    return n


def transform_comp(instr, n):
    instr.generic_visit(n)
    if len(n.generators) != 1:
        return n
    g = n.generators[0]
    if g.ifs or g.is_async or not isinstance(g.target, (ast.Name, ast.Tuple)):
        return n
    # [e for x in it]  ->  __pvc_comp__(it, lambda x: e)  (scoping is the same)
    names = [x for x in ast.walk(g.target) if isinstance(x, ast.Name)]
    if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n)):
        return n
    v = ast.copy_location(ast.Name('__pvc_it__', ast.Load()), n)
    if isinstance(g.target, ast.Name):
        lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt)
    else:
        if not all(isinstance(x, ast.Name) for x in g.target.elts):
            return n
        lam0 = ast.Lambda(ast.arguments([], [ast.arg(x.id) for x in g.target.elts], None, [], [], None, []), n.elt)
        lam = ast.Call(ast.Name('__pvc_star__', ast.Load()), [lam0], [])
    return ast.copy_location(ast.Call(ast.Name('__pvc_comp__', ast.Load()), [g.iter, lam], []), n)


def star(f):
    return lambda t: f(*t)


def run_comp(it, f):
    if is_symiter(it):
        s = as_seq(it)
        return SymSeq(s.len_(), lambda i: f(s.get(i)))
    return [f(x) for x in it]


def run_loop(*a, **k):
    raise Unsupported('loop over a symbolic number of items')
