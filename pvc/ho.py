"""Higher-order uninterpreted terms: finite sums, extrema, existential reductions, mask
enumerations and opaque array functions.  Each takes its array arguments as z3 lambdas
together with their dimensions; `HO` records the layout so that the prover can replace an
application by another one whose arguments agree on every in-range index."""
from fractions import Fraction
import z3
from . import terms as T
from .terms import (CTX, Unsupported, SymInt, SymReal, SymCplx, scalar_op, s_ite, mk_int, mk_real, mk_bool, zint, zreal,
                    zbool, BoundVar, uf, kind_of)

FUN_FACTS = {}   # array input name -> (lo, hi) bounds of every element
HO = {}     # decl name -> dict(groups=[(nd, [lambda arg positions], [dim arg positions])], kind=str)


def _z(v, kind):
    return {'b': zbool, 'i': zint, 'f': zreal}[kind](v)


def lam_of(fn, dims, kind):
    """z3 Lambda of a real/int/bool valued index function."""
    from .facade import cast_scalar, _DTS
    with BoundVar(*dims) as ks:
        v = fn(tuple(ks))
    if isinstance(v, float):
        raise Unsupported('inf/nan inside an opaque argument')
    t = _z(v, kind)
    t = z3.simplify(t)
    return z3.Lambda([k.t for k in ks], t)


def lams_of_array(a):
    r = a.reader()
    if a.kind == 'c':
        return [lam_of(lambda i: T.s_real(r(i)), a.shape, 'f'), lam_of(lambda i: T.s_imag(r(i)), a.shape, 'f')]
    return [lam_of(r, a.shape, a.kind)]


def ho_app(name, nd, lams, dims, extra, rsort):
    """Application of a one-array higher-order symbol."""
    args = list(lams) + list(dims) + list(extra)
    nm = f'{name}#{nd}#' + '_'.join(str(a.sort()) for a in args)
    f = uf(nm, *[a.sort() for a in args], rsort)
    if nm not in HO:
        HO[nm] = dict(groups=[(nd, list(range(len(lams))), list(range(len(lams), len(lams) + len(dims))))],
                      kind=name)
    return f(*args)


def nz_count(nd, lam, dims):
    return ho_app('NZ_COUNT', nd, [lam], dims, [], T.I)


def nz_count_def(app):
    """Number of true entries of a mask: sum over its indices of (mask ? 1 : 0)."""
    nd = HO[app.decl().name()]['groups'][0][0]
    lam, dims = app.arg(0), [app.arg(1 + j) for j in range(nd)]
    ks = [z3.Int(CTX.fresh_name('nzc')) for _ in range(nd)]
    t = z3.simplify(z3.If(lam_body(lam, ks), z3.IntVal(1), z3.IntVal(0)))
    return _nest(t, ks, dims, 'ISUM', T.I)


def _nest(t, ks, dims, name, sort):
    for k, d in reversed(list(zip(ks, dims))):
        if T.mentions(t, [k]):
            t = ho_app(name, 1, [z3.Lambda([k], t)], [d], [], sort)
        else:
            t = z3.simplify(t * (z3.ToReal(d) if sort == T.R else d))
    return t


def _nz_apps(t, k):
    """Mask coordinates NZ_j(lam, dims, k) occurring in t."""
    out, seen, todo = {}, set(), [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen or z3.is_var(x):
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and x.arg(x.num_args() - 1).eq(k):
                info = HO.get(x.decl().name())
                if info is not None and info['kind'].startswith('NZ_') and info['kind'][3:].isdigit():
                    out[i] = x
            todo.extend(x.children())
    return list(out.values())


def _sum_over_mask(t, k, n, name, sort):
    """Sum over the enumerated true entries of a mask = sum over all entries, where the mask is true."""
    apps = _nz_apps(t, k)
    if not apps:
        return None
    a0 = apps[0]
    nd = HO[a0.decl().name()]['groups'][0][0]
    lam, dims = a0.arg(0), [a0.arg(1 + j) for j in range(nd)]
    if any(not (a.arg(0).eq(lam) and all(a.arg(1 + j).eq(d) for j, d in enumerate(dims))) for a in apps):
        return None
    if not nz_count(nd, lam, dims).eq(n):
        return None
    ks = [z3.Int(CTX.fresh_name('nzs')) for _ in range(nd)]
    subs = [(a, ks[int(HO[a.decl().name()]['kind'][3:])]) for a in apps]
    t2 = z3.substitute(t, *subs)
    if T.mentions(t2, [k]):
        return None
    zero = z3.RealVal(0) if sort == T.R else z3.IntVal(0)
    t2 = z3.simplify(z3.If(lam_body(lam, ks), t2, zero))
    return _nest(t2, ks, dims, name, sort)


def big_sum(f, n, kind):
    if kind == 'c':
        return SymCplx(big_sum(lambda k: T.s_real(f(k)), n, 'f'), big_sum(lambda k: T.s_imag(f(k)), n, 'f'))
    with BoundVar(n) as (k,):
        v = f(k)
    if isinstance(v, float):
        raise Unsupported('inf/nan inside a sum')
    if kind in 'bi':
        t = z3.simplify(zint(v))
        if not T.mentions(t, [k.t]):
            return scalar_op('*', n, mk_int(t))
        m = _sum_over_mask(t, k.t, zint(n), 'ISUM', T.I)
        if m is not None:
            return mk_int(m)
        return mk_int(ho_app('ISUM', 1, [z3.Lambda([k.t], t)], [zint(n)], [], T.I))
    t = z3.simplify(zreal(v))
    if not T.mentions(t, [k.t]):
        return scalar_op('*', mk_real(t), n)
    m = _sum_over_mask(t, k.t, zint(n), 'SUM', T.R)
    if m is not None:
        return mk_real(m)
    return mk_real(ho_app('SUM', 1, [z3.Lambda([k.t], t)], [zint(n)], [], T.R))


def big_extreme(name, g, dims, kind):
    if kind == 'b':
        kind = 'i'
    dd = list(dims)
    lam = lam_of(lambda ks: g(ks), dd, kind)
    t = ho_app(name, len(dd), [lam], [zint(d) for d in dd], [], T.I if kind == 'i' else T.R)
    return mk_int(t) if kind == 'i' else mk_real(t)


def big_any(g, dims):
    lam = lam_of(lambda ks: g(ks), list(dims), 'b')
    return mk_bool(ho_app('EXISTS', len(dims), [lam], [zint(d) for d in dims], [], T.B))


def big_arg(name, g, dims, kind):
    lam = lam_of(lambda ks: g(ks), list(dims), 'i' if kind == 'b' else kind)
    t = mk_int(ho_app(name, len(dims), [lam], [zint(d) for d in dims], [], T.I))
    if isinstance(t, SymInt):
        CTX.assume(t.t >= 0)
        CTX.assume(t.t < zint(dims[0]))
    return t


def opaque(name, arrays, scalars, out_shape, dt):
    """Array whose contents are an unknown but fixed function of the given arrays and scalars."""
    from .arr import SymArray
    base = _opq_args(arrays, scalars)
    nd = len(out_shape)

    def el(idx):
        if dt.kind == 'c':
            return SymCplx(mk_real(_opq_app(name + '.re', base, idx, T.R)), mk_real(_opq_app(name + '.im', base, idx, T.R)))
        if dt.kind == 'i':
            return mk_int(_opq_app(name, base, idx, T.I))
        if dt.kind == 'b':
            return mk_bool(_opq_app(name, base, idx, T.B))
        return mk_real(_opq_app(name, base, idx, T.R))
    return SymArray(out_shape, el, dt)


def opaque_scalar(name, arrays, scalars=(), kind='f'):
    base = _opq_args(arrays, scalars)
    if kind == 'i':
        return mk_int(_opq_app(name, base, (), T.I))
    return mk_real(_opq_app(name, base, (), T.R))


def _opq_args(arrays, scalars):
    args, groups = [], []
    for a in arrays:
        ls = lams_of_array(a)
        lp = list(range(len(args), len(args) + len(ls)))
        args += ls
        dp = list(range(len(args), len(args) + len(a.shape)))
        args += [zint(d) for d in a.shape]
        if a.shape == ():
            # rank-0 arrays are passed as scalars
            args = args[:-len(ls)]
            r = a.at(())
            args += [zreal(r)] if a.kind != 'c' else [zreal(r.re), zreal(r.im)]
            continue
        groups.append((len(a.shape), lp, dp))
    for s in scalars:
        s = T.norm_const(s)
        if isinstance(s, SymCplx):
            args += [zreal(s.re), zreal(s.im)]
        elif isinstance(s, float):
            args.append(z3.RealVal(0))
        elif kind_of(s) == 'b':
            args.append(zbool(s))
        elif kind_of(s) == 'i':
            args.append(zint(s))
        else:
            args.append(zreal(s))
    return args, groups


def _opq_app(name, base, idx, rsort):
    args, groups = base
    al = args + [zint(i) for i in idx]
    nm = f'{name}#{len(idx)}#' + '_'.join(str(a.sort()) for a in al)
    f = uf(nm, *[a.sort() for a in al], rsort) if al else z3.Const(nm, rsort)
    if nm not in HO:
        HO[nm] = dict(groups=groups, kind=name)
    return f(*al) if al else f


def base_array(name, shape, dt):
    """Array of unknown contents (an uninterpreted function of the indices)."""
    from .arr import SymArray
    nd = len(shape)
    I = T.I

    def mk(nm, rs, idx):
        if nd == 0:
            return z3.Const(nm, rs)
        return uf(nm, *([I] * nd), rs)(*[zint(i) for i in idx])
    if dt.kind == 'c':
        el = lambda idx: SymCplx(mk_real(mk(name + '.re', T.R, idx)), mk_real(mk(name + '.im', T.R, idx)))
    elif dt.kind == 'f':
        el = lambda idx: mk_real(mk(name, T.R, idx))
    elif dt.kind == 'i':
        el = lambda idx: mk_int(mk(name, I, idx))
    else:
        el = lambda idx: mk_bool(mk(name, T.B, idx))
    a = SymArray(shape, el, dt)
    a.store.name = name
    return a


def fresh_array(prefix, shape, dt):
    return base_array(CTX.fresh_name(prefix), shape, dt)


# ---------------------------------------------------------------- axiom instances
def lam_body(lam, idx):
    """Body of a lambda at index terms."""
    return z3.substitute_vars(lam.body(), *reversed(list(idx)))


def axioms_for(app):
    """Sound axiom instances for a ground application of a higher-order symbol."""
    nm = app.decl().name()
    info = HO.get(nm)
    if info is None:
        return []
    kind = info['kind']
    out = []
    args = [app.arg(i) for i in range(app.num_args())]
    if kind.startswith('NZ_'):
        nd, lp, dp = info['groups'][0]
        lam = args[0]
        dims = [args[p] for p in dp]
        extra = args[1 + nd:]
        if kind == 'NZ_COUNT':
            return [app >= 0, app == nz_count_def(app)]
        cnt = nz_count(nd, lam, dims)
        if kind == 'NZ_RANK':
            body = lam_body(lam, extra)
            inr = z3.And(*[z3.And(e >= 0, e < d) for e, d in zip(extra, dims)])
            pre = z3.And(inr, body)
            back = [ho_app(f'NZ_{j}', nd, [lam], dims, [app], T.I) for j in range(nd)]
            return [z3.Implies(pre, z3.And(app >= 0, app < cnt, *[b == e for b, e in zip(back, extra)]))]
        k = extra[0]
        inr = z3.And(k >= 0, k < cnt)
        co = [ho_app(f'NZ_{j}', nd, [lam], dims, [k], T.I) for j in range(nd)]
        body = lam_body(lam, co)
        rank = ho_app('NZ_RANK', nd, [lam], dims, co, T.I)
        return [z3.Implies(inr, z3.And(body, rank == k, *[z3.And(c >= 0, c < d) for c, d in zip(co, dims)]))]
    if kind in ('SUM', 'ISUM'):
        n = args[1]
        zero = z3.RealVal(0) if kind == 'SUM' else z3.IntVal(0)
        body0 = lam_body(args[0], [z3.IntVal(0)])
        return [z3.Implies(n <= 0, app == zero), z3.Implies(n == 1, app == body0)]
    if kind in ('MAX', 'MIN'):
        nd, lp, dp = info['groups'][0]
        dims = [args[p] for p in dp]
        w = [uf(f'{nm}@w{j}', *[a.sort() for a in args], T.I)(*args) for j in range(nd)]
        inr = z3.And(*[z3.And(x >= 0, x < d) for x, d in zip(w, dims)])
        ne = z3.And(*[d > 0 for d in dims])
        return [z3.Implies(ne, z3.And(inr, app == lam_body(args[0], w)))]
    if kind == 'EXISTS':
        nd, lp, dp = info['groups'][0]
        dims = [args[p] for p in dp]
        w = [uf(f'{nm}@w{j}', *[a.sort() for a in args], T.I)(*args) for j in range(nd)]
        inr = z3.And(*[z3.And(x >= 0, x < d) for x, d in zip(w, dims)])
        return [z3.Implies(app, z3.And(inr, lam_body(args[0], w)))]
    return []


def universal_for(app, idx):
    """Instances of the 'for all' part of MAX/MIN/EXISTS at given index terms."""
    nm = app.decl().name()
    info = HO.get(nm)
    if info is None or info['kind'] not in ('MAX', 'MIN', 'EXISTS'):
        return []
    kind = info['kind']
    args = [app.arg(i) for i in range(app.num_args())]
    nd, lp, dp = info['groups'][0]
    if len(idx) != nd:
        return []
    dims = [args[p] for p in dp]
    inr = z3.And(*[z3.And(x >= 0, x < d) for x, d in zip(idx, dims)])
    body = lam_body(args[0], idx)
    if kind == 'MAX':
        return [z3.Implies(inr, app >= body)]
    if kind == 'MIN':
        return [z3.Implies(inr, app <= body)]
    return [z3.Implies(z3.And(inr, body), app)]
