"""__getitem__ / __setitem__ of symbolic arrays."""
from fractions import Fraction
import z3
from . import terms as T
from .terms import (CTX, Unsupported, SymInt, SymBool, SymReal, scalar_op, s_ite, s_and, s_or, s_not, zint, zbool,
                    same_int, kind_of, is_sym, mk_int)
from .arr import SymArray, Memo, dim_prod, idx_in, WRITE_LOG


def norm_int(i, n):
    """Normalise an integer index (negative wraps), raising IndexError when out of range."""
    if isinstance(i, Fraction):
        raise IndexError('only integers, slices, ellipsis, newaxis and integer or boolean arrays are valid indices')
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n:
            raise IndexError(f'index {i} is out of bounds for axis of size {n}')
        return i % n if i < 0 else i
    if isinstance(i, int):
        if i < 0:
            j = scalar_op('+', n, i)
            if not CTX.fork(zbool(scalar_op('>=', j, 0))):
                raise IndexError('index out of bounds')
            return j
        if not CTX.fork(zbool(scalar_op('<', i, n))):
            raise IndexError('index out of bounds')
        return i
    if not isinstance(i, SymInt):
        raise IndexError('bad index')
    if CTX.fork(z3.And(i.t >= 0, zbool(scalar_op('<', i, n)))):
        return i
    if CTX.fork(z3.And(i.t < 0, zbool(scalar_op('>=', scalar_op('+', i, n), 0)))):
        return scalar_op('+', i, n)
    raise IndexError('index out of bounds')


def _bound(v, n, lo, hi):
    """Clamp a slice bound for positive (lo=0,hi=n) or negative step (lo=-1,hi=n-1)."""
    if isinstance(v, SymArray):
        v = v.item()
    if isinstance(v, Fraction):
        raise TypeError('slice indices must be integers or None or have an __index__ method')
    if isinstance(v, int) and isinstance(n, int):
        if v < 0:
            v += n
            return v if v > lo else lo
        return v if v < hi else hi
    if CTX.fork(zbool(scalar_op('<', v, 0))):
        v = scalar_op('+', v, n)
        if CTX.fork(zbool(scalar_op('<', v, lo))):
            return lo
        return v
    if CTX.fork(zbool(scalar_op('>', v, hi))):
        return hi
    return v


def norm_slice(s, n):
    step = s.step
    if step is None:
        step = 1
    if isinstance(step, SymInt):
        v = T.unique_value(step)
        if v is not None:
            step = v
        elif not CTX.entails(step.t > 0):
            raise Unsupported('slice with symbolic step of unknown sign')
    if isinstance(step, int) and step == 0:
        raise ValueError('slice step cannot be zero')
    neg = isinstance(step, int) and step < 0
    if not neg:
        start = 0 if s.start is None else _bound(s.start, n, 0, n)
        stop = n if s.stop is None else _bound(s.stop, n, 0, n)
        d = scalar_op('-', stop, start)
        if isinstance(d, int):
            length = max(0, -(-d // step)) if isinstance(step, int) else None
            if length is None:
                length = T.int_div(scalar_op('-', scalar_op('+', d, step), 1), step) if d > 0 else 0
        elif CTX.fork(zbool(scalar_op('>', d, 0))):
            length = d if step == 1 and isinstance(step, int) else \
                T.int_div(scalar_op('-', scalar_op('+', d, step), 1), step)
        else:
            length = 0
        return start, step, length
    nm1 = scalar_op('-', n, 1)
    start = nm1 if s.start is None else _bound(s.start, n, -1, nm1)
    stop = -1 if s.stop is None else _bound(s.stop, n, -1, nm1)
    d = scalar_op('-', start, stop)
    k = -step
    if isinstance(d, int):
        length = max(0, -(-d // k))
    elif CTX.fork(zbool(scalar_op('>', d, 0))):
        length = d if k == 1 else T.int_div(scalar_op('+', d, k - 1), k)
    else:
        length = 0
    return start, step, length


class Spec:
    __slots__ = ('shape', 'to_src', 'from_src', 'is_view', 'scalar', 'masktag')


def parse_key(a, key):
    from . import facade
    if not isinstance(key, tuple):
        key = (key,)
    items = []
    for k in key:
        if isinstance(k, (list, range)):
            k = facade.array(list(k))
            if k.ndim == 1 and k.shape[0] == 0:
                k = facade.zeros(0, dtype=int)
        elif isinstance(k, tuple):
            k = facade.array(k)
        elif hasattr(k, '_is_symseq'):
            k = facade.array(k)
        if isinstance(k, SymArray) and k.ndim == 0 and k.kind != 'b':
            k = k.item()
        import numpy as _np
        if isinstance(k, _np.generic):
            k = k.item()
        items.append(k)
    # count consumed dims
    used = 0
    for k in items:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, SymArray) and k.kind == 'b':
            used += k.ndim
        else:
            used += 1
    n_ell = [i for i, k in enumerate(items) if k is Ellipsis]
    if len(n_ell) > 1:
        raise IndexError('an index can only have a single ellipsis')
    if used > a.ndim:
        raise IndexError(f'too many indices for array: array is {a.ndim}-dimensional, but {used} were indexed')
    rest = a.ndim - used
    if n_ell:
        i = n_ell[0]
        items = items[:i] + [slice(None)] * rest + items[i + 1:]
    else:
        items = items + [slice(None)] * rest
    return items


def make_spec(a, key):
    from . import facade
    items = parse_key(a, key)
    shape = a.shape
    # plan: list of entries in order
    plan = []      # ('new',), ('int', ax, i), ('sl', ax, start, step, len), ('adv', ax, array), ('full', ax)
    ax = 0
    masks = []
    for k in items:
        if k is None:
            plan.append(('new',))
        elif isinstance(k, bool) or isinstance(k, SymBool):
            raise Unsupported('scalar boolean index')
        elif isinstance(k, (int, SymInt)):
            plan.append(('int', ax, norm_int(k, shape[ax])))
            ax += 1
        elif isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                plan.append(('sl', ax, 0, 1, shape[ax]))
            else:
                plan.append(('sl', ax) + norm_slice(k, shape[ax]))
            ax += 1
        elif isinstance(k, SymArray):
            if k.kind == 'b':
                for j in range(k.ndim):
                    d1, d2 = k.shape[j], shape[ax + j]
                    if not same_int(d1, d2):
                        if not CTX.fork(zbool(scalar_op('==', d1, d2))):
                            raise IndexError('boolean index did not match indexed array')
                nz = facade.nonzero_info(k)
                masks.append((len([p for p in plan]), ax, k, nz))
                for j in range(k.ndim):
                    plan.append(('adv', ax + j, nz.arrays[j], nz, j))
                ax += k.ndim
            elif k.kind == 'i':
                plan.append(('adv', ax, k, None, 0))
                ax += 1
            else:
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
        else:
            raise IndexError(f'only integers, slices, ... are valid indices ({type(k).__name__})')
    sp = Spec()
    sp.masktag = None
    advs = [p for p in plan if p[0] == 'adv']
    if not advs:
        oshape = []
        to = []      # per source axis: function of idx
        fr = []      # per output axis
        o = 0
        axf = {}
        for p in plan:
            if p[0] == 'new':
                oshape.append(1)
                fr.append(None)
                o += 1
            elif p[0] == 'int':
                axf[p[1]] = ('c', p[2])
            else:
                axf[p[1]] = ('s', o, p[2], p[3], p[4])
                oshape.append(p[4])
                fr.append((p[1], p[2], p[3], p[4]))
                o += 1
        nd = a.ndim

        def to_src(idx):
            r = []
            for x in range(nd):
                f = axf[x]
                if f[0] == 'c':
                    r.append(f[1])
                else:
                    i = idx[f[1]]
                    st, step = f[2], f[3]
                    if not (isinstance(step, int) and step == 1):
                        i = scalar_op('*', i, step)
                    if not (isinstance(st, int) and st == 0):
                        i = scalar_op('+', i, st)
                    r.append(i)
            return tuple(r)

        def from_src(s):
            conds = []
            out = []
            for x in range(nd):
                f = axf[x]
                if f[0] == 'c':
                    conds.append(scalar_op('==', s[x], f[1]))
            for e in fr:
                if e is None:
                    out.append(0)
                    continue
                x, st, step, ln = e
                full = isinstance(st, int) and st == 0 and isinstance(step, int) and step == 1 and same_int(ln, shape[x])
                if full:
                    out.append(s[x])
                    continue
                d = scalar_op('-', s[x], st)
                if isinstance(step, int) and step == 1:
                    v = d
                    conds.append(scalar_op('>=', v, 0))
                    conds.append(scalar_op('<', v, ln))
                elif isinstance(step, int) and step == -1:
                    v = scalar_op('-', 0, d)
                    conds.append(scalar_op('>=', v, 0))
                    conds.append(scalar_op('<', v, ln))
                else:
                    v = scalar_op('//', d, step)
                    conds.append(scalar_op('==', scalar_op('%', d, step), 0))
                    conds.append(scalar_op('>=', v, 0))
                    conds.append(scalar_op('<', v, ln))
                out.append(v)
            return s_and(*conds), tuple(out)
        sp.shape = tuple(oshape)
        sp.to_src = to_src
        sp.from_src = from_src
        sp.is_view = True
        sp.scalar = len(oshape) == 0
        return sp
    # ---------------- advanced
    arrays = [p[2] for p in advs]
    bsh = facade.broadcast_shapes_(*[x.shape for x in arrays])
    readers = []
    for x, p in zip(arrays, advs):
        rd = x.reader()
        n = shape[p[1]]
        nz = p[3]

        readers.append(_adv_reader(rd, x, bsh, n, nz))
    pos = [i for i, p in enumerate(plan) if p[0] in ('adv', 'int')]
    contiguous = all(b - a_ == 1 for a_, b in zip(pos, pos[1:])) or all(plan[q][0] == 'adv' or True for q in pos) and \
        (pos[-1] - pos[0] == len(pos) - 1)
    first = min(i for i, p in enumerate(plan) if p[0] == 'adv')
    # output layout
    out_entries = []
    adv_done = False
    if not contiguous:
        out_entries.append('ADV')
        adv_done = True
    for i, p in enumerate(plan):
        if p[0] == 'new':
            out_entries.append(('new',))
        elif p[0] == 'sl':
            out_entries.append(p)
        elif p[0] == 'adv' and not adv_done:
            out_entries.append('ADV')
            adv_done = True
    oshape = []
    slots = {}
    adv_at = None
    for e in out_entries:
        if e == 'ADV':
            adv_at = len(oshape)
            oshape.extend(bsh)
        elif e[0] == 'new':
            oshape.append(1)
        else:
            slots[e[1]] = (len(oshape), e[2], e[3], e[4])
            oshape.append(e[4])
    nb = len(bsh)
    intax = {p[1]: p[2] for p in plan if p[0] == 'int'}
    advax = {p[1]: r for p, r in zip(advs, readers)}
    nd = a.ndim

    def to_src(idx):
        bi = tuple(idx[adv_at:adv_at + nb])
        r = []
        for x in range(nd):
            if x in intax:
                r.append(intax[x])
            elif x in advax:
                r.append(advax[x](bi))
            else:
                o, st, step, ln = slots[x]
                i = idx[o]
                if not (isinstance(step, int) and step == 1):
                    i = scalar_op('*', i, step)
                r.append(scalar_op('+', i, st))
        return tuple(r)

    # inverse of the advanced part
    inv = None
    nzs = [p[3] for p in advs]
    if nzs[0] is not None and all(z is nzs[0] for z in nzs) and len(advs) == len(nzs[0].arrays) and \
            [p[4] for p in advs] == list(range(len(advs))):
        nz = nzs[0]
        axs = [p[1] for p in advs]

        def inv(s):
            return nz.inverse(tuple(s[x] for x in axs))
    else:
        invs = getattr(arrays[0], 'inverse', None) if len(arrays) == 1 else None
        if len(arrays) > 1:
            mi = getattr(arrays[0], 'multi_inverse', None)
            if mi is not None and len(mi[0]) == len(arrays) and all(x is y and x.multi_inverse is not None for x, y in zip(mi[0], arrays)):
                axs = [p[1] for p in advs]

                def inv(s):
                    return mi[1](tuple(s[x] for x in axs))
            elif nb == len(arrays) and all(getattr(x, 'inverse', None) is not None and x.ndim == nb for x in arrays):
                # ix_-like outer indexing: array j varies along broadcast axis j only
                axs = [p[1] for p in advs]
                ok = all(all(isinstance(d, int) and d == 1 for q, d in enumerate(x.shape) if q != j)
                         for j, x in enumerate(arrays))
                if ok:
                    def inv(s):
                        cs, out = [], []
                        for j, x in enumerate(arrays):
                            c, v = x.inverse(s[axs[j]])
                            cs.append(c)
                            out.append(v[j] if isinstance(v, tuple) else v)
                        return s_and(*cs), tuple(out)
        elif invs is not None:
            ax0 = advs[0][1]

            def inv(s):
                c, v = invs(s[ax0])
                return c, (v if isinstance(v, tuple) else (v,))
        if inv is None and not all(isinstance(d, int) and d <= 8 for d in bsh):
            inv = _struct_inverse(arrays, bsh, [p[1] for p in advs])
        if inv is None:
            cs = 1
            for d in bsh:
                cs = cs * d if isinstance(d, int) and cs is not None else None
            if cs is not None and cs <= 64 and nb >= 0:
                import itertools
                all_idx = list(itertools.product(*[range(d) for d in bsh]))
                axs = [p[1] for p in advs]
                multi = ('multi', all_idx, axs)
                inv = multi
    sp.shape = tuple(oshape)
    sp.to_src = to_src
    sp.is_view = False
    sp.scalar = False
    if len(advs) == len(nzs) and inv is not None and not isinstance(inv, tuple) and nzs[0] is not None:
        sp.masktag = nzs[0]
    if inv is None:
        sp.from_src = None
    elif isinstance(inv, tuple):
        _, all_idx, axs = inv

        def from_src(s):
            # last matching write wins; caller handles via chain
            raise Unsupported('internal: multi')
        sp.from_src = ('multi', all_idx, axs, advax, intax, slots, adv_at, nb, len(oshape), shape)
    else:
        def from_src(s):
            conds = []
            out = [0] * len(oshape)
            for x, v in intax.items():
                conds.append(scalar_op('==', s[x], v))
            for x, (o, st, step, ln) in slots.items():
                if isinstance(st, int) and st == 0 and isinstance(step, int) and step == 1 and same_int(ln, shape[x]):
                    out[o] = s[x]
                    continue
                d = scalar_op('-', s[x], st)
                if isinstance(step, int) and step == 1:
                    v = d
                else:
                    v = scalar_op('//', d, step)
                    conds.append(scalar_op('==', scalar_op('%', d, step), 0))
                conds.append(scalar_op('>=', v, 0))
                conds.append(scalar_op('<', v, ln))
                out[o] = v
            c, k = inv(s)
            conds.append(c)
            for j in range(nb):
                out[adv_at + j] = k[j]
            return s_and(*conds), tuple(out)
        sp.from_src = from_src
    return sp


# index arrays whose entries are all different: name -> dict(shape, size, coords)
DISTINCT = {}


def _affine_inverse(c, d, n, ax):
    def inv(s):
        r = scalar_op('-', s[ax], T.mk_int(d))
        v = scalar_op('//', r, c)
        return s_and(scalar_op('==', scalar_op('%', r, c), 0), scalar_op('>=', v, 0), scalar_op('<', v, n)), (v,)
    return inv


def _struct_inverse(arrays, bsh, axs):
    """Partial inverse of index arrays read from an input declared to have distinct entries."""
    from . import facade
    import z3
    bs = [z3.Int(CTX.fresh_name('sv')) for _ in bsh]
    sizes = None
    sb = tuple(SymInt(b) for b in bs)
    ts = []
    for x in arrays:
        t = x.reader()(facade.bcast_idx(sb, x.shape, bsh))
        if not isinstance(t, SymInt):
            return None
        t = z3.simplify(t.t)
        if len(arrays) == 1 and len(bs) == 1:
            c = z3.simplify(z3.substitute(t, (bs[0], bs[0] + 1)) - t)
            if z3.is_int_value(c) and c.as_long() != 0:
                return _affine_inverse(c.as_long(), z3.substitute(t, (bs[0], z3.IntVal(0))), bsh[0], axs[0])
        if not z3.is_app(t) or t.decl().name() not in DISTINCT:
            if len(arrays) == 1:
                fl = _flat_coords(t)
                if fl is not None:
                    ts, sizes = fl
                    break
            return None
        ts.append(t)
    name = ts[0].decl().name()
    info = DISTINCT[name]
    if any(t.decl().name() != name for t in ts):
        return None
    args = [list(t.children()) for t in ts]
    if info['coords']:
        # first index of the input selects the coordinate
        if len(ts) != info['coords'] or [str(a[0]) for a in args] != [str(k) for k in range(len(ts))]:
            return None
        args = [a[1:] for a in args]
    elif len(ts) != 1:
        return None
    if any(any(not x.eq(y) for x, y in zip(a, args[0])) for a in args[1:]):
        return None
    pat = []
    used = set()
    for a in args[0]:
        for j, b in enumerate(bs):
            d = z3.simplify(a - b)
            if not T.mentions(d, bs):
                pat.append((j, d))
                used.add(j)
                break
        else:
            if T.mentions(a, bs):
                return None
            pat.append((None, a))
    if len(used) != len(bs) or len([1 for j, _ in pat if j is not None]) != len(bs):
        # unit axes may stay unused
        if any(j not in used and not (isinstance(bsh[j], int) and bsh[j] == 1) for j in range(len(bs))):
            return None

    def inv(s):
        src = [s[x] for x in axs]
        if sizes is not None:
            src = list(facade._unflat(src[0], sizes))
        p = [zint(x) for x in src]
        g = info['inv'](p)
        conds = [info['at'](g, p)]
        out = [0] * len(bs)
        for (j, d), gk in zip(pat, g):
            if j is None:
                conds.append(gk == d)
            else:
                v = z3.simplify(gk - d)
                conds += [v >= 0, v < zint(bsh[j])]
                out[j] = T.mk_int(v)
        return T.mk_bool(z3.And(*conds)), tuple(out)
    return inv


def _flat_coords(t):
    """Coordinates of an input with distinct points, where t is their flat index: (terms, sizes)."""
    from .canon import Canon, Big
    apps, todo, seen = {}, [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().name() in DISTINCT:
            apps.setdefault(x.decl().name(), []).append(x)
        else:
            todo.extend(x.children())
    if len(apps) != 1:
        return None
    (name, l), = apps.items()
    info = DISTINCT[name]
    l = sorted(l, key=lambda x: str(x.arg(0)))
    if not info['coords'] or len(l) != info['coords'] or [str(x.arg(0)) for x in l] != [str(k) for k in range(len(l))]:
        return None
    flat = z3.IntVal(0)
    for x, n in zip(l, info['sizes']):
        flat = flat * zint(n) + x
    c = Canon()
    try:
        if c.add(c.poly(flat), c.poly(t), -1):
            return None
    except (Big, Unsupported, RecursionError):
        return None
    return l, info['sizes']


def _adv_reader(rd, x, bsh, n, nz):
    from . import facade
    xs = x.shape
    trusted = nz is not None or getattr(x, 'in_range_of', None) is not None and any(same_int(n, m) for m in x.in_range_of)
    checked = {}

    def f(bi):
        i = rd(facade.bcast_idx(bi, xs, bsh))
        if trusted:
            return i
        if isinstance(i, int) and isinstance(n, int):
            if not -n <= i < n:
                raise IndexError(f'index {i} is out of bounds for axis of size {n}')
            return i + n if i < 0 else i
        if isinstance(i, int):
            if i < 0:
                return scalar_op('+', n, i)
            return i
        if CTX.entails(i.t >= 0):
            return i
        if CTX.entails(i.t < 0):
            return scalar_op('+', i, n)
        return s_ite(scalar_op('<', i, 0), scalar_op('+', i, n), i)

    # range obligation for symbolic index arrays
    if not trusted:
        csz = x.concrete_size()
        if csz is not None and csz <= 64:
            import itertools
            for bi in itertools.product(*[range(d) for d in xs]):
                i = rd(bi)
                norm_int(i, n)
        else:
            from .engine import OBL
            from .arr import fresh_int
            ks = tuple(fresh_int('gi') for _ in xs)
            inr = idx_in(ks, xs)
            i = rd(ks)
            bad = s_and(inr, s_or(scalar_op('<', i, scalar_op('-', 0, n)), scalar_op('>=', i, n)))
            if bad is not False and CTX.feasible(zbool(bad)):
                OBL.side('index-in-range', s_not(bad))
    return f


def getitem(a, key):
    if isinstance(key, str):
        raise IndexError('only integers, slices...')
    # fast path : full concrete/scalar ints
    sp = make_spec(a, key)
    if sp.scalar:
        return a.at(sp.to_src(()))
    if sp.is_view:
        return a.mkview(sp.shape, sp.to_src, sp.from_src)
    r = a.reader()
    ts = sp.to_src
    out = SymArray(sp.shape, lambda idx: r(ts(idx)), a.dtype)
    if sp.masktag is not None and a.ndim == len(sp.masktag.arrays):
        out.masktag = (sp.masktag, r)
    if isinstance(key, SymArray) and key.ndim == 1 and a.ndim == 1:
        if key.kind == 'b':
            if a.parts is not None and sp.masktag is not None and sp.masktag.full:
                out.parts = a.parts
        elif key.parts is not None:
            ps, src = key.parts, SymArray(a.shape, r, a.dtype)
            out.parts = lambda: [getitem(src, q) for q in ps()]
    return out


def setitem(a, key, value):
    from . import facade
    sp = make_spec(a, key)
    if isinstance(value, (list, tuple)) or hasattr(value, '_is_symseq'):
        value = facade.array(value)
    if isinstance(value, SymArray):
        facade.check_broadcast_to(value.shape, sp.shape)
        vr = value.reader()
        vs = value.shape
        osh = sp.shape
        # numpy allows leading 1s to be dropped on assignment
        while len(vs) > len(osh):
            vs0 = vs
            vs = vs[1:]
            vr0 = vr
            vr = (lambda vr0: (lambda i: vr0((0,) + tuple(i))))(vr0)
        get = lambda idx: vr(facade.bcast_idx(idx, vs, osh))
        vkind = value.kind
    else:
        import numpy as _np
        if isinstance(value, (_np.generic, float)):
            value = T.norm_const(value)
        if not (is_sym(value) or isinstance(value, (bool, int, Fraction, float, complex))):
            if value is None:
                raise TypeError('float() argument must be a string or a real number')
            raise Unsupported(f'assigning {type(value).__name__} into array')
        get = lambda idx: value
        vkind = kind_of(value)
    if vkind == 'c' and a.kind in 'bif':
        if not isinstance(value, SymArray):
            raise TypeError('float() argument must be real')
    if a.dtype.kind == 'i' and isinstance(value, float):
        raise ValueError('cannot convert float NaN to integer')
    st = a.store
    for l in WRITE_LOG:
        l.append(st)
    dt = st.dtype
    old = st.fn
    fs = sp.from_src
    if fs is None:
        raise Unsupported('scatter through a symbolic index array without a known inverse')
    v = a.view
    if v is not None and v.from_base is None:
        raise Unsupported('write through a non-invertible view')
    cast = lambda x: facade.cast_scalar(x, dt)

    if isinstance(fs, tuple):
        _, all_idx, axs, advax, intax, slots, adv_at, nb, no, shape = fs
        entries = [(bi, tuple(advax[x](bi) for x in axs)) for bi in all_idx]

        def src_val(s, oldv):
            res = oldv
            base = []
            out0 = [0] * no
            for x, c in intax.items():
                base.append(scalar_op('==', s[x], c))
            for x, (o, st_, step, ln) in slots.items():
                d = scalar_op('-', s[x], st_)
                if isinstance(step, int) and step == 1:
                    w = d
                else:
                    w = scalar_op('//', d, step)
                    base.append(scalar_op('==', scalar_op('%', d, step), 0))
                base.append(scalar_op('>=', w, 0))
                base.append(scalar_op('<', w, ln))
                out0[o] = w
            for bi, tgt in entries:
                c = s_and(*base, *[scalar_op('==', s[x], t_) for x, t_ in zip(axs, tgt)])
                if c is False:
                    continue
                out = list(out0)
                for j in range(nb):
                    out[adv_at + j] = bi[j]
                res = s_ite(c, cast(get(tuple(out))), res)
            return res

        def new(b):
            o = old(b)
            if v is None:
                return src_val(b, o)
            c, s = v.from_base(b)
            if c is False:
                return o
            return s_ite(c, src_val(s, o), o)
    else:
        def new(b):
            if v is None:
                c, idx = fs(b)
            else:
                c0, s = v.from_base(b)
                if c0 is False:
                    return old(b)
                c1, idx = fs(s)
                c = s_and(c0, c1)
            if isinstance(c, SymBool):
                ct = z3.simplify(c.t)
                if CTX.quick_unsat(ct):
                    return old(b)
                if CTX.quick_unsat(z3.Not(ct)):
                    c = True
            if c is False:
                return old(b)
            val = cast(get(idx))
            if c is True:
                return val
            return s_ite(c, val, old(b))
    st.fn = Memo(new)
