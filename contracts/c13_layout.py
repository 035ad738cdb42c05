"""C13: layout of slopes vectors, interaction matrices, mode bases and pupil descriptions."""
import numpy as np
from pvc.api import harness
from contracts.common import raises_iff
from specula.base_value import BaseValue
from specula.data_objects.slopes import Slopes
from specula.data_objects.intmat import Intmat
from specula.data_objects.recmat import Recmat
from specula.data_objects.ifunc import IFunc
from specula.data_objects.ifunc_inv import IFuncInv, cut_modes
from specula.data_objects.m2c import M2C
from specula.data_objects.pupdata import PupData
from specula.data_objects.subap_data import SubapData

D = 'data_objects/'
SL = D + 'slopes.py:Slopes.'
IM = D + 'intmat.py:Intmat.'


def is_x(k, n, inter):
    """Position k of a vector of n slopes holds an x slope."""
    return k % 2 == 0 if inter else k < n // 2


def xpos(k, n, inter):
    return 2 * k if inter else k


def ypos(k, n, inter):
    return 2 * k + 1 if inter else n // 2 + k


@harness('C13', funcs=[SL + '__init__', SL + 'xslopes', SL + 'yslopes', SL + 'indx', SL + 'indy', SL + 'size', SL + 'resize', SL + 'set_value'])
def slopes_layout(e):
    m = e.dim('m')
    n = 2 * m
    inter = e.flag('interleave')
    how = e.choice('made', ['values', 'length', 'resized'])
    v = e.array('v', n)
    if how == 'values':
        s = Slopes(slopes=v, interleave=inter)
    elif how == 'length':
        s = Slopes(n, interleave=inter)
        e.eq_fn('a new vector is zero', s.slopes, (n,), lambda k: 0)
        s.set_value(v)
    else:
        s = Slopes(e.int('n0', 0, 9), interleave=inter)
        s.resize(n)
        e.eq_fn('a resized vector is zero', s.slopes, (n,), lambda k: 0)
        s.set_value(v)
    v = e.snap(v)
    e.eq('size', s.size, n)
    e.eq('value', s.get_value(), v)
    e.eq_fn('x slopes', s.xslopes, (m,), lambda k: v[xpos(k, n, inter)])
    e.eq_fn('y slopes', s.yslopes, (m,), lambda k: v[ypos(k, n, inter)])
    e.eq_fn('x indices', s.indx(), (m,), lambda k: xpos(k, n, inter))
    e.eq_fn('y indices', s.indy(), (m,), lambda k: ypos(k, n, inter))
    x, y = e.array('x', m), e.array('y', m)
    s.xslopes = x
    e.eq('new x slopes', s.xslopes, x)
    e.eq_fn('setting x leaves y', s.yslopes, (m,), lambda k: v[ypos(k, n, inter)])
    s.yslopes = y
    e.eq('new y slopes', s.yslopes, y)
    e.eq('setting y leaves x', s.xslopes, x)
    e.eq_fn('every element is an x or a y slope', s.slopes, (n,), lambda k: e.ite(is_x(k, n, inter),
            x[e.ite(is_x(k, n, inter), k // 2 if inter else k, 0)],
            y[e.ite(is_x(k, n, inter), 0, (k // 2 if inter else k - m))]))


@harness('C13', funcs=[SL + '__init__', SL + 'resize', SL + 'yslopes'])
def odd_vector(e):
    m = e.dim('m')
    n = 2 * m + 1
    v = e.array('v', n)
    s = Slopes(slopes=v)
    e.eq_fn('first half', s.xslopes, (m,), lambda k: v[k])
    e.eq_fn('second half, no element lost', s.yslopes, (m + 1,), lambda k: v[m + k])
    s = Slopes(4)
    s.resize(n)
    s.set_value(v)
    e.eq_fn('first half (resized)', s.xslopes, (m,), lambda k: v[k])
    e.eq_fn('second half (resized)', s.yslopes, (m + 1,), lambda k: v[m + k])


@harness('C13', funcs=[SL + 'sum', SL + 'subtract', SL + 'set_value'])
def slopes_arithmetic(e):
    n, f = e.dim('n'), e.real('f')
    a, b = e.array('a', n), e.array('b', n)
    s1, s2 = Slopes(slopes=a), Slopes(slopes=b)
    a, b = e.snap(a), e.snap(b)
    s1.sum(s2, f)
    e.eq_fn('sum with factor', s1.slopes, (n,), lambda k: a[k] + f * b[k])
    e.eq('other vector untouched', s2.slopes, b)
    s1.subtract(s2)
    e.eq_fn('difference', s1.slopes, (n,), lambda k: a[k] + f * b[k] - b[k])
    s1.subtract(BaseValue(value=b))
    e.eq_fn('difference with a value', s1.slopes, (n,), lambda k: a[k] + f * b[k] - 2 * b[k])
    e.eq('other vector untouched', s2.slopes, b)
    m = e.int('m', 0, 9)
    w = e.array('w', m)
    raises_iff(e, 'set_value of another size', AssertionError, lambda: s1.set_value(w), m != n)


@harness('C13', funcs=[SL + 'rotate'], mode='test', trials=60)
def slopes_rotation(e):
    n, inter = 2 * e.dim('m'), e.flag('interleave')
    v, a = e.array('v', n), e.real('angle', -400, 400)
    fx, fy = e.flag('flipx'), e.flag('flipy')
    s = Slopes(slopes=v, interleave=inter)
    v = e.snap(v)
    t = Slopes(slopes=v, interleave=inter)
    s.rotate(a, fx, fy)
    c, q = np.cos(np.radians(a)), np.sin(np.radians(a))
    x, y = t.xslopes, t.yslopes
    e.eq('rotated x', s.xslopes, (c * x - q * y) * (-1 if fx else 1), tol=1e-9)
    e.eq('rotated y', s.yslopes, (q * x + c * y) * (-1 if fy else 1), tol=1e-9)


@harness('C13', funcs=[SL + 'x_remap2d', SL + 'y_remap2d', SL + 'get2d'])
def slopes_map(e):
    m, ny, nx = e.dim('m'), e.dim('ny'), e.dim('nx')
    inter = e.flag('interleave')
    v = e.array('v', 2 * m)
    s = Slopes(slopes=v, interleave=inter)
    n = 2 * m
    mask = e.array('mask', (ny, nx))
    s.single_mask = mask
    flat = e.flag('flat_map')
    if flat:
        dm = e.indices('dm', m, ny * nx)
        e.assume(n != m)
        at = lambda out, k: out.ravel()[dm[k]]
    else:
        dm = e.indices('dm', m, (ny, nx), coords=2)
        e.assume(n != 2)
        at = lambda out, k: out[dm[0, k], dm[1, k]]
    s.display_map = dm
    fx, fy = e.array('fx', (ny, nx)), e.array('fy', (ny, nx))
    f0, g0 = e.snap(fx), e.snap(fy)
    s.x_remap2d(fx, dm)
    s.y_remap2d(fy, dm)
    e.forall('x slopes at their places', (m,), lambda k: at(fx, k) == v[xpos(k, n, inter)])
    e.forall('y slopes at their places', (m,), lambda k: at(fy, k) == v[ypos(k, n, inter)])
    d2 = s.get2d()
    e.eq('map of x and y', (d2.shape[0], d2.shape[1], d2.shape[2]), (2, ny, nx))
    e.forall('x map', (m,), lambda k: at(d2[0], k) == v[xpos(k, n, inter)])
    e.forall('y map', (m,), lambda k: at(d2[1], k) == v[ypos(k, n, inter)])


@harness('C13', funcs=[SL + 'get2d'])
def slopes_map_missing(e):
    n, ny, nx = e.dim('n'), e.dim('ny'), e.dim('nx')
    v = e.array('v', n)
    s = Slopes(slopes=v)
    e.raises('map without a mask', ValueError, s.get2d)
    s.single_mask = e.array('mask', (ny, nx))
    e.raises('map without a display map', ValueError, s.get2d)
    # one value per entry of the display map: slopes from intensity
    dm = e.indices('dm', n, ny * nx)
    s.display_map = dm
    f = s.get2d()
    e.forall('one value per pixel', (n,), lambda k: f.ravel()[dm[k]] == v[k])


@harness('C13', funcs=[IM + 'set_nmodes', IM + 'set_nslopes', IM + 'nmodes', IM + 'nslopes', IM + 'get_value', IM + 'set_value'])
def intmat_resize(e):
    ns, nm = e.dim('ns'), e.dim('nm')
    v = e.array('v', (ns, nm))
    im = Intmat(v)
    e.eq('sizes', (im.nslopes, im.nmodes), (ns, nm))
    k = e.dim('k', 0)
    im.set_nmodes(k)
    e.eq_fn('modes kept, new ones zero', im.intmat, (ns, k), lambda i, j: e.ite(j < nm, v[i, e.ite(j < nm, j, 0)], 0))
    w = e.array('w', (ns, k))
    im.set_value(w)
    e.eq('new values', im.get_value(), w)
    w = e.snap(w)
    h = e.dim('h', 0)
    im.set_nslopes(h)
    e.eq_fn('slopes kept, new ones zero', im.intmat, (h, k), lambda i, j: e.ite(i < ns, w[e.ite(i < ns, i, 0), j], 0))
    e.eq('new sizes', (im.nslopes, im.nmodes), (h, k))
    a, b = e.int('a', 0, 5), e.int('b', 0, 5)
    u = e.array('u', (a, b))
    raises_iff(e, 'set_value of another shape', AssertionError, lambda: im.set_value(u), e.Or(a != h, b != k))


@harness('C13', funcs=[IM + 'reduce_size', IM + 'reduce_slopes', IM + 'set_start_mode', D + 'recmat.py:Recmat.reduce_size'])
def matrix_cuts(e):
    ns, nm = e.dim('ns'), e.dim('nm')
    v = e.array('v', (ns, nm))
    d = e.int('d', 0)
    what = e.choice('what', ['modes', 'slopes', 'start', 'recmat'])
    if what == 'modes':
        im = Intmat(v)
        if not raises_iff(e, 'discard too many modes', ValueError, lambda: im.reduce_size(d), d >= nm):
            e.eq_fn('last modes discarded', im.intmat, (ns, nm - d), lambda i, j: v[i, j])
    elif what == 'slopes':
        im = Intmat(v)
        if not raises_iff(e, 'discard too many slopes', ValueError, lambda: im.reduce_slopes(d), d >= ns):
            e.eq_fn('last slopes discarded', im.intmat, (ns - d, nm), lambda i, j: v[i, j])
    elif what == 'start':
        im = Intmat(v)
        if not raises_iff(e, 'start beyond the last mode', ValueError, lambda: im.set_start_mode(d), d >= nm):
            e.eq_fn('first modes discarded', im.intmat, (ns, nm - d), lambda i, j: v[i, j + d])
    else:
        r = Recmat(v)
        e.eq('modes', r.nmodes, ns)
        if not raises_iff(e, 'discard too many modes of a reconstructor', ValueError, lambda: r.reduce_size(d), d >= ns):
            e.eq_fn('last modes of a reconstructor discarded', r.recmat, (ns - d, nm), lambda i, j: v[i, j])


@harness('C13', funcs=[D + f'intmat.py:_{c}View.{m}' for c in ('Cols', 'Rows') for m in ('__getitem__', '__setitem__')])
def matrix_views(e):
    ns, nm = e.dim('ns'), e.dim('nm')
    v = e.array('v', (ns, nm))
    im = Intmat(v)
    v = e.snap(v)
    j, i = e.int('j', 0), e.int('i', 0)
    e.assume(j < nm)
    e.assume(i < ns)
    e.eq_fn('one mode', im.modes[j], (ns,), lambda r: v[r, j])
    e.eq_fn('one slope', im.slopes[i], (nm,), lambda c: v[i, c])
    c = e.array('c', ns)
    im.modes[j] = c
    e.eq_fn('only that mode is set', im.intmat, (ns, nm), lambda r, q: e.ite(q == j, c[r], v[r, q]))
    u = e.snap(im.intmat)
    im.slopes[i] += 2
    e.eq_fn('only that slope is incremented', im.intmat, (ns, nm), lambda r, q: u[r, q] + e.ite(r == i, 2, 0))
    im.set_nslopes(ns + 1)
    e.eq_fn('views follow the matrix', im.slopes[ns], (nm,), lambda q: 0)
    im.slopes[ns] = 3
    e.eq_fn('views follow the matrix', im.intmat, (ns + 1, nm), lambda r, q: e.ite(r == ns, 3, u[e.ite(r == ns, 0, r), q] + e.ite(r == i, 2, 0)))


@harness('C13', funcs=[IM + '__init__'])
def intmat_new(e):
    ns, nm = e.dim('ns'), e.dim('nm')
    im = Intmat(nmodes=nm, nslopes=ns)
    e.eq_fn('rows are slopes, columns are modes', im.intmat, (ns, nm), lambda i, j: 0)
    e.raises('no size', ValueError, lambda: Intmat(nmodes=nm))
    e.raises('no size', ValueError, lambda: Intmat(nslopes=ns))


@harness('C13', funcs=[IM + 'generate_rec', IM + 'pseudo_invert'], trials=20)
def reconstructor(e):
    ns, nm = e.dim('ns'), e.dim('nm')
    v = e.array('v', (ns, nm))
    im = Intmat(v)
    if e.flag('cut'):
        k = e.dim('k')
        e.assume(k <= nm)
        e.eq('pseudo-inverse of the first modes', im.generate_rec(nmodes=k).recmat, e.np.linalg.pinv(v[:, :k]), tol=1e-6)
    else:
        e.eq('pseudo-inverse', im.generate_rec().recmat, e.np.linalg.pinv(v), tol=1e-6)
    e.eq('matrix untouched', im.intmat, v)


@harness('C13', funcs=[IM + 'build_from_slopes'], trials=40)
def from_slopes(e):
    ns, nm, nt = e.dim('ns'), e.choice('nm', [1, 2, 3]), e.choice('nt', [1, 2, 3])
    slopes, dist, mode, amp = {}, {}, [], []
    for t in range(nt):
        s = e.array(f's{t}', ns)
        k = e.choice(f'mode{t}', list(range(nm)))
        a = e.real(f'a{t}', 1, 9) * e.choice(f'sign{t}', [1, -1])
        d = e.mk((nm,), lambda j, k=k, a=a: e.ite(j == k, a, 0))
        slopes[10 * t], dist[10 * t] = s, d
        mode.append(k)
        amp.append(a)
    im = Intmat.build_from_slopes(slopes, dist)
    cnt = [sum(1 for m in mode if m == j) for j in range(nm)]
    for j in range(nm):
        e.eq_fn('mean of the slopes per unit amplitude of each mode', im.intmat[:, j], (ns,),
                lambda i: sum((slopes[10 * t][i] / amp[t] for t in range(nt) if mode[t] == j), 0) / max(cnt[j], 1))
    e.eq('sizes', (im.nslopes, im.nmodes), (ns, nm))


@harness('C13', funcs=[D + 'ifunc_inv.py:cut_modes', D + 'ifunc.py:IFunc.cut', D + 'ifunc_inv.py:IFuncInv.cut', D + 'm2c.py:M2C.cut',
                       D + 'm2c.py:M2C.set_nmodes', D + 'm2c.py:M2C.__init__', D + 'ifunc.py:IFunc.__init__'])
def mode_cuts(e):
    nm, npx = e.dim('nm'), e.dim('npx')
    what = e.choice('what', ['ifunc', 'ifunc_new', 'inverse', 'm2c'])
    rows = what.startswith('ifunc') and True
    v = e.array('v', (nm, npx) if rows else (npx, nm))
    mode = lambda k, p: v[k, p] if rows else v[p, k]
    mask = e.array('mask', (npx, 1))
    how = e.choice('how', ['start', 'number', 'both', 'none', 'list'])
    start = e.int('start', 0)
    num = e.int('num', 0)
    e.assume(start <= nm)
    kw = {}
    if how in ('start', 'both'):
        kw['start_mode'] = start
    if how in ('number', 'both'):
        kw['nmodes'] = num
    if how == 'list':
        nl = e.dim('nl')
        idx = e.array('idx', nl, kind='i', lo=0)
        e.assume_forall((nl,), lambda k: idx[k] < nm)
        kw['idx_modes'] = idx
        if e.flag('list_and_start'):
            kw['start_mode'], kw['nmodes'] = start, num
    if what == 'ifunc_new':
        r = IFunc(v, mask=mask, **kw).influence_function
    else:
        o = IFunc(v, mask=mask) if what == 'ifunc' else IFuncInv(v, mask) if what == 'inverse' else M2C(v)
        o.cut(**kw)
        r = o.influence_function if what == 'ifunc' else o.ifunc_inv if what == 'inverse' else o.m2c
    get = lambda k, p: r[k, p] if rows else r[p, k]
    n = r.shape[0] if rows else r.shape[1]
    if how == 'list':
        e.eq('number of modes', n, nl)
        e.forall('listed modes', (nl, npx), lambda k, p: get(k, p) == mode(idx[k], p))
    else:
        s = start if how in ('start', 'both') else 0
        want = nm - s if how in ('none', 'start') else e.ite(num < nm - s, num, nm - s)
        e.eq('number of modes', n, want)
        e.forall('consecutive modes', (want, npx), lambda k, p: get(k, p) == mode(k + s, p))
    e.eq('pixels kept', r.shape[1] if rows else r.shape[0], npx)


@harness('C13', funcs=[D + 'm2c.py:M2C.__init__', D + 'm2c.py:M2C.nmodes', D + 'm2c.py:M2C.set_nmodes', D + 'm2c.py:M2C.set_value'])
def m2c_modes(e):
    na, nm, k = e.dim('na'), e.dim('nm'), e.dim('k')
    v = e.array('v', (na, nm))
    e.assume(k <= nm)
    m = M2C(v, nmodes=k)
    e.eq('number of modes', m.nmodes, k)
    e.eq_fn('first modes', m.m2c, (na, k), lambda i, j: v[i, j])
    w = e.array('w', (na, k))
    m.set_value(w)
    e.eq('new values', m.get_value(), w)


@harness('C13', funcs=[D + 'ifunc.py:IFunc.ifunc_2d_to_3d', D + 'ifunc.py:IFunc.inverse', D + 'ifunc.py:IFunc.set_value'], trials=30)
def ifunc_cube(e):
    n, nm = e.dim('n'), e.dim('nm')
    mask = e.array('mask', (n, n), kind='b')
    cnt = e.sum(n, lambda i: e.sum(n, lambda j: e.ite(mask[i, j], 1, 0)))
    rows, cols = e.np.where(mask)
    npx = rows.shape[0]
    v = e.array('v', (nm, npx))
    f = IFunc(v, mask=mask)
    c = f.ifunc_2d_to_3d(normalize=False)
    e.eq('size of the cube', tuple(c.shape), (n, n, nm))
    e.forall('each mode at the pixels of the mask, in order', (npx, nm), lambda p, k: c[rows[p], cols[p], k] == v[k, p])
    e.forall('zero outside of the mask', (n, n, nm), lambda i, j, k: e.Or(mask[i, j], c[i, j, k] == 0))
    e.eq('influence functions untouched', f.influence_function, v)


@harness('C13', funcs=[D + 'ifunc.py:IFunc.ifunc_2d_to_3d'], trials=30)
def ifunc_cube_normalised(e):
    n, nm = e.choice('n', [1, 2, 3]), e.dim('nm')
    mask = np.zeros((n, n))
    px = [(i, j) for i in range(n) for j in range(n) if (i + j) % 2 == 0]
    for p in px:
        mask[p] = 1
    v = e.array('v', (nm, len(px)), lo=1, hi=5)
    f = IFunc(v, mask=mask)
    c = f.ifunc_2d_to_3d()
    rms = lambda k: e.np.sqrt(sum(v[k, p] * v[k, p] for p in range(len(px))) / len(px))
    e.forall('each mode divided by its rms', (nm,), lambda k: e.And(*[c[i, j, k] == v[k, p] / rms(k) for p, (i, j) in enumerate(px)])
             if e.symbolic else all(abs(c[i, j, k] - v[k, p] / rms(k)) < 1e-9 for p, (i, j) in enumerate(px)))
    e.eq('influence functions untouched', f.influence_function, v)


@harness('C13', funcs=[D + 'pupdata.py:PupData.' + m for m in ('__init__', 'n_subap', 'n_pupils', 'pupil_idx', 'complete_mask', 'single_mask', 'zcorrection', 'set_value')])
def pupil_masks(e):
    n, ny, nx = e.dim('n'), e.dim('ny'), e.dim('nx')
    np_ = e.choice('pupils', [1, 4])
    ix = e.indices('ix', (n, np_), ny * nx)
    p = PupData(ix, framesize=[ny, nx])
    e.eq('sizes', (p.n_subap, p.n_pupils), (n, np_))
    for k in range(np_):
        e.eq_fn('pixels of one pupil', p.pupil_idx(k), (n,), lambda i: ix[i, k])
    f = p.complete_mask()
    e.eq('shape of the mask', tuple(f.shape), (ny, nx))
    for k in range(np_):
        e.forall('all pupils in the complete mask', (n,), lambda i: f.ravel()[ix[i, k]] == 1)
    z = p.zcorrection(p.ind_pup)
    order = [0, 1, 3, 2] if np_ == 4 else [0]
    for k in range(np_):
        e.eq_fn('last two pupils exchanged', z[:, k], (n,), lambda i: ix[i, order[k]])
    e.eq('indices untouched', p.ind_pup, ix)


@harness('C13', funcs=[D + 'pupdata.py:PupData.single_mask', D + 'pupdata.py:PupData.display_map'])
def pupil_quadrant(e):
    n, ny, nx = e.dim('n'), e.dim('ny'), e.dim('nx')
    H, W = 2 * ny, 2 * nx
    # first pupil in the upper right quadrant, as PyrSlopec expects
    if e.symbolic:
        ix = e.indices('ix', (n, 4), H * W)
        row, col = lambda i: ix[i, 0] // W, lambda i: ix[i, 0] % W
        e.assume_forall((n,), lambda i: e.And(row(i) < ny, col(i) >= nx))
    else:
        rc = e.indices('rc', n, (ny, nx), coords=2)
        ix = e.mk((n, 4), lambda i, k: rc[0, i] * W + nx + rc[1, i], 'i')
        row, col = lambda i: rc[0, i], lambda i: rc[1, i] + nx
    p = PupData(ix, framesize=[H, W])
    m = p.single_mask()
    e.eq('quadrant', tuple(m.shape), (ny, nx))
    e.forall('mask of the first pupil', (n,), lambda i: m[row(i), col(i) - nx] == 1)
    if not e.symbolic:
        e.eq('no other pixel', e.np.sum(m), n)
        dm = p.display_map
        e.eq('display map', sorted(dm.tolist()), sorted((rc[0] * nx + rc[1]).tolist()))


@harness('C13', funcs=[D + 'pupdata.py:PupData.display_map', D + 'pupdata.py:PupData.set_slopes_from_intensity'])
def pupil_order(e):
    n, np_ = e.dim('n'), e.choice('pupils', [1, 3, 4])
    ix = e.indices('ix', (n, np_), 10 ** 6)
    p = PupData(ix, framesize=[1000, 1000])
    p.set_slopes_from_intensity()
    e.eq_fn('pupils one after the other', p.display_map, (n * np_,), lambda k: ix[k % n, k // n])


@harness('C13', funcs=[D + 'subap_data.py:SubapData.' + m for m in ('__init__', 'n_subaps', 'np_sub', 'single_mask', 'subap_idx', 'display_map_idx')])
def subapertures(e):
    n, ny, nx = e.dim('n'), e.dim('ny'), e.dim('nx')
    side = e.choice('side', [1, 2, 5, 12])
    ix = e.array('ix', (n, side * side), kind='i', lo=0)
    dm = e.indices('dm', n, nx * ny)
    s = SubapData(ix, dm, nx, ny)
    e.eq('subapertures', s.n_subaps, n)
    e.eq('side', s.np_sub, side)
    k = e.int('k', 0)
    e.assume(k < n)
    e.eq_fn('pixels of a subaperture', s.subap_idx(k), (side * side,), lambda p: ix[k, p])
    e.eq('place of a subaperture', s.display_map_idx(k), dm[k])
    m = s.single_mask()
    e.eq('shape of the mask', tuple(m.shape), (nx, ny))
    e.forall('one at the place of each subaperture', (n,), lambda i: m.ravel()[dm[i]] == 1)
