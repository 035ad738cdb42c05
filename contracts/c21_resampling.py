"""C21: resampling: rebinning, area interpolation, bilinear interpolation, extrapolation at the edges."""
import numpy as np
from pvc.api import harness
from specula.data_objects.electric_field import ElectricField
from specula.lib.rebin import rebin2d
from specula.lib.toccd import toccd, gcd, lcm
from specula.lib.interp2d import Interp2D
from specula.lib.extrapolation_2d import EFInterpolator

R = 'lib/rebin.py:rebin2d'
TC = ['lib/toccd.py:' + f for f in ('toccd', 'gcd', 'lcm')] + [R]
IN = ['lib/interp2d.py:Interp2D.' + f for f in ('__init__', 'interpolate')]
EX = ['lib/extrapolation_2d.py:' + f for f in ('_calculate_extrapolation_indices_coeffs', '_apply_extrapolation',
                                              'EFInterpolator.__init__', 'EFInterpolator.interpolate',
                                              'EFInterpolator.update_parameters')]


@harness('C21', funcs=[R])
def shrink(e):
    """Rebinning by integer factors is the mean of each block, for any size and any two factors."""
    fy, fx = e.choice('fy', [1, 2, 3]), e.choice('fx', [1, 2, 4])
    my, mx = e.dim('my'), e.dim('mx')
    a = e.array('a', (my * fy, mx * fx))
    was = e.snap(a)
    r = rebin2d(a, (my, mx), xp=e.xp)
    e.eq('shape', r.shape, (my, mx))
    e.eq_fn('mean of each block', r, (my, mx),
            lambda y, x: sum([was[y * fy + j, x * fx + k] for j in range(fy) for k in range(fx)], 0) / (fy * fx))
    e.eq('input not modified', a, was)


@harness('C21', funcs=[R])
def sampled(e):
    """Sampling takes the element at the proportional position, for any sizes, up or down."""
    H, W = e.dim('H'), e.dim('W')
    h, w = e.dim('h'), e.dim('w')
    a = e.array('a', (H, W))
    r = rebin2d(a, (h, w), sample=True, xp=e.xp)
    e.eq('shape', r.shape, (h, w))
    e.eq_fn('element at the proportional position', r, (h, w), lambda y, x: a[(y * H) // h, (x * W) // w])


@harness('C21', funcs=[R])
def enlarge(e):
    fy, fx = e.choice('fy', [1, 2, 3]), e.choice('fx', [1, 2, 5])
    H, W = e.dim('H'), e.dim('W')
    a = e.array('a', (H, W))
    r = rebin2d(a, (H * fy, W * fx), sample=True, xp=e.xp)
    e.eq_fn('elements are repeated', r, (H * fy, W * fx), lambda y, x: a[y // fy, x // fx])


@harness('C21', funcs=[R], trials=80)
def refused(e):
    H, W, h, w = e.int('H', 1, 7), e.int('W', 1, 7), e.int('h', 1, 7), e.int('w', 1, 7)
    a = e.array('a', (H, W))
    same = e.And(h == H, w == W)
    fits = e.And(h <= H, w <= W, H % h == 0, W % w == 0)
    if e.case(e.Or(same, fits)):
        e.eq('shape', rebin2d(a, (h, w), xp=e.xp).shape, (h, w))
    else:
        e.raises('only by integer factors and only down', ValueError, lambda: rebin2d(a, (h, w), xp=e.xp))


@harness('C21', funcs=TC, mode='bounded', heavy=2)
def area(e):
    """Area interpolation: every output pixel is the mean of the input over its area, scaled to the total."""
    H, h = e.choice('rows', [(2, 3), (3, 2), (4, 2), (1, 2), (4, 3), (3, 3)])
    W, w = e.choice('columns', [(2, 2), (2, 3), (3, 1)])
    a = e.array('a', (H, W), lo=0.5, hi=5)
    kw = {}
    total = e.np.sum(a)
    if e.flag('total given'):
        total = kw['set_total'] = e.real('total', 1, 100)
    shape = (h, w)
    if e.flag('as list'):
        shape = [h, w]
    r = toccd(a, shape, xp=e.xp, **kw)
    if (H, W) == (h, w):
        e.eq('same shape: unchanged', r, a)
        return
    ov = lambda i, n, N: [(k, max(0, min((i + 1) * N, (k + 1) * n) - max(i * N, k * n))) for k in range(N)]

    def flux(y, x):
        return sum([a[j, k] * p * q / (n_in) for j, p in ov(y, h, H) for k, q in ov(x, w, W) if p and q], 0)
    n_in = H * W
    out = {(y, x): flux(y, x) for y in range(h) for x in range(w)}
    s = sum(out.values(), 0)
    for (y, x), v in out.items():
        e.eq('share of the input over the area of the pixel', r[y, x], v / s * total)


@harness('C21', funcs=TC, trials=40)
def area_any(e):
    """Integer reductions at any size."""
    fy, fx = e.choice('fy', [1, 2, 3]), e.choice('fx', [2, 3])
    my, mx = e.dim('my'), e.dim('mx')
    a = e.array('a', (my * fy, mx * fx), lo=0.5, hi=5)
    r = toccd(a, (my, mx), xp=e.xp)
    blk = lambda y, x: sum([a[y * fy + j, x * fx + k] for j in range(fy) for k in range(fx)], 0) / (fy * fx)
    b = e.mk((my, mx), blk)
    s = e.np.maximum(e.np.sum(b), np.finfo(float).eps)
    tot = e.np.sum(a)
    e.eq('shape', r.shape, (my, mx))
    e.eq_fn('blocks scaled to the total', r, (my, mx), lambda y, x: b[y, x] / s * tot)


@harness('C21', funcs=TC, trials=200, mode='test')
def area_sizes(e):
    """Many pairs of sizes, against the exact overlap of the areas."""
    H, W, h, w = e.int('H', 1, 60), e.int('W', 1, 60), e.int('h', 1, 60), e.int('w', 1, 60)
    a = np.random.default_rng(H * 61 + h).random((H, W)) + 0.1
    r = toccd(a, (h, w), xp=np)

    def M(n, N):
        m = np.zeros((n, N))
        for i in range(n):
            for k in range(N):
                m[i, k] = max(0, min((i + 1) * N, (k + 1) * n) - max(i * N, k * n)) / N
        return m
    o = M(h, H) @ a @ M(w, W).T
    e.eq('shape', r.shape, (h, w))
    e.eq('area interpolation', r, o / o.sum() * a.sum(), tol=1e-9)


def coords(e, H, W, h, w, rot, dy, dx, mag, given):
    yc, xc = H / 2 - 0.5, W / 2 - 0.5
    c, s = e.np.cos(rot * e.np.pi / 180.0), e.np.sin(rot * e.np.pi / 180.0)

    def f(y, x):
        if given is not None:
            Y, X = given[0][y, x], given[1][y, x]
        else:
            Y, X = y * ((H - 1) / h), x * ((W - 1) / w)
        if not (isinstance(rot, int) and rot == 0 and isinstance(mag, float) and mag == 1.0):
            u, v = (Y - yc) / mag, (X - xc) / mag
            if not isinstance(rot, int):
                u, v = v * s + u * c, v * c - u * s
            Y, X = u + yc, v + xc
        Y, X = Y + dy, X + dx
        cl = lambda v, top: e.ite(v < 0, 0, e.ite(v > top, top, v))
        return cl(Y, H - 1), cl(X, W - 1)
    return f


@harness('C21', funcs=IN, heavy=3)
def interpolation(e):
    """Sampled coordinates: scaled grid (or given one), magnified and rotated about the centre, shifted, clamped; bilinear."""
    H, W, h, w = e.dim('H', 2), e.dim('W', 2), e.dim('h'), e.dim('w')
    kw = {}
    rot, dy, dx, mag, given = 0, 0, 0, 1.0, None
    how = e.choice('how', ['plain', 'magnified', 'rotated', 'shifted', 'given', 'given+rotated+shifted', 'rotated+magnified+shifted'])
    if 'magnified' in how:
        mag = kw['magnification'] = e.choice('mag', [0.5]) if e.symbolic else e.choice('mag', [0.5, 2.0, 1.3])
    if 'rotated' in how:
        rot = kw['rotInDeg'] = e.choice('rot', [30.0]) if e.symbolic else e.choice('rot', [30.0, -90.0, 200.0])
    if 'shifted' in how:
        dy, dx = e.real('dy', -3, 3), e.real('dx', -3, 3)
        kw.update(rowShiftInPixels=dy, colShiftInPixels=dx)
    if 'given' in how:
        given = (e.array('yy', (h, w), lo=-2, hi=9), e.array('xx', (h, w), lo=-2, hi=9))
        kw.update(yy=given[0], xx=given[1])
    e.assume(e.Or(h != H, w != W))
    o = Interp2D((H, W), (h, w), dtype=e.np.float64, **kw)
    v = e.array('v', (H, W))
    was = e.snap(v)
    cc = coords(e, H, W, h, w, rot, dy, dx, mag, given)
    r = o.interpolate(v)
    e.eq('shape', r.shape, (h, w))
    e.eq_fn('bilinear value at the coordinates', r, (h, w), lambda y, x: e.bilinear(was)(*cc(y, x)))
    b = e.array('b', (H, W))
    out = e.np.zeros((h, w))
    res = o.interpolate(b, out=out)
    e.ensure('written in the given array', res is out)
    e.eq_fn('second use', out, (h, w), lambda y, x: e.bilinear(b)(*cc(y, x)))
    e.eq('input not modified', v, was)


@harness('C21', funcs=IN)
def identity(e):
    H, W = e.dim('H', 2), e.dim('W', 2)
    o = Interp2D((H, W), (H, W))
    v = e.array('v', (H, W))
    e.eq('same grid: values unchanged', o.interpolate(v), v)
    out = e.np.zeros((H, W))
    o.interpolate(v, out=out)
    e.eq('same grid: copied in the output', out, v)
    k = e.choice('which', ['rows', 'columns'])
    bad = e.array('bad', (H + 1, W) if k == 'rows' else (H, W + 1))
    e.raises('wrong shape', ValueError, lambda: o.interpolate(bad))
    e.raises('coordinates of another shape', ValueError,
             lambda: Interp2D((H, W), (H, W), yy=e.np.zeros((H + 1, W)), xx=e.np.zeros((H, W))))


MASKS = [np.array(m) for m in (
    [[0, 0, 0, 0], [0, 1, 1, 0], [0, 1, 1, 0], [0, 0, 0, 0]],
    [[1, 1, 0], [1, 1, 0], [1, 1, 0], [0, 0, 0]],
    [[0, 1, 0, 1, 1], [1, 1, 0, 1, 1]],
    [[0, 0, 1], [0, 0, 0], [1, 1, 1]],
    [[1, 1], [1, 1]])]


def extended(m, p):
    """Reference: {pixel: value}, None where only constants are settled."""
    H, W = m.shape
    ins = lambda y, x: 0 <= y < H and 0 <= x < W and m[y, x] > 0
    r = {}
    for y in range(H):
        for x in range(W):
            if m[y, x]:
                r[y, x] = p[y, x]
                continue
            two, one, first = [], [], None
            for dy, dx in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                if ins(y + dy, x + dx):
                    if ins(y + 2 * dy, x + 2 * dx):
                        two.append(2 * p[y + dy, x + dx] - p[y + 2 * dy, x + 2 * dx])
                        first = first or 'two'
                    else:
                        one.append(p[y + dy, x + dx])
                        first = first or 'one'
            if two and first == 'two':
                r[y, x] = sum(two, 0) / len(two)
            elif not two:
                r[y, x] = one[0] if one else 0
            else:
                r[y, x] = None
    return r


@harness('C21', funcs=EX, mode='bounded')
def edges(e):
    """Phase is kept inside the pupil, extended by one pixel linearly, zero further out."""
    m = e.choice('mask', MASKS)
    ny, nx = m.shape
    ef = ElectricField(nx, ny, 0.1)
    ef.A[:] = m
    p = e.array('p', (ny, nx))
    ef.phaseInNm[:] = p
    s0 = e.real('S0', 0, 9)
    ef.S0 = s0
    o = EFInterpolator(ef, ef.size, force_extrapolation=True)
    o.interpolate()
    out = o.interpolated_ef()
    for (y, x), v in extended(m, p).items():
        if v is not None:
            e.eq('phase inside, one pixel around, and further out', out.phaseInNm[y, x], v, tol=1e-5)
    e.eq('amplitude', out.A, m * 1.0)
    e.eq('flux', out.S0, s0)
    e.eq('input phase not modified', ef.phaseInNm, p)
    # a second field of the same pupil
    q = e.array('q', (ny, nx))
    ef.phaseInNm[:] = q
    o.interpolate()
    for (y, x), v in extended(m, q).items():
        if v is not None:
            e.eq('second field', out.phaseInNm[y, x], v, tol=1e-5)
    c = e.real('c')
    ef.phaseInNm[:] = c
    o.interpolate()
    for (y, x), v in extended(m, np.ones((ny, nx))).items():
        if v is None or v:
            e.eq('constant phase is extended as a constant', out.phaseInNm[y, x], c, tol=1e-5)


@harness('C21', funcs=EX + IN, mode='bounded')
def field_interpolation(e):
    """Rotation is opposite, x shift acts on rows, y shift on columns; binary pupils stay binary."""
    m = e.choice('mask', [MASKS[0], MASKS[1], MASKS[4]])
    ny, nx = m.shape
    k = 2
    ef = ElectricField(nx, ny, 0.1)
    ef.A[:] = m
    p = e.array('p', (ny, nx))
    ef.phaseInNm[:] = p
    how = e.choice('how', ['plain', 'magnified', 'shifted'] + ([] if e.symbolic else ['rotated', 'all']))
    rot = 10.0 if how in ('rotated', 'all') else 0
    mag = 2.0 if how in ('magnified', 'all') else 1.0
    sx, sy = (1.5, -0.5) if how in ('shifted', 'all') else (0, 0)
    o = EFInterpolator(ef, (ny * k, nx * k), rotAnglePhInDeg=rot, xShiftPhInPixel=sx, yShiftPhInPixel=sy, magnification=mag)
    up = e.choice('update', ['no', 'x', 'y', 'magnification'] + ([] if e.symbolic else ['rotation']))
    if up == 'x':
        sx = 0.75
        o.update_parameters(xShiftPhInPixel=sx)
    elif up == 'y':
        sy = 0.75
        o.update_parameters(yShiftPhInPixel=sy)
    elif up == 'rotation':
        rot = 25.0
        o.update_parameters(rotAnglePhInDeg=rot)
    elif up == 'magnification':
        mag = 1.25
        o.update_parameters(magnification=mag)
    o.interpolate()
    out = o.interpolated_ef()
    e.eq('sampling', (out.pixel_pitch, out.size), (0.1 / k, (ny * k, nx * k)))
    ext = extended(m, p)
    E = e.np.zeros((ny, nx))
    for (y, x), v in ext.items():
        E[y, x] = v
    f = coords(e, ny, nx, ny * k, nx * k, -rot if rot else 0, sx, sy, mag, None)
    A = e.np.zeros((ny, nx))
    A[:] = m
    near = lambda y, x: False
    for y, x in ((0, 0), (1, 0), (0, 1), (2, 1), (3, 2), (ny * k - 1, nx * k - 1)):
        c = f(y, x)
        e.eq('phase', out.phaseInNm[y, x], e.bilinear(E)(*c), tol=1e-4)
        a = e.bilinear(A)(*c)
        if e.symbolic or abs(a - 0.5) > 1e-3:
            e.eq('amplitude', out.A[y, x], e.ite(a > 0.5, 1, 0))
