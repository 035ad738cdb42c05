"""C26: pupils, influence functions and modal bases are what their parameters say."""
import math
import numpy as np
from pvc.api import harness
from contracts.common import raises_iff
from specula.lib.compute_petal_ifunc import compute_petal_ifunc
from specula.lib.compute_zern_ifunc import compute_zern_ifunc
from specula.lib.compute_zonal_ifunc import (_compute_weights_linear, _compute_weights_standard, apply_slaving, compute_zonal_ifunc)
from specula.lib.make_mask import make_mask
from specula.lib.make_xy import make_xy
from specula.lib.mask import AnnularMask, BaseMask, CircularMask
from specula.lib.mmse_reconstructor import compute_mmse_reconstructor
from specula.lib.modal_base_generator import compute_ifs_covmat, generate_distance_grid, generate_phase_spectrum, make_modal_base_from_ifs_fft
from specula.lib.platescale_coeff import platescale_coeff
from specula.lib.utils import make_orto_modes, make_subpixel_shift_phase, unravel_index_2d
from specula.lib.zernike_generator import ZernikeGenerator

ZG = 'lib/zernike_generator.py:ZernikeGenerator.'
ZO = 'lib/compute_zonal_ifunc.py:'
MB = 'lib/modal_base_generator.py:'


@harness('C26', funcs=['lib/make_xy.py:make_xy'], trials=100)
def coordinate_grid(e):
    """The coordinates are those of the pixel centres (or corners when zero is sampled) of a square of half side ratio, x along columns and y along rows."""
    n, ratio = e.dim('n', 2, 20), e.real('ratio', 0.1, 10)
    zero, quarter, vector, fft = e.choice('case', [(z, q, v, f) for z in (False, True) for q in (False, True) for v in (False, True) for f in (False, True)])
    got = make_xy(n, ratio, e.xp, zero_sampled=zero, quarter=quarter, vector=vector, fft=fft)
    even = n % 2 == 0

    def coord(j):
        shift = 0 if quarter else (n // 2 if even else (n - 1) // 2)
        k = (j + shift) % n - shift if fft and not quarter else j - shift
        return (k if even and zero else (k + 0.5 if even else k)) / (n / 2.0) * ratio
    size = (n // 2 if even else (n + 1) // 2) if quarter else n
    if vector:
        e.ensure('size', got.shape == (size,))
        e.eq_fn('coordinate', got, size, lambda j: coord(j))
        return
    x, y = got
    e.eq_fn('x along columns', x, (size, size), lambda r, c: coord(c))
    e.eq_fn('y along rows', y, (size, size), lambda r, c: coord(r))


@harness('C26', funcs=['lib/make_xy.py:make_xy', 'lib/make_xy.py:_xy_to_polar'], mode='test', trials=60)
def polar_grid(e):
    """The polar grid is the same grid in polar coordinates; a grid of one point is refused."""
    n = e.dim('n', 2, 20)
    x, y = make_xy(n, 1.0, np)
    r, a = make_xy(n, 1.0, np, polar=True)
    e.eq('x of the polar point', r * np.cos(a), x, tol=1e-9)
    e.eq('y of the polar point', r * np.sin(a), y, tol=1e-9)
    e.raises('one point', ValueError, make_xy, 1, 1.0, np)


@harness('C26', funcs=['lib/make_mask.py:make_mask'], trials=100)
def pupil_mask(e):
    """A pixel is lit when its centre lies in the disc (or square) of the given centre and diameter and outside the obstruction; inverse swaps."""
    n = e.dim('n', 2, 24)
    xc, yc, d, ob = e.real('xc', -0.5, 0.5), e.real('yc', -0.5, 0.5), e.real('d', 0.2, 1.5), e.real('ob', 0, 0.9)
    square, inverse = e.choice('case', [(False, False), (False, True), (True, False), (True, True)])
    m = make_mask(n, obsratio=ob, diaratio=d, xc=xc, yc=yc, square=square, inverse=inverse, xp=e.xp)
    idx = e.indices('p', 1, (n, n), coords=2)
    r, c = idx[0][0], idx[1][0]
    x, y = (c - (n - 1) / 2.0) / (n / 2.0) - xc, (r - (n - 1) / 2.0) / (n / 2.0) - yc
    if square:
        ax, ay = e.ite(x >= 0, x, -x), e.ite(y >= 0, y, -y)
        lit = e.And(ax <= d, ay <= d, e.Or(ax >= d * ob, ay >= d * ob))
    else:
        r2 = x ** 2 + y ** 2
        lit = e.And(r2 < d ** 2, r2 >= (d * ob) ** 2)
    e.eq('lit pixels', m[r, c], e.ite(lit, 0 if inverse else 1, 1 if inverse else 0))


@harness('C26', funcs=['lib/make_mask.py:make_mask', 'lib/make_mask.py:closest'], mode='test', trials=80)
def pupil_mask_options(e):
    """centeronpixel moves the centre to the nearest corner along both axes; spider arms only remove pixels, near the arms, and all of them; indices are the lit pixels."""
    n = e.choice('n', [12, 16, 21, 32])
    ob = e.choice('ob', [0.0, 0.3])
    i, j = e.int('i', 3, n - 4), e.int('j', 3, n - 4)
    i, j = int(i), int(j)
    edge = lambda k: 2.0 * k / n - 1          # the corner below pixel k
    xc, yc = edge(i) + e.real('ox', -0.4, 0.4) / n, edge(j) + e.real('oy', -0.4, 0.4) / n
    d = e.real('d', 0.3, 0.9)
    got = make_mask(n, ob, d, xc, yc, centeronpixel=True)
    e.eq('centre at the nearest corner', got, make_mask(n, ob, d, edge(i), edge(j)))
    petals, offset, width = e.choice('petals', [1, 3, 4, 6]), e.real('offset', 0, 90), e.choice('width', [1, 2, 3])
    base = make_mask(n, ob, 1.0)
    m, idx = make_mask(n, ob, 1.0, get_idx=True, spider=True, spider_width=width, n_petals=petals, angle_offset=offset)
    lit = np.zeros((n, n))
    lit[idx] = 1
    e.eq('indices of the lit pixels', lit, m)
    e.ensure('arms only remove', np.all(m <= base))
    y, x = np.mgrid[:n, :n] + 0.5 - n / 2
    dist, arm = np.full((n, n), np.inf), np.full((n, n), np.inf)
    for k in range(petals):
        a = 2 * np.pi * k / petals + np.radians(offset)
        along, across = x * np.cos(a) + y * np.sin(a), np.abs(-x * np.sin(a) + y * np.cos(a))
        arm = np.where(along >= 0, np.minimum(arm, across), arm)
        dist = np.where(along >= 0, np.minimum(dist, across), np.minimum(dist, np.hypot(x, y)))
    e.ensure('arms are dark', np.all(m[arm < width / 2 * 0.7] == 0))
    e.eq('the rest is as before', m[dist > width * 0.6 + 1.3], base[dist > width * 0.6 + 1.3])
    inv = make_mask(n, ob, 1.0, spider=True, spider_width=width, n_petals=petals, angle_offset=offset, inverse=True)
    e.eq('inverse', inv, 1 - m)


@harness('C26', funcs=['lib/mask.py:CircularMask._computeMask', 'lib/mask.py:AnnularMask._computeMask', 'lib/mask.py:CircularMask.__init__',
                       'lib/mask.py:CircularMask.asTransmissionValue', 'lib/mask.py:CircularMask.in_mask_indices'], mode='test', trials=60)
def circular_masks(e):
    """Masks are false inside the disc (or annulus) of the given radius and centre, by default the largest centred one."""
    h, w = e.dim('h', 3, 15), e.dim('w', 3, 15)
    r, cy, cx = e.real('r', 1, 8), e.real('cy', 2, 8), e.real('cx', 2, 8)
    y, x = np.mgrid[:h, :w] + 0.5
    m = CircularMask((h, w), r, (cy, cx))
    e.eq('disc', m.mask(), (y - cy) ** 2 + (x - cx) ** 2 > r ** 2)
    e.eq('transmission', m.asTransmissionValue(), (y - cy) ** 2 + (x - cx) ** 2 <= r ** 2)
    e.eq('indices', m.in_mask_indices(), np.flatnonzero((y - cy) ** 2 + (x - cx) ** 2 <= r ** 2))
    dflt = CircularMask((h, w))
    e.eq('default disc', dflt.mask(), (y - h / 2) ** 2 + (x - w / 2) ** 2 > (min(h, w) / 2) ** 2)
    a = AnnularMask((h, w), r, (cy, cx), inRadius=r / 2)
    d2 = (y - cy) ** 2 + (x - cx) ** 2
    e.eq('annulus', a.mask(), ~((d2 <= r ** 2) & (d2 > (r / 2) ** 2)))
    other = CircularMask((h, w), r / 2, (cy, cx))
    e.ensure('equal masks', CircularMask((h, w), r, (cy, cx)) == m and (other == m) == np.array_equal(other.mask(), m.mask()))


@harness('C26', funcs=['lib/mask.py:AnnularMask._computeMask', 'lib/mask.py:BaseMask.as_masked_array'], mode='test', trials=20)
def annular_mask_defaults(e):
    """An annulus without centre is centred in its frame, and a mask gives its masked array."""
    h, w = e.dim('h', 3, 15), e.dim('w', 3, 15)
    y, x = np.mgrid[:h, :w] + 0.5
    d2, r = (y - h / 2) ** 2 + (x - w / 2) ** 2, min(h, w) / 2
    a = AnnularMask((h, w), inRadius=r / 2)
    e.eq('annulus', a.mask(), ~((d2 <= r ** 2) & (d2 > (r / 2) ** 2)))
    ma = CircularMask((h, w)).as_masked_array()
    e.eq('masked array', ma.mask, CircularMask((h, w)).mask())
    e.eq('values', ma.data, np.ones((h, w)))


def noll(j):
    n = 0
    while (n + 1) * (n + 2) // 2 < j:
        n += 1
    k = j - n * (n + 1) // 2                      # 1-based position in the order
    m = 2 * (k // 2) if n % 2 == 0 else 2 * ((k - 1) // 2) + 1
    return n, m


def zernike(j, x, y):
    n, m = noll(j)
    r, t = np.hypot(x, y), np.arctan2(y, x)
    R = sum((-1) ** s * math.factorial(n - s) / (math.factorial(s) * math.factorial((n + m) // 2 - s) * math.factorial((n - m) // 2 - s)) * r ** (n - 2 * s)
            for s in range((n - m) // 2 + 1))
    if m == 0:
        return np.sqrt(n + 1) * R
    return np.sqrt(2 * (n + 1)) * R * (np.cos(m * t) if j % 2 == 0 else np.sin(m * t))


@harness('C26', funcs=[ZG + f for f in ('getZernike', '_polar', '_rnm_jacobi', 'degree', 'radial_order', 'cartesian_coordinates', '_polar_array', '__init__')], mode='test', trials=60)
def zernikes(e):
    """Mode j is Noll's polynomial at the pixel centres over the disc, and zero outside; the disc may be any circular mask."""
    dim = e.choice('dim', [6, 9, 12, 9.5])
    j = int(e.int('j', 1, 45))
    zg = ZernikeGenerator(dim, xp=np, dtype=np.float64)
    size = math.ceil(dim)
    c = (np.arange(size) + 0.5 - size / 2) / (dim / 2)
    x, y = np.meshgrid(c, c)
    inside = x ** 2 + y ** 2 <= 1
    e.eq('polynomial', zg.getZernike(j), np.where(inside, zernike(j, x, y), 0), tol=1e-9)
    e.eq('same by index', zg[j], zg.getZernike(j))
    X, Y = zg.cartesian_coordinates()
    e.eq('X', X, x)
    e.eq('Y', Y, y)
    e.ensure('degree', tuple(int(v) for v in ZernikeGenerator.degree(j)) == noll(j))
    h, w, r, cy, cx = 14, 11, e.real('r', 2, 5), e.real('cy', 5, 8), e.real('cx', 4, 7)
    other = ZernikeGenerator(CircularMask((h, w), r, np.array([cy, cx])), xp=np, dtype=np.float64)
    yy, xx = np.mgrid[:h, :w] + 0.5
    xx, yy = (xx - cx) / r, (yy - cy) / r
    e.eq('polynomial on a mask', other.getZernike(j), np.where(xx ** 2 + yy ** 2 <= 1, zernike(j, xx, yy), 0), tol=1e-9)
    for bad in (0, -3, 1.5):
        e.raises('index', ValueError, zg.getZernike, bad)
    e.raises('pupil', ValueError, ZernikeGenerator, 'x', np, np.float64)


@harness('C26', funcs=[ZG + f for f in ('getDerivativeX', 'getDerivativeY', '_computeDerivativeX', '_computeDerivativeY', '_computeDerivativeCoeffX', '_computeDerivativeCoeffY',
                                        '_derivativeCoeffX', '_derivativeCoeffY')], mode='test', trials=40)
def zernike_derivatives(e):
    """The derivatives are those of the polynomial along x and y in units of the radius, in whatever order they are asked."""
    zg = ZernikeGenerator(10, xp=np, dtype=np.float64)
    x, y = zg.cartesian_coordinates()
    inside = x ** 2 + y ** 2 <= 1
    h = 1e-5
    for k in range(3):
        j = int(e.int(f'j{k}', 1, 28))
        dx = (zernike(j, x + h, y) - zernike(j, x - h, y)) / (2 * h)
        dy = (zernike(j, x, y + h) - zernike(j, x, y - h)) / (2 * h)
        e.ensure('along x', np.abs(zg.getDerivativeX(j) - np.where(inside, dx, 0)).max() < 1e-5)
        e.ensure('along y', np.abs(zg.getDerivativeY(j) - np.where(inside, dy, 0)).max() < 1e-5)


def given_mask(e, n, ob=0.3):
    return make_mask(n, ob, 1.0).astype(float)


@harness('C26', funcs=['lib/compute_zern_ifunc.py:compute_zern_ifunc', 'lib/utils.py:make_orto_modes'], mode='test', trials=25)
def zernike_base(e):
    """Each mode has zero mean and unit standard deviation over the mask, is made of Zernikes up to its own only, and is orthogonal to earlier ones (before the mean is removed)."""
    n, nz, start = e.choice('n', [16, 20]), int(e.int('nz', 3, 12)), e.choice('start', [0, 2])
    own = e.flag('own mask')
    ob, dia = e.choice('ob', [0.0, 0.3]), e.choice('dia', [1.0, 0.8])
    mask = make_mask(n, ob, dia)
    if own:
        modes, got = compute_zern_ifunc(n, nz + start, np, np.float64, start_mode=start, mask=mask)
    else:
        modes, got = compute_zern_ifunc(n, nz + start, np, np.float64, obsratio=ob, diaratio=dia, start_mode=start)
    e.eq('mask', got, mask)
    e.ensure('shape', modes.shape == (nz, int(mask.sum())))
    e.eq('zero mean', modes.mean(axis=1), np.zeros(nz), tol=1e-9)
    e.eq('unit deviation', modes.std(axis=1), np.ones(nz), tol=1e-9)
    c = (np.arange(n) + 0.5 - n / 2) / (n / 2)
    x, y = np.meshgrid(c, c)
    on = mask > 0
    Z = np.array([np.where(x ** 2 + y ** 2 <= 1, zernike(j, x, y), 0)[on] for j in range(2 + start, nz + start + 2)])
    Z1 = np.vstack([np.ones(Z.shape[1]), Z])
    for k in range(nz):
        basis = Z1[:k + 2]
        coef = np.linalg.lstsq(basis.T, modes[k], rcond=None)[0]
        e.eq('within the span', basis.T @ coef, modes[k], tol=1e-7)
        e.ensure('own Zernike is there', abs(coef[-1]) > 1e-6)
    Q, _ = np.linalg.qr(Z.T)
    e.eq('same up to sign', np.abs(np.sum((Q - Q.mean(axis=0)) / Q.std(axis=0) * modes.T, axis=0)) / Q.shape[0], np.ones(nz), tol=1e-6)


@harness('C26', funcs=['lib/utils.py:make_orto_modes'], mode='test', trials=40)
def orthonormal_modes(e):
    """The result is orthonormal along the long axis and spans the same space; an array that is not two-dimensional is refused."""
    k, n = e.dim('k', 1, 6), e.dim('n', 1, 12)
    a = np.array(e.array('a', (k, n)))
    q = make_orto_modes(a, np, np.float64)
    long = q.T if n > k else q
    e.ensure('shape', q.shape == (k, n))
    e.eq('orthonormal', long.T @ long, np.eye(min(k, n)), tol=1e-9)
    src = a.T if n > k else a
    e.eq('same space', long @ (long.T @ src), src, tol=1e-8)
    e.raises('one axis', ValueError, make_orto_modes, np.zeros(4), np, np.float64)


@harness('C26', funcs=['lib/compute_petal_ifunc.py:compute_petal_ifunc'], mode='test', trials=50)
def petals(e):
    """The petals cover every lit pixel once, each being the sector of its angle; tilts have zero mean and unit deviation on their petal; coordinates are centroids."""
    n, k = e.choice('n', [12, 16, 20]), e.choice('k', [2, 3, 4, 6])
    offset, ob, tilts = e.real('offset', 0, 50), e.choice('ob', [0.0, 0.3]), e.flag('tilts')
    case = e.choice('case', ['plain', 'spider', 'given'])
    if case == 'given':
        m = given_mask(e, n, ob)
        m[:, : n // 4] = 0
        ifs, mask, coord = compute_petal_ifunc(n, k, np, np.float64, angle_offset=offset, mask=m, add_tilts=tilts)
        e.eq('mask', mask, m)
    elif case == 'spider':
        ifs, mask, coord = compute_petal_ifunc(n, k, np, np.float64, angle_offset=offset, obsratio=ob, spider=True, spider_width=2, add_tilts=tilts)
        e.eq('mask', mask, make_mask(n, ob, 1.0, spider=True, spider_width=2, n_petals=k, angle_offset=offset))
    else:
        ifs, mask, coord = compute_petal_ifunc(n, k, np, np.float64, angle_offset=offset, obsratio=ob, add_tilts=tilts)
        e.eq('mask', mask, make_mask(n, ob, 1.0))
    on = np.asarray(mask) > 0
    e.ensure('shape', ifs.shape == ((3 if tilts else 1) * k, int(on.sum())))
    e.eq('a partition', ifs[:k].sum(axis=0), np.ones(int(on.sum())))
    y, x = np.mgrid[:n, :n] - n / 2
    ang = (np.arctan2(y, x) + np.radians(offset)) % (2 * np.pi)
    for i in range(k):
        dist = (ang - i * 2 * np.pi / k + 1e-9)
        clear = np.minimum(np.abs(np.sin((ang - i * 2 * np.pi / k) / 2)), np.abs(np.sin((ang - (i + 1) * 2 * np.pi / k) / 2))) > 1e-6
        sector = (ang >= i * 2 * np.pi / k) & (ang < (i + 1) * 2 * np.pi / k)
        e.eq('sector', ifs[i][clear[on]], sector[on][clear[on]].astype(float))
        petal = np.zeros((n, n))
        petal[on] = ifs[i]
        if petal.any():
            e.eq('x centroid', coord[0, i], np.mean(np.where(petal)[1]))
            e.eq('y centroid', coord[1, i], np.mean(np.where(petal)[0]))
            if tilts:
                for row, g in ((k + i, x), (2 * k + i, y)):
                    v, w = ifs[row][ifs[i] > 0], g[petal > 0]
                    e.eq('nothing outside', ifs[row][ifs[i] == 0], np.zeros(int((ifs[i] == 0).sum())))
                    e.eq('a tilt', v, (w - w.mean()) / (w.std() or 1.0), tol=1e-9)


def layout(geom, n_act, dim, offset=0):
    if geom == 'circular':
        rings = (n_act + 2) // 2 if n_act % 2 == 0 else (n_act + 1) // 2
        step = (dim - 1) / (2 * rings - 2)
        pts = [(0.0, 0.0)]
        for i in range(1, rings):
            for j in range(6 * i):
                a = math.radians(360 / (6 * i) * j + offset)
                pts.append((i * step * math.cos(a), i * step * math.sin(a)))
        c = (dim - 1) / 2
        return np.array([[p[0] + c for p in pts], [p[1] + c for p in pts]]), step
    g = np.linspace(0, dim - 1, n_act)
    pts = [(g[c], g[r]) for r in range(n_act) for c in range(n_act)]
    if geom == 'alpao':
        c, rmax = (dim - 1) / 2, (dim - 1) * (9 / 8 - n_act / (24 * 16)) / 2
        pts = [p for p in pts if math.hypot(p[0] - c, p[1] - c) <= rmax]
    return np.array(pts).T, (dim - 1) / (n_act - 1)


@harness('C26', funcs=[ZO + 'compute_zonal_ifunc'], mode='test', trials=12, heavy=2)
def zonal_base(e):
    """Actuators lie on the chosen layout; each influence function is one at its own actuator and zero at the others; coupling adds the neighbours with their coefficients."""
    geom = e.choice('geom', ['square', 'circular', 'alpao'])
    n_act = e.choice('n_act', [3, 5])
    dim = 4 * (n_act - 1) + 1
    couple = e.flag('couple')
    co = [0.31, 0.05]
    kw = dict(circ_geom=True) if geom == 'circular' and e.flag('by flag') else dict(geom=geom) if geom != 'square' else {}
    offset = e.choice('offset', [0, 30]) if geom == 'circular' else 0
    ifs, mask, coord, slaves = compute_zonal_ifunc(dim, n_act, np, np.float64, do_mech_coupling=couple, coupling_coeffs=co, angle_offset=offset,
                                                   mask=np.ones((dim, dim)), **kw)
    want, step = layout(geom, n_act, dim, offset)
    e.eq('actuators', coord, want, tol=1e-9)
    k = want.shape[1]
    e.ensure('shape', ifs.shape == (k, dim * dim))
    e.eq('no slaves', slaves, np.zeros((k, k)))
    d = np.sqrt((want[0][:, None] - want[0]) ** 2 + (want[1][:, None] - want[1]) ** 2)
    near = np.abs(d - step) > 1e-6
    want_if = np.eye(k)
    if couple:
        want_if = want_if + co[0] * ((d > 0) & (d <= step)) + co[1] * ((d > step) & (d <= 2 * step))
        if geom == 'circular':                                # distances equal to a step up to rounding
            return
    cube = ifs.reshape(k, dim, dim)
    for b in range(k):
        r, c = want[1, b], want[0, b]
        if abs(r - round(r)) < 1e-9 and abs(c - round(c)) < 1e-9:
            e.eq('value at the actuators', cube[:, int(round(r)), int(round(c))], want_if[:, b], tol=1e-5)
    e.raises('two layouts', ValueError, compute_zonal_ifunc, 5, 3, np, circ_geom=True, geom='square')
    e.raises('unknown layout', ValueError, compute_zonal_ifunc, 5, 3, np, geom='none')


@harness('C26', funcs=[ZO + 'apply_slaving', ZO + '_compute_weights_standard', ZO + '_compute_weights_linear'], mode='test', trials=40)
def slaving(e):
    """Actuators too weak on the pupil are slaved: each master adds its slaves by their weights, a shared slave is split equally, and linear slaving prolongs planes exactly."""
    g = int(e.int('g', 4, 6))
    linear = e.flag('linear')
    dim, step = 12, 2.0
    x, y = np.meshgrid(np.arange(g) * step, np.arange(g) * step)
    coord = np.array([x.ravel(), y.ravel()])
    k = g * g
    cube = np.abs(np.array(e.array('cube', (k, dim, dim), lo=0.1, hi=1)))
    mask = np.zeros((dim, dim))
    mask[2:10, 2:10] = 1
    idx = np.where(mask)
    weak = np.zeros(k, dtype=bool)
    weak[np.array([i for i in range(k) if i // g == 0 or i % g == g - 1])] = True
    for i in range(k):
        cube[i][0, 0] = 10
        if weak[i]:
            cube[i][idx] *= 0.01
    thr = 0.005
    out, c, nm, mat = apply_slaving(cube.copy(), coord, idx, step, slaving_thr=thr, linear=linear, search_radius_steps=2.5, xp=np, dtype=np.float64)
    top = np.array([cube[i][idx].max() for i in range(k)])
    weak = top < thr * cube.max(axis=(1, 2))
    ms, sl = np.flatnonzero(~weak), np.flatnonzero(weak)
    e.ensure('masters', nm == len(ms) and out.shape[0] == len(ms))
    e.eq('their coordinates', c, coord[:, ms])
    W = mat[np.ix_(ms, sl)]
    rest = mat.copy()
    rest[np.ix_(ms, sl)] = 0
    e.eq('no other weights', rest, np.zeros((k, k)))
    e.eq('masters add their slaves', out, cube[ms] + np.tensordot(W, cube[sl], axes=(1, 0)))
    if linear:
        a = [e.real(f'a{i}', -1, 1) for i in range(3)]
        plane = a[0] * coord[0] + a[1] * coord[1] + a[2]
        e.eq('planes are prolonged', W.T @ plane[ms], plane[sl], tol=1e-7)
    else:
        d = np.sqrt((coord[0][ms][:, None] - coord[0][sl]) ** 2 + (coord[1][ms][:, None] - coord[1][sl]) ** 2)
        close = d <= 1.1 * step
        e.eq('shared equally by neighbours', W, close / np.maximum(close.sum(axis=0), 1))
    same = apply_slaving(cube[ms].copy(), coord[:, ms], idx, step, slaving_thr=0.0, linear=linear, xp=np, dtype=np.float64)
    e.eq('nothing to slave', same[0], cube[ms])


@harness('C26', funcs=[ZO + '_compute_weights_linear'], mode='test', trials=40)
def edge_constraint(e):
    """With an edge weight, a slave follows the plane fitted to its masters and to a virtual zero one step outwards."""
    k, w = 9, e.real('w', 0.1, 2)
    x, y = np.meshgrid(np.arange(3.0), np.arange(3.0))
    coord = np.array([x.ravel(), y.ravel()])
    sl, ms = np.array([8, 2]), np.array([0, 1, 3, 4, 5, 6, 7])
    W = _compute_weights_linear(coord, ms, sl, 1.0, w, 10.0, np, np.float64)
    v = np.array(e.array('v', len(ms)))
    for j, s in enumerate(sl):
        dx, dy = coord[0, s] - 1, coord[1, s] - 1
        d = math.hypot(dx, dy)
        A = np.vstack([np.column_stack([coord[0, ms], coord[1, ms], np.ones(len(ms))]), w * np.array([[coord[0, s] + dx / d, coord[1, s] + dy / d, 1]])])
        p = np.linalg.lstsq(A, np.append(v, 0), rcond=None)[0]
        e.eq('value of the slave', W[:, j] @ v, p @ [coord[0, s], coord[1, s], 1], tol=1e-7)
    few = _compute_weights_linear(coord, ms, sl, 1.0, 0.0, 0.1, np, np.float64)
    e.ensure('three masters at least', np.all((np.abs(few) > 1e-12).sum(axis=0) <= 3))
    e.eq('their weights sum to one', few.sum(axis=0), np.ones(2), tol=1e-6)


@harness('C26', funcs=['lib/mmse_reconstructor.py:compute_mmse_reconstructor'], mode='test', trials=60)
def mmse(e):
    """The reconstructor is (A' N^-1 A + C^-1)^-1 A' N^-1, whichever way the covariances are given; without noise N is the identity; sizes must agree."""
    ns, nm = 2 * e.dim('ns', 2, 4), e.dim('nm', 2, 4)
    A = np.array(e.array('A', (ns, nm)))
    L = np.array(e.array('L', (nm, nm)))
    M = np.array(e.array('M', (ns, ns)))
    C = L @ L.T + np.eye(nm) if e.flag('full C') else np.diag(np.abs(L[0]) + 0.5)
    N = M @ M.T + np.eye(ns) if e.flag('full N') else np.diag(np.abs(M[0]) + 0.5)
    inv = np.linalg.inv

    def want(Ni):
        return inv(A.T @ Ni @ A + inv(C)) @ A.T @ Ni
    e.eq('full', compute_mmse_reconstructor(A, C, np, np.float64, c_noise=N), want(inv(N)), tol=1e-7)
    e.eq('inverses given', compute_mmse_reconstructor(A, inv(C), np, np.float64, c_noise=inv(N), c_inverse=True), want(inv(N)), tol=1e-7)
    v = [abs(M[0, 0]) + 0.5, abs(M[0, 1]) + 0.5]
    Nv = np.diag(np.repeat(v, ns // 2))
    e.eq('variances', compute_mmse_reconstructor(A, C, np, np.float64, noise_variance=v), want(inv(Nv)), tol=1e-7)
    e.eq('covariance wins over variances', compute_mmse_reconstructor(A, C, np, np.float64, noise_variance=v, c_noise=N), want(inv(N)), tol=1e-7)
    e.eq('no noise', compute_mmse_reconstructor(A, C, np, np.float64), want(np.eye(ns)), tol=1e-7)
    e.eq('no noise, inverse given', compute_mmse_reconstructor(A, inv(C), np, np.float64, c_inverse=True), want(np.eye(ns)), tol=1e-7)
    e.raises('modes', ValueError, compute_mmse_reconstructor, A, np.eye(nm + 1), np, np.float64)
    e.raises('slopes', ValueError, compute_mmse_reconstructor, A, C, np, np.float64, c_noise=np.eye(ns + 1))


@harness('C26', funcs=['lib/utils.py:unravel_index_2d'], trials=60)
def linear_indices(e):
    """A linear index gives back the row and the column it came from; shapes that are not two-dimensional are refused."""
    h, w, k = e.dim('h', 1, 9), e.dim('w', 1, 9), e.dim('k', 1, 5)
    idx = e.indices('p', k, h * w)
    r, c = unravel_index_2d(idx, (h, w), e.xp)
    i = e.indices('i', 1, k)[0]
    e.eq('linear index', r[i] * w + c[i], idx[i])
    e.ensure('inside', e.And(0 <= c[i], c[i] < w, 0 <= r[i], r[i] < h))
    e.raises('three axes', ValueError, unravel_index_2d, idx, (2, 2, 2), e.xp)


@harness('C26', funcs=['lib/utils.py:make_subpixel_shift_phase'], mode='test', trials=40)
def shift_phase(e):
    """Multiplying a transform by the ramp moves the image by the given numbers of pixels along x and y."""
    n, sx, sy = e.choice('n', [6, 7, 8]), int(e.int('sx', -3, 3)), int(e.int('sy', -3, 3))
    a = np.array(e.array('a', (n, n)))
    ramp = make_subpixel_shift_phase(n if e.flag('int') else (n, n), np, np.complex128, shift_x=sx, shift_y=sy)
    e.eq('moved', np.fft.ifft2(np.fft.fft2(a) * ramp).real, np.roll(a, (sy, sx), axis=(0, 1)), tol=1e-9)
    m = 2 * e.choice('m', [3, 4])
    f = (np.arange(m) - m // 2) / m
    hx, hy = e.real('hx', -1, 1), e.real('hy', -1, 1)
    full = make_subpixel_shift_phase(m, np, np.complex128, shift_x=hx, shift_y=hy, zero_sampled=True)
    e.eq('centred ramp', full, np.exp(-2j * np.pi * (f[None, :] * hx + f[:, None] * hy)), tol=1e-9)
    q = make_subpixel_shift_phase(m, np, np.complex128, shift_x=hx, shift_y=hy, quarter=True, zero_sampled=True)
    e.eq('one quadrant', q, full[m // 2:, m // 2:], tol=1e-9)


@harness('C26', funcs=[MB + 'compute_ifs_covmat', MB + 'generate_distance_grid', MB + 'generate_phase_spectrum'], mode='test', trials=25)
def turbulence_covariance(e):
    """The covariance of the influence functions is that of von Karman turbulence seen through them: symmetric, positive, scaling as r0^(-5/3)."""
    from scipy.special import gamma
    n, k, D, r0, L0 = e.choice('n', [4, 6]), e.dim('k', 1, 3), e.real('D', 1, 10), e.real('r0', 0.05, 0.3), e.real('L0', 5, 50)
    over = e.choice('over', [2, 3])
    mask = make_mask(n)
    on = np.where(mask)
    ifs = np.array(e.array('ifs', (k, len(on[0]))))
    got = compute_ifs_covmat(mask, D, ifs, r0, L0, oversampling=over, xp=np, dtype=np.float64)
    N = over * n
    f = np.fft.fftfreq(N, D / n)
    f2 = f[:, None] ** 2 + f[None, :] ** 2
    c = gamma(11 / 6) ** 2 / (2 * np.pi ** (11 / 3)) * (24 / 5 * gamma(6 / 5)) ** (5 / 6)
    psd = c * r0 ** (-5 / 3) * (f2 + L0 ** -2) ** (-11 / 6)
    F = []
    for a in ifs:
        s = np.zeros((N, N))
        s[on] = a
        F.append(np.fft.fft2(s) / len(on[0]))
    df2 = (1 / (over * D)) ** 2
    want = np.array([[np.sum((a * psd * np.conj(b)).real) * df2 for b in F] for a in F])
    e.eq('covariance', got, want, tol=1e-6)
    e.raises('oversampling', ValueError, compute_ifs_covmat, mask, D, ifs, r0, L0, 1)
    e.eq('spectrum', generate_phase_spectrum(np.sqrt(f2), r0, L0, np, np.float64), psd, tol=1e-9)


def gaussian_ifs(n, g, mask):
    y, x = np.mgrid[:n, :n]
    p = np.linspace(0, n - 1, g)
    on = np.where(mask)
    return np.array([np.exp(-((x - a) ** 2 + (y - b) ** 2) / (n / g) ** 2)[on] for b in p for a in p])


@harness('C26', funcs=[MB + 'make_modal_base_from_ifs_fft'], mode='test', trials=10)
def modal_base(e):
    """The modes have zero mean, are orthonormal on the pupil, uncorrelated in turbulence and sorted by their variance; Zernikes, when asked, come first and the others are orthogonal to them."""
    n, g, nz = 14, e.choice('g', [4, 5]), e.choice('nz', [0, 2, 3])
    D, r0, L0 = e.real('D', 1, 10), e.real('r0', 0.05, 0.3), e.real('L0', 10, 50)
    mask = make_mask(n, e.choice('ob', [0.0, 0.2]))
    ifs = gaussian_ifs(n, g, mask)
    npup = ifs.shape[1]
    basis, m2c, sv = make_modal_base_from_ifs_fft(mask, D, ifs, r0, L0, zern_modes=nz, oversampling=2, xp=np, dtype=np.float64)
    kl = basis[nz:]
    count = g * g - 1 - nz
    e.ensure('shapes', basis.shape == (nz + count, npup) and m2c.shape == (g * g, nz + count))
    tol = 1e-5
    e.ensure('zero mean', np.all(np.abs(kl.mean(axis=1)) < (1e-6 if nz == 0 else 0.1)))
    e.eq('orthonormal', kl @ kl.T / npup, np.eye(count), tol=tol)
    cov = compute_ifs_covmat(mask, D, kl, r0, L0, 2, xp=np, dtype=np.float64)
    var = np.diag(cov)
    e.eq('uncorrelated', (cov - np.diag(var)) / var.max(), np.zeros((count, count)), tol=tol)
    e.ensure('sorted', np.all(np.diff(var) <= 1e-6 * var.max()))
    e.eq('the variances', sv['S2'][:count] / var.max(), var / var.max(), tol=tol)
    if nz:
        zg = ZernikeGenerator(n, xp=np, dtype=np.float64)
        Z = np.array([zg.getZernike(j)[mask > 0] for j in range(2, nz + 2)])
        zb = basis[:nz]
        P = ifs.T @ np.linalg.pinv(ifs.T)
        space = P @ np.vstack([np.ones(npup), Z]).T
        proj = space @ np.linalg.lstsq(space, zb.T, rcond=None)[0]
        e.eq('Zernikes the mirror can make', proj.T, zb, tol=1e-4)
        e.eq('made by their commands', m2c[:, :nz].T @ ifs, zb, tol=1e-4)
    e.raises('size', ValueError, make_modal_base_from_ifs_fft, mask, D, ifs[:, 1:], r0, L0)
    fewer, m, _ = make_modal_base_from_ifs_fft(mask, D, ifs, r0, L0, zern_modes=nz, if_max_condition_number=5.0, xp=np, dtype=np.float64)
    s1 = sv['S1'][:count]
    e.ensure('badly seen modes are cut', fewer.shape[0] == nz + int((s1 >= s1[0] / 5.0).sum()))


@harness('C26', funcs=['lib/platescale_coeff.py:platescale_coeff'], mode='test', trials=30)
def plate_scale(e):
    """The coefficients are the amplitudes of focus and astigmatisms of the ground mirror that each mode of the upper mirror makes on the pupil."""
    class DM:
        def __init__(self, ifunc, mask, m2c=None):
            self.ifunc, self.mask, self.m2c = ifunc, mask, m2c
    pp, big = 8, 12
    ma, mb = make_mask(pp).astype(float), make_mask(big).astype(float)
    a = np.array(e.array('a', (5, int(ma.sum()))))
    b = np.array(e.array('b', (5, int(mb.sum()))))
    start = e.choice('start', [0, 2, 3])
    use = e.flag('m2c')
    m2c = np.array(e.array('m', (5, 5))) + 2 * np.eye(5)
    got = platescale_coeff([DM(a, ma, m2c if use else None), DM(b, mb, m2c if use else None)], [0, start], pp)
    if start > 2:
        e.eq('no such modes', got, np.zeros((1, 3)))
        return
    A = (m2c.T @ a if use else a)[2:5]
    i0 = 2 if start == 0 else 0
    B = (m2c.T @ b if use else b)[i0:i0 + 3]
    cut = []
    for v in B:
        f = np.zeros((big, big))
        f[mb > 0] = v
        cut.append(f[2:10, 2:10][ma > 0])
    A = A - A.mean(axis=1, keepdims=True)
    B = np.array(cut) - np.array(cut).mean(axis=1, keepdims=True)
    e.assume(np.linalg.cond(A) < 50)
    e.eq('amplitudes', got[0], np.diag(np.linalg.lstsq(A.T, B.T, rcond=None)[0]), tol=1e-7)


@harness('C26', funcs=[MB + 'make_modal_base_from_ifs_fft'], mode='test', trials=6)
def filtered_modes(e):
    """Modes given to be filtered are not in the span of the result."""
    n = 14
    mask = make_mask(n)
    ifs = gaussian_ifs(n, 4, mask)
    y, x = np.mgrid[:n, :n] - (n - 1) / 2
    filt = np.array([x[mask > 0], y[mask > 0]])
    filt = filt / filt.std(axis=1, keepdims=True) * e.real('scale', 0.5, 2)
    basis, _, _ = make_modal_base_from_ifs_fft(mask, 8.0, ifs, 0.1, 25.0, filt_modes=filt, xp=np, dtype=np.float64)
    e.ensure('two modes fewer', basis.shape[0] == 16 - 3)
    e.ensure('filtered modes are gone', np.all(np.abs(basis @ filt.T) / filt.shape[1] < 0.05))
