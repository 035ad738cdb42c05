"""C18: slope computers: the signal of every subaperture from the detector frame."""
import functools
import math
from fractions import Fraction
import numpy as np
from pvc.api import harness
from contracts.common import step, wire
from specula.data_objects.pixels import Pixels
from specula.data_objects.pupdata import PupData
from specula.data_objects.subap_data import SubapData
from specula.data_objects.slopes import Slopes
from specula.data_objects.intmat import Intmat
from specula.data_objects.recmat import Recmat
from specula.processing_objects.slopec import Slopec
from specula.processing_objects.pyr_slopec import PyrSlopec
from specula.processing_objects.double_roof_slopec import DoubleRoofSlopec
from specula.processing_objects.sh_slopec import ShSlopec
from specula.processing_objects.cur_wfs_slopec import CurWfsSlopec
from specula.processing_objects.zwfs_slopec import ZwfsSlopec
from specula.processing_objects.ciao_ciao_slopec import CiaoCiaoSlopec
from specula.data_objects.pupilstop import Pupilstop
from specula.data_objects.simul_params import SimulParams

P = 'processing_objects/pyr_slopec.py:PyrSlopec.'
D = 'processing_objects/double_roof_slopec.py:DoubleRoofSlopec.'
B = 'processing_objects/slopec.py:Slopec.'
H = 'processing_objects/sh_slopec.py:ShSlopec.'
CW = 'processing_objects/cur_wfs_slopec.py:CurWfsSlopec.'
Z = 'processing_objects/zwfs_slopec.py:ZwfsSlopec.'
BASE = [B + m for m in ('__init__', 'post_trigger')]
PYR = BASE + [P + m for m in ('__init__', 'prepare_trigger', 'trigger_code', 'post_trigger', 'nsubaps', 'nslopes')]


def frame(e, ny, nx, t=1, name='px', lo=-5, hi=50):
    p = Pixels(nx, ny)
    v = e.array(name, (ny, nx), lo=lo, hi=hi)
    p.pixels[:] = v
    p.generation_time = t
    return p, v


def places(e, name, shape, ny, nx):
    """Different pixels of a frame, as flat indexes and as (row, column)."""
    rc = e.indices(name, shape, (ny, nx), coords=2)
    return rc[0] * nx + rc[1], rc[0], rc[1]


def pos(e, v):
    return e.ite(v < 0, 0, v)


@harness('C18', funcs=PYR + [P + '_compute_pyr_slopes', D + '_compute_pyr_slopes'], trials=80)
def pyramid(e):
    ny, nx, n = e.dim('ny', 2), e.dim('nx', 2), e.dim('n')
    how = e.choice('how', ['mean', 'norm', 'total', 'intensity', 'roof'])
    idx, row, col = places(e, 'idx', (n, 4), ny, nx)
    pup = PupData(ind_pup=idx, framesize=[ny, nx])
    thr = e.real('thr', 0, 10)
    nf = e.real('nf', 0.1, 10)
    kw = {'norm': {'norm_factor': nf}, 'total': {'shlike': True}, 'intensity': {'slopes_from_intensity': True}}.get(how, {})
    o = (DoubleRoofSlopec if how == 'roof' else PyrSlopec)(pup, thr_value=thr, **kw)
    p, v = frame(e, ny, nx)
    wire(o, in_pixels=p)
    o.setup()
    step(o, 1)
    q = [e.mk((n,), lambda k, j=j: pos(e, v[row[k, j], col[k, j]] - thr)) for j in range(4)]
    a, b, c, d = q
    flux = e.mk((n,), lambda k: a[k] + b[k] + c[k] + d[k])
    tot = e.sum(n, lambda k: flux[k])
    e.eq('flux of every subaperture', o.outputs['out_flux_per_subaperture'].value, flux)
    e.eq('total counts', o.outputs['out_total_counts'].value[0], tot)
    e.eq('mean counts', o.outputs['out_subap_counts'].value[0], tot / n)
    s = o.outputs['out_slopes'].slopes
    if how == 'intensity':
        m = 4 * n
        if e.case(tot == 0):
            e.eq_fn('no light: zero', s, (m,), lambda k: 0)
        else:
            for j in range(4):
                e.eq_fn('normalized intensities of the four pupils', s[j * n:(j + 1) * n], (n,), lambda k, j=j: q[j][k] * 4 * n / tot, tol=1e-5)
        return
    if how == 'roof':
        sx, sy = (lambda k: a[k] - b[k]), (lambda k: d[k] - c[k])
    else:
        sx, sy = (lambda k: a[k] + b[k] - c[k] - d[k]), (lambda k: b[k] + c[k] - a[k] - d[k])
    x, y = o.outputs['out_slopes'].xslopes, o.outputs['out_slopes'].yslopes
    if how == 'norm':
        f = 1 / nf
    else:
        if how == 'total':
            tot = sum([e.sum(n, lambda k, w=w: w[k]) for w in q], 0)
        if e.case(tot == 0):
            e.eq_fn('no light: zero', s, (2 * n,), lambda k: 0)
            return
        f = 1 / tot if how == 'total' else n / tot
    e.eq_fn('x slopes', x, (n,), lambda k: sx(k) * f, tol=1e-4, least=1e-2)
    e.eq_fn('y slopes', y, (n,), lambda k: sy(k) * f, tol=1e-4, least=1e-2)
    e.eq('refreshed', o.outputs['out_slopes'].generation_time, 1)


SH = BASE + [H + m for m in ('__init__', 'trigger_code', 'calc_slopes_nofor', 'set_xy_weights', 'computeXYweights', 'nsubaps',
                             'nslopes', 'post_trigger')]


def sh(e, n, q, ny, nx, **kw):
    idx, row, col = places(e, 'idx', (n, q * q), ny, nx)
    sub = SubapData(idxs=idx, display_map=e.np.arange(n), nx=n, ny=1)
    return ShSlopec(sub, **kw), row, col


@harness('C18', funcs=SH, trials=60, heavy=2)
def shack_hartmann(e):
    """Centre of gravity of every subaperture, for any frame and subaperture layout."""
    centre_of_gravity(e, 2)


@harness('C18', funcs=SH, trials=60, heavy=4)
def shack_hartmann_3x3(e):
    centre_of_gravity(e, 3)


def centre_of_gravity(e, q):
    ny, nx, n = e.dim('ny', 2), e.dim('nx', 2), e.dim('n')
    thr = e.real('thr', -1, 10)
    il = e.flag('interleave')
    o, row, col = sh(e, n, q, ny, nx, thr_value=thr, interleave=il)
    p, v = frame(e, ny, nx)
    wire(o, in_pixels=p)
    o.setup()
    step(o, 1)
    th = e.ite(thr > 0, thr, 0)
    raw = lambda k, j: v[row[k, j], col[k, j]]
    g = lambda k, j: pos(e, raw(k, j) - th)
    flux = e.mk((n,), lambda k: sum([raw(k, j) for j in range(q * q)], 0))
    e.eq('flux of every subaperture', o.outputs['out_flux_per_subaperture'].value, flux)
    e.eq('total counts', o.outputs['out_total_counts'].value[0], e.sum(n, lambda k: flux[k]))
    e.eq('mean counts', o.outputs['out_subap_counts'].value[0], e.sum(n, lambda k: flux[k]) / n)
    tot = e.mk((n,), lambda k: sum([g(k, j) for j in range(q * q)], 0))
    mean = e.sum(n, lambda k: tot[k]) / n
    w = [(2 * i - q + 1) / q for i in range(q)]
    f = lambda k: e.ite(tot[k] <= mean / 1000, 0, 1 / tot[k])
    cx = lambda k: sum([g(k, j) * w[j % q] * f(k) for j in range(q * q)], 0)
    cy = lambda k: sum([g(k, j) * w[j // q] * f(k) for j in range(q * q)], 0)
    s = o.outputs['out_slopes']
    e.eq_fn('x slope: centre of gravity', s.xslopes, (n,), cx)
    e.eq_fn('y slope: centre of gravity', s.yslopes, (n,), cy)
    if il:
        e.eq_fn('interleaved: x on even entries', s.slopes[::2], (n,), cx)
    else:
        e.eq_fn('not interleaved: x first', s.slopes[:n], (n,), cx)
    e.eq('refreshed', (s.generation_time, o.outputs['out_subapdata'].generation_time), (1, 1))


class Given(Slopec):
    """A slope computer whose raw slopes are given: shows what the common part does with them."""
    def __init__(self, raw, **kw):
        self.raw = raw
        super().__init__(**kw)

    def nsubaps(self):
        return 1

    def nslopes(self):
        return self.raw.shape[0]

    def trigger_code(self):
        self.slopes.slopes[:] = self.raw


@harness('C18', funcs=BASE, trials=80)
def reference_and_filtering(e):
    """Reference slopes, slope matrix and slope filter, in this order."""
    h = e.dim('h')
    n = 2 * h
    how = e.choice('how', ['plain', 'reference', 'matrix', 'filter', 'all'])
    raw = e.array('raw', (n,))
    kw = {}
    s = raw
    il, il2 = e.flag('interleave'), e.flag('reference interleaved')
    if how in ('reference', 'all'):
        r = e.array('sn', (n,))
        kw['sn'] = Slopes(slopes=r, interleave=il2)
        # the same signal, x with x and y with y, whatever the order of the two vectors
        rx, ry = kw['sn'].xslopes, kw['sn'].yslopes
        if il:
            s = e.mk((n,), lambda k: raw[k] - e.ite(k % 2 == 0, rx[k // 2], ry[k // 2]))
        else:
            s = e.mk((n,), lambda k: raw[k] - e.ite(k < h, rx[k % h], ry[k % h]))
    if how in ('matrix', 'all'):
        m = e.array('R', (n, n))
        kw['recmat'] = Recmat(m)
        s = e.mk((n,), lambda j, s=s: e.sum(n, lambda i: s[i] * m[i, j]))
    if how in ('filter', 'all'):
        nm = e.dim('modes')
        f0, f1 = e.array('f0', (n, nm)), e.array('f1', (n, nm))
        kw['filtmat'] = [f0, f1]
        c = e.mk((nm,), lambda q, s=s: e.sum(n, lambda i: s[i] * f1[i, q]))
        s = e.mk((n,), lambda j, s=s: s[j] - e.sum(nm, lambda q: c[q] * f0[j, q]))
    o = Given(raw, interleave=il, **kw)
    p, _ = frame(e, 2, 2)
    wire(o, in_pixels=p)
    o.setup()
    step(o, 1)
    out = o.outputs['out_slopes']
    e.eq_fn('slopes', out.slopes, (n,), lambda k: s[k], tol=1e-6)
    e.eq('refreshed', tuple(o.outputs[k].generation_time for k in
                            ('out_slopes', 'out_flux_per_subaperture', 'out_total_counts', 'out_subap_counts')), (1, 1, 1, 1))


@harness('C18', funcs=[B + '__init__', P + '__init__'], trials=30)
def incomplete_settings(e):
    f = e.array('f', (2, 3))
    raw = e.array('raw', (2,))
    one = e.choice('which', ['intmat', 'recmat'])
    kw = {'filt_' + one: (Intmat(f) if one == 'intmat' else Recmat(f))}
    e.raises('half a filter', ValueError, lambda: Given(raw, **kw))
    e.raises('two filters', ValueError, lambda: Given(raw, filtmat=[f, f], **kw))
    pup = lambda: PupData(ind_pup=np.array([[0, 1, 4, 5]]), framesize=[4, 4])
    e.raises('two normalizations', ValueError, lambda: PyrSlopec(pup(), shlike=True, slopes_from_intensity=True))
    e.raises('two normalizations', ValueError, lambda: PyrSlopec(pup(), shlike=True, norm_factor=2.0))


def each(e, label, arr, want, tol):
    e.eq(label, arr.shape, (len(want),))
    if e.symbolic:
        for k, w in enumerate(want):
            e.eq(label, arr[k], w)
    else:
        e.eq(label, arr, np.array(want), tol=tol)


def disc(n, d, obs=0):
    """Pixels of an n x n frame whose centre lies within a centred disc (annulus) of diameter d pixels, row by row."""
    r2 = lambda i, j: (2 * i + 1 - n) ** 2 + (2 * j + 1 - n) ** 2
    return [(i, j) for i in range(n) for j in range(n) if r2(i, j) < d * d and r2(i, j) >= (d * obs) ** 2]


@harness('C18', funcs=BASE + [CW + m for m in ('__init__', 'prepare_trigger', 'trigger_code', 'nsubaps', 'nslopes', 'post_trigger')], trials=60)
def curvature(e):
    n, d = e.choice('geometry', [(4, 3), (5, 4), (6, 6), (4, 4)])
    o = CurWfsSlopec(diameter=d, ccd_size=(n, n))
    p, v = frame(e, n, n, name='p1', lo=0)
    q, w = frame(e, n, n, name='p2', lo=0)
    wire(o, in_pixels1=p, in_pixels2=q)
    o.setup()
    step(o, 1)
    px = disc(n, d)
    a, b = [v[i, j] for i, j in px], [w[i, j] for i, j in px]
    tot = [x + y for x, y in zip(a, b)]
    s = o.outputs['out_slopes']
    e.eq('one signal for every pixel of the pupil', s.slopes.shape, (len(px),))
    dark = [x < Fraction(1, 10 ** 9) for x in tot]
    sig = [e.ite(z, x - y, (x - y) / e.ite(z, 1, t)) for x, y, z, t in zip(a, b, dark, tot)]
    each(e, 'normalized difference of the two images', s.slopes, sig, 1e-4)
    each(e, 'flux of every pixel', o.outputs['out_flux_per_subaperture'].value, tot, 1e-5)
    e.eq('total counts', o.outputs['out_total_counts'].value[0], sum(tot, 0), tol=1e-5)
    e.eq('mean counts', o.outputs['out_subap_counts'].value[0], sum(tot, 0) / len(px), tol=1e-5)
    m = s.get2d()
    for i in range(n):
        for j in range(n):
            e.eq('map over the frame', m[i, j], s.slopes[px.index((i, j))] if (i, j) in px else 0)
    e.eq('refreshed', (s.generation_time, o.outputs['out_pupdata'].generation_time), (1, 1))


@harness('C18', funcs=BASE + [Z + m for m in ('__init__', 'prepare_trigger', 'trigger_code', 'nsubaps', 'nslopes', 'post_trigger')], trials=60)
def zernike_sensor(e):
    n, d, obs = e.choice('geometry', [(4, 3, None), (5, 4, None), (6, 6, 0.4), (4, 4, None)])
    thr = e.real('thr', 0, 5)
    o = ZwfsSlopec(pup_diam=d, ccd_size=n, obsratio=obs, thr_value=thr)
    p, v = frame(e, n, n)
    px = disc(n, d, obs or 0)
    a = [v[i, j] - thr for i, j in px]
    tot = sum(a, 0)
    e.assume(e.Or(tot > 1, tot < -1))
    wire(o, in_pixels=p)
    o.setup()
    step(o, 1)
    s = o.outputs['out_slopes']
    e.eq('one signal for every pixel of the pupil', s.slopes.shape, (len(px),))
    for k in range(len(px)):
        e.eq('intensity over the mean', s.slopes[k], a[k] * len(px) / tot)
        e.eq('flux of every pixel', o.outputs['out_flux_per_subaperture'].value[k], a[k])
    e.eq('total counts', o.outputs['out_total_counts'].value[0], tot)
    e.eq('mean counts', o.outputs['out_subap_counts'].value[0], tot / len(px))
    m = s.get2d()
    for i in range(n):
        for j in range(n):
            e.eq('map over the frame', m[i, j], s.slopes[px.index((i, j))] if (i, j) in px else 0)


def weights(e, q, exp_weight, wr, windowing):
    """Spec of the pixel weights: x, y, total; q x q."""
    xy = [(2 * i - q + 1) / q for i in range(q)]
    p = lambda c: abs(c) ** exp_weight * (1 if c > 0 else -1)
    if wr == 0:
        w = {(i, j): 1.0 for i in range(q) for j in range(q)}
    elif windowing:
        w = {(i, j): float((2 * i + 1 - q) ** 2 + (2 * j + 1 - q) ** 2 < (2 * wr) ** 2) for i in range(q) for j in range(q)}
    else:
        sd = 2 * wr / (2 * math.sqrt(2 * math.log(2)))
        g = lambda i: math.exp(-0.5 * ((i - (q - 1) / 2) / sd) ** 2)
        w = {(i, j): g(i) * g(j) for i in range(q) for j in range(q)}
        top = max(w.values())
        w = {k: (v / top if v / top >= 1e-6 else 0.0) for k, v in w.items()}
    return ([p(xy[j]) * w[i, j] for i in range(q) for j in range(q)], [p(xy[i]) * w[i, j] for i in range(q) for j in range(q)],
            [w[i, j] for i in range(q) for j in range(q)])


def _weighted(e, q, ew, wr, win, late):
    n = 2
    kw = dict(vecWeiPixRadT=[[0.7, 1.0], [wr, 2.0], [9.0, 8.0]], weightedPixRad=0.4) if late else dict(weightedPixRad=wr)
    o = ShSlopec(SubapData(idxs=np.arange(n * q * q).reshape(n, q * q), display_map=np.arange(n), nx=n, ny=1),
                 exp_weight=ew, windowing=win, **kw)
    t = 3 * 10 ** 9 if late else 1
    p, v = frame(e, n * q, q, t=t, lo=1)
    wire(o, in_pixels=p)
    o.setup()
    step(o, t)
    wx, wy, w = weights(e, q, ew, wr, win)
    g = lambda k, j: v[(k * q * q + j) // q, (k * q * q + j) % q]
    s = o.outputs['out_slopes']
    tot = [sum([g(k, j) * w[j] for j in range(q * q)], 0) for k in range(n)]
    mean = (tot[0] + tot[1]) / 2
    for k in range(n):
        f = e.ite(tot[k] <= mean / 1000, 0, 1 / tot[k])
        e.eq('x slope', s.xslopes[k], sum([g(k, j) * wx[j] * f for j in range(q * q)], 0), tol=1e-6)
        e.eq('y slope', s.yslopes[k], sum([g(k, j) * wy[j] * f for j in range(q * q)], 0), tol=1e-6)


@harness('C18', funcs=SH, mode='bounded', trials=60)
def weighted_centre(e):
    q = e.choice('pixels per side', [2, 3])
    ew = e.choice('exponent', [1, 2])
    wr, win = e.choice('radius', [(0, False), (1.5, True), (1, True)])
    _weighted(e, q, ew, wr, win, False)


@harness('C18', funcs=SH + [H + 'psf_gaussian'], mode='test', trials=80)
def gaussian_weights(e):
    q = e.choice('pixels per side', [2, 3, 4])
    ew = e.choice('exponent', [1.0, 2.0, 0.5])
    wr, win = e.choice('radius', [(0.8, False), (1.5, True), (1.5, False), (0.5, False)])
    _weighted(e, q, ew, wr, win, e.flag('radius from a list'))


@harness('C18', funcs=SH, mode='bounded', trials=60)
def radius_in_time(e):
    """The weighting radius is the one of the last entry of the list already begun."""
    t = e.choice('t', [1, 2, 3, 4, 7])
    o = ShSlopec(SubapData(idxs=np.arange(18).reshape(2, 9), display_map=np.arange(2), nx=2, ny=1),
                 vecWeiPixRadT=[[1.2, 1.5], [1.5, 3.0], [1.0, 5.0]], weightedPixRad=1.5, windowing=True)
    p, v = frame(e, 6, 3, t=t * 10 ** 9, lo=1)
    wire(o, in_pixels=p)
    o.setup()
    step(o, t * 10 ** 9)
    r = 1.5 if t <= 1 else 1.2 if t <= 3 else 1.5 if t <= 5 else 1.0
    o2 = ShSlopec(o.subapdata, weightedPixRad=r, windowing=True)
    wire(o2, in_pixels=p)
    o2.setup()
    step(o2, t * 10 ** 9)
    e.eq('slopes with the radius of the moment', o.outputs['out_slopes'].slopes, o2.outputs['out_slopes'].slopes)


@harness('C18', funcs=SH + [B + 'do_accumulation'], mode='bounded', trials=60, heavy=2)
def learned_weights(e):
    """Weights from the mean image of the last complete period (here two steps)."""
    window = e.flag('window')
    th = e.real('threshold', 0.1, 20)
    o = ShSlopec(SubapData(idxs=np.arange(4).reshape(1, 4), display_map=np.arange(1), nx=1, ny=1),
                 weight_int_pixel_dt=2, window_int_pixel=window, window_int_threshold=th)
    p = Pixels(2, 2)
    wire(o, in_pixels=p)
    first = True
    fr = []
    S = 10 ** 9
    for t in range(1, 7):
        v = e.array(f'px{t}', (2, 2), lo=1, hi=50)
        p.pixels[:] = v
        p.generation_time = t * S
        fr.append(v)
        if first:
            o.setup()
            first = False
        step(o, t * S)
        k0 = 2 * (t // 2)
        use = fr[k0 - 2:k0] if k0 >= 2 else []
        s = o.outputs['out_slopes']
        for k in range(1):
            at = lambda a, j, k=k: a[2 * k + j // 2, j % 2]
            if use:
                acc = [at(use[0], j) + at(use[1], j) for j in range(4)]
                low = functools.reduce(lambda x, y: e.ite(y < x, y, x), acc)
                top = functools.reduce(lambda x, y: e.ite(y > x, y, x), acc) - low
                if not e.case(top > 0):
                    w = [1] * 4
                elif window:
                    w = [e.ite(e.Or(acc[j] - low >= th, acc[3 - j] - low >= th), 1, 0) for j in range(4)]
                else:
                    w = [(acc[j] - low) / top for j in range(4)]
            else:
                w = [1] * 4
            g = [at(v, j) * w[j] for j in range(4)]
            e.eq('flux with the weights', o.outputs['out_flux_per_subaperture'].value[k], sum(g, 0))


CC = 'processing_objects/ciao_ciao_slopec.py:CiaoCiaoSlopec.'


@harness('C18', funcs=BASE + [CC + m for m in ('__init__', 'setup', 'trigger_code', 'nsubaps', 'nslopes')], trials=60)
def interferogram(e):
    """Phase of the chosen sideband, recentred, in nm; zero outside the pupil."""
    ny, nx = e.choice('geometry', [(4, 4), (4, 6), (5, 3)])
    x0, y0, sg = e.choice('window', [(1, 2, 1.5), (2, 0, 2.0)])
    wl = e.real('wavelength', 100, 3000)
    masked = ny == nx and e.flag('pupil mask')
    A = np.ones((ny, nx))
    A[0, :] = 0
    A[2, 1] = 0.4
    pm = None
    if masked:
        pm = Pupilstop(SimulParams(pixel_pupil=ny, pixel_pitch=1), input_mask=np.ones((ny, ny)))
        pm.A = A
    o = CiaoCiaoSlopec(wl, x0, y0, sg, pm)
    p, v = frame(e, ny, nx, lo=1)
    wire(o, in_pixels=p)
    o.setup()
    step(o, 1)
    xp = e.np
    win = e.mk((ny, nx), lambda i, j: -((j - x0) ** 2 / (2 * sg ** 2) + (i - y0) ** 2 / (2 * sg ** 2)) ** 2)
    ft = xp.fft.fftshift(xp.fft.fft2(v, norm='ortho')) * xp.exp(win)
    ft = xp.roll(ft, (int(np.rint(ny / 2 - y0)), int(np.rint(nx / 2 - x0))), axis=(0, 1))
    z = xp.fft.ifft2(xp.fft.fftshift(ft))
    ph = xp.arctan2(z.imag, z.real)
    s = o.outputs['out_slopes']
    keep = lambda i, j: (not masked) or bool(A[i, j] > 0.5)
    e.eq('one value for every pixel', s.slopes.shape, (ny * nx,))
    for i in range(ny):
        for j in range(nx):
            e.eq('optical path of every pixel', s.slopes[i * nx + j], ph[i, j] * wl / (2 * xp.pi) if keep(i, j) else 0, tol=1e-5)
    px = [v[i, j] for i in range(ny) for j in range(nx) if keep(i, j)]
    m = sum(px, 0) / len(px)
    e.eq('mean flux', (o.outputs['out_total_counts'].value[0], o.outputs['out_subap_counts'].value[0],
                       o.outputs['out_flux_per_subaperture'].value[0]), (m, m, m), tol=1e-6)
    e.eq('map', s.get2d().shape, (ny, nx))
