"""C20: long and short exposure images, Strehl ratio, coronagraphs."""
import math
import numpy as np
from pvc.api import harness
from contracts.common import step, wire, raises_iff
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.simul_params import SimulParams
from specula.lib.calc_psf import calc_psf, calc_psf_geometry, calc_psf_sampling, calc_psf_pixel_size
from specula.lib.radial_profile import (compute_radial_profile, compute_fwhm_from_profile, compute_encircled_energy,
                                        get_encircled_energy_at_distance)
from specula.processing_objects.psf import PSF
from specula.processing_objects.psf_coronagraph import PsfCoronagraph
from specula.processing_objects.abstract_coronagraph import Coronagraph
from specula.processing_objects.lyot_coronagraph import LyotCoronagraph
from specula.processing_objects.vortex_coronagraph import VortexCoronagraph
from specula.processing_objects.four_quadrant_coronagraph import FourQuadrantCoronagraph
from specula.processing_objects.apodizer_coronagraph import APPCoronagraph, PAPLCoronagraph, generate_app_keller

CP = ['lib/calc_psf.py:calc_psf', 'lib/calc_psf.py:psf_abs2']
PS = ['processing_objects/psf.py:PSF.' + f for f in ('__init__', 'setup', 'prepare_trigger', 'trigger_code', 'post_trigger', 'finalize')]
PC = ['processing_objects/psf_coronagraph.py:PsfCoronagraph.' + f for f in ('__init__', 'setup', 'calc_coronagraph_psf', 'trigger_code', 'post_trigger', 'finalize')]
CO = ['processing_objects/abstract_coronagraph.py:Coronagraph.' + f for f in ('__init__', 'setup', '_pupil_to_focal_plane', 'prepare_trigger', 'trigger_code', 'post_trigger')]
S = 10 ** 9


def image(e, u, N, centred=True):
    """Power in the focal plane of a field u, padded to N pixels."""
    if N is not None:
        n, m = u.shape
        z = e.np.zeros((N, N), dtype=e.np.complex128)
        z[:n, :m] = u
        u = z
    f = e.np.fft.fft2(u)
    if centred:
        f = e.np.fft.fftshift(f)
    return e.np.real(f * e.np.conj(f))


def field(e, name, n, m=None):
    f = ElectricField(n, m or n, 0.1)
    f.A[:] = e.array(name + '_A', f.A.shape, lo=0)
    f.phaseInNm[:] = e.array(name + '_P', f.A.shape)
    return f


@harness('C20', funcs=CP)
def image_of_a_field(e):
    """Squared modulus of the centred transform, normalised by its total, and the total."""
    n, m = e.dim('n'), e.dim('m')
    pad = e.flag('padded')
    N = e.dim('N') if pad else None
    if pad:
        e.assume(e.And(N >= n, N >= m))
    A, ph = e.array('A', (n, m)), e.array('ph', (n, m))
    was = e.snap(A), e.snap(ph)
    norm, raw = e.flag('normalize'), e.flag('nocenter')
    p, tot = calc_psf(ph, A, xp=e.xp, complex_dtype=e.np.complex128, imwidth=N, normalize=norm, nocenter=raw, return_total=True)
    want = image(e, A * e.np.exp(1j * ph), N, not raw)
    t = e.np.sum(want)
    e.eq('total', tot, t, tol=1e-9)
    e.eq('image', p, want / t if norm else want, tol=1e-9)
    e.eq('only the image', calc_psf(ph, A, xp=e.xp, complex_dtype=e.np.complex128, imwidth=N, normalize=norm, nocenter=raw), p)
    e.eq('inputs not modified', (A, ph), was)


@harness('C20', funcs=PS + CP, trials=60)
def exposure(e):
    """Instantaneous image and Strehl ratio at every step; averages and deviation over the steps from start_time."""
    n, nd, start = e.choice('case', [(2, 2.0, 2.0), (4, 1.0, 0.0), (3, 2.0, 3.5)] + ([] if e.symbolic else [(2, 3.0, 0.0), (4, 1.4, 1.0), (5, 1.9, 2.0), (7, 2.0, 0.0)]))
    wl = 500.0
    o = PSF(SimulParams(pixel_pupil=n, pixel_pitch=0.1), wl, nd=nd, start_time=start, verbose=False)
    f = field(e, 'f', n)
    f.generation_time = S
    wire(o, in_ef=f)
    o.setup()
    N = int(np.around(n * nd / 2)) * 2
    first = f.A.copy()
    r = image(e, first + 0j, N)
    ref = r[N // 2, N // 2] / e.np.sum(r)
    psfs, srs = [], []
    for k in (1, 2, 4):
        if k == 2:
            f.phaseInNm[:] = e.array('P2', (n, n))
        if k == 4:
            f.phaseInNm[:] = e.array('P4', (n, n))
            f.A[:] = e.array('A4', (n, n), lo=0)
        f.generation_time = k * S
        step(o, k * S)
        w = image(e, f.A * e.np.exp(1j * (f.phaseInNm * (2 * e.np.pi / wl))), N)
        w = w / e.np.sum(w)
        e.eq('image of the moment', o.outputs['out_psf'].value, w, tol=1e-6)
        e.eq('Strehl ratio', o.outputs['out_sr'].value, w[N // 2, N // 2] / ref, tol=1e-6)
        e.eq('refreshed', (o.outputs['out_psf'].generation_time, o.outputs['out_sr'].generation_time), (k * S, k * S))
        if k >= start:
            psfs.append(w)
            srs.append(w[N // 2, N // 2] / ref)
    o.finalize()
    q = len(psfs)
    mean = sum(psfs[1:], psfs[0]) / q
    e.eq('long exposure', o.outputs['out_int_psf'].value, mean, tol=1e-6)
    e.eq('mean Strehl ratio', o.outputs['out_int_sr'].value, sum(srs[1:], srs[0]) / q, tol=1e-6)
    sq = [p ** 2 for p in psfs]
    var = sum(sq[1:], sq[0]) / q - mean ** 2
    e.eq('deviation', o.outputs['out_std_psf'].value, e.np.sqrt(e.np.maximum(var, 0)), tol=1e-6)
    for x in ('out_int_psf', 'out_int_sr', 'out_std_psf'):
        e.eq('time of the averages', o.outputs[x].generation_time, 4 * S)


@harness('C20', funcs=PS, trials=30)
def no_exposure(e):
    """Averages stay zero when the run ends before start_time."""
    o = PSF(SimulParams(pixel_pupil=2, pixel_pitch=0.1), 500.0, nd=2.0, start_time=5.0, verbose=False)
    f = field(e, 'f', 2)
    f.generation_time = S
    wire(o, in_ef=f)
    o.setup()
    step(o, S)
    o.finalize()
    e.eq('nothing averaged', (o.outputs['out_int_psf'].value, o.outputs['out_std_psf'].value), (np.zeros((4, 4)), np.zeros((4, 4))))
    e.eq('no Strehl ratio', o.outputs['out_int_sr'].value, 0)
    e.raises('wavelength', ValueError, lambda: PSF(SimulParams(pixel_pupil=2, pixel_pitch=0.1), e.choice('bad', [0.0, -1.0])))


@harness('C20', funcs=PC + PS, trials=60)
def perfect_coronagraph(e):
    """The mean field over the pupil (or its coherent part) is removed; normalised as the image without coronagraph."""
    n, nd, wl = e.choice('n', [2, 3]), 2.0, 500.0
    avg = e.flag('average')
    o = PsfCoronagraph(SimulParams(pixel_pupil=n, pixel_pitch=0.1), wl, nd=nd, use_average_field=avg, start_time=2.0, verbose=False)
    f = field(e, 'f', n)
    N = 2 * n
    out = []
    f.generation_time = S
    wire(o, in_ef=f)
    o.setup()
    for k in (1, 2, 3):
        f.A[:] = e.array(f'A{k}', (n, n), lo=0)
        f.A[0, 1] = 0
        f.A[1, 0] = e.real(f'bright{k}', 1, 2)
        f.phaseInNm[:] = e.array(f'P{k}', (n, n))
        f.generation_time = k * S
        step(o, k * S)
        ph = f.phaseInNm * (2 * e.np.pi / wl)
        u = f.A * e.np.exp(1j * ph)
        pup = f.A > 0
        cnt = e.np.sum(pup)
        if avg:
            v = u - e.np.sum(u * pup) / cnt * pup
        else:
            mp = e.np.sum(ph * pup) / cnt
            var = e.np.sum((ph - mp) ** 2 * pup) / cnt
            v = u - e.np.sqrt(e.np.exp(-var)) * e.np.exp(1j * mp) * f.A * pup
        w = image(e, v, N) / e.np.sum(image(e, u, N))
        e.eq('coronagraphic image', o.outputs['out_coronagraph_psf'].value, w, tol=1e-6)
        e.eq('refreshed', o.outputs['out_coronagraph_psf'].generation_time, k * S)
        if k >= 2:
            out.append(w)
    o.finalize()
    m = (out[0] + out[1]) / 2
    e.eq('long exposure', o.outputs['out_int_coronagraph_psf'].value, m, tol=1e-6)
    e.eq('deviation', o.outputs['out_std_coronagraph_psf'].value,
         e.np.sqrt(e.np.maximum((out[0] ** 2 + out[1] ** 2) / 2 - m ** 2, 0)), tol=1e-6)
    e.eq('time of the averages', (o.outputs['out_int_coronagraph_psf'].generation_time, o.outputs['out_std_coronagraph_psf'].generation_time),
         (3 * S, 3 * S))


class Given(Coronagraph):
    """A coronagraph with any masks."""
    masks = None

    def make_apodizer(self):
        return Given.masks[0]

    def make_focal_plane_mask(self):
        return Given.masks[1]

    def make_pupil_plane_mask(self):
        return Given.masks[2]


@harness('C20', funcs=CO, trials=60)
def masks_in_their_planes(e):
    """Apodizer in the pupil, mask in the focal plane, stop in the second pupil; light is what is left."""
    n, res = e.choice('size', [(4, 2.0), (3, 2.0)] if e.symbolic else [(4, 2.0), (3, 2.0), (4, 3.0), (5, 2.4)])
    pitch, wl = 0.1, 800.0
    N = int(np.around(n * res / 2)) * 2
    ap = e.array('ap', (n, n), kind='c') if e.flag('apodized') else 1.0
    fm, st = e.array('fm', (N, N), kind='c'), e.array('st', (n, n))
    Given.masks = ap, fm, st
    onpix = e.flag('on_pixel')
    fov = wl * 1e-9 / pitch * 206264.80624709636
    o = Given(SimulParams(pixel_pupil=n, pixel_pitch=pitch), wl, fov, fft_res=res, center_on_pixel=onpix)
    f = field(e, 'f', n)
    f.A[:] = e.array('A', (n, n), lo=1)
    f.S0 = e.real('S0', 0, 100)
    f.generation_time = S
    wire(o, in_ef=f)
    o.setup()
    step(o, S)
    u = f.A * e.np.exp(1j * (f.phaseInNm * (2 * e.np.pi / wl)))
    z = e.np.zeros((N, N), dtype=e.np.complex128)
    k = int(np.around((N - n) / 2) * 2) // 2
    z[k:k + n, k:k + n] = u * ap
    i = np.arange(N)
    ramp = 1.0 if onpix else np.exp(-2j * np.pi * 0.5 * (i[:, None] + i[None, :]) / N)
    v = e.np.fft.ifft2(e.np.fft.fft2(z * ramp) * e.np.fft.fftshift(fm)) * np.conj(ramp)
    v = v[k:k + n, k:k + n] * st
    g = o.outputs['out_ef']
    e.eq('amplitude', g.A, e.np.abs(v), tol=1e-5)
    e.eq('phase', g.phaseInNm, e.np.angle(v) * wl / (2 * e.np.pi), tol=1e-5) if e.symbolic else \
        e.eq('field', g.A * np.exp(2j * np.pi * g.phaseInNm / wl), v, tol=1e-5)

    def power(x):
        if e.symbolic:       # (Parseval's theorem is checked by the concrete evaluation)
            y = e.np.zeros((N, N), dtype=e.np.complex128)
            y[k:k + n, k:k + n] = x
            x = e.np.fft.fft2(y * ramp)
        return e.np.sum(e.np.abs(x) ** 2)
    if e.symbolic:
        e.eq('light left', g.S0, f.S0 * (power(v) / power(u)), tol=1e-5)
    else:
        e.eq('light left', g.S0 * power(u), f.S0 * power(v), tol=1e-5)
    e.eq('refreshed', g.generation_time, S)


def distances(N, onpix=False):
    """Distance of the pixels from the axis, in pixels."""
    i = np.arange(N) - (N // 2 if onpix else (N - 1) / 2)
    return np.hypot(i[:, None], i[None, :])


def stop_of(n, inner, outer):
    r = distances(n) / (n / 2)
    return (r < outer) & (r >= inner * outer)


STOPS = [(0.0, 1.0), (0.2, 0.9), (0.0, 0.5)]
MK = ['lib/make_mask.py:make_mask', 'lib/calc_geometry.py:calc_geometry']


def same_mask(e, label, got, want, edge):
    """Masks are equal, except where the boundary goes through the pixel centre."""
    d = np.asarray(got) != want
    e.ensure(label, not (d & ~edge).any())


@harness('C20', funcs=['processing_objects/lyot_coronagraph.py:LyotCoronagraph.' + f for f in ('__init__', 'make_focal_plane_mask', 'make_pupil_plane_mask')] + MK,
         mode='test', trials=80)
def lyot_masks(e):
    """The field between the working angles (or beyond the edge) goes through, around an axis between four pixels."""
    n = e.choice('n', [16, 24, 20])
    res = e.choice('fft_res', [3.0, 2.0, 4.0])
    iwa = e.choice('iwa', [1.0, 2.5, 0.0])
    owa = e.choice('owa', [None, 3.0, 5.5])
    inner, outer = e.choice('stop', STOPS)
    edge = e.flag('knife')
    sp = SimulParams(pixel_pupil=n, pixel_pitch=0.1)
    mk = lambda **k: LyotCoronagraph(sp, 700.0, **dict(dict(iwaInLambdaOverD=iwa, owaInLambdaOverD=owa, innerStopAsRatioOfPupil=inner,
                                                            outerStopAsRatioOfPupil=outer, knife_edge=edge, fft_res=res), **k))
    e.raises('stops', ValueError, lambda: mk(innerStopAsRatioOfPupil=0.9, outerStopAsRatioOfPupil=0.5))
    e.raises('negative stop', ValueError, lambda: mk(innerStopAsRatioOfPupil=-0.1))
    if edge and owa is not None:
        e.raises('edge with outer angle', ValueError, mk)
        return
    o = mk()
    N = int(np.around(n * res / 2)) * 2
    px = N / n
    if edge:
        x = (np.arange(N) - (N - 1) / 2) / px
        want = np.broadcast_to(x >= iwa, (N, N))
        bnd = np.broadcast_to(abs(x - iwa) < 1e-6, (N, N))
    else:
        r = distances(N) / px
        out = owa if owa is not None else N / 2 / px
        want = (r >= iwa) & (r < out)
        bnd = (abs(r - iwa) < 1e-6) | (abs(r - out) < 1e-6)
    same_mask(e, 'between the working angles', o.fp_mask, want, bnd)
    q = distances(n) / (n / 2)
    same_mask(e, 'pupil stop', o.pupil_mask, stop_of(n, inner, outer), (abs(q - outer) < 1e-6) | (abs(q - inner * outer) < 1e-6))
    axis_between_pixels(e, o, n, True)


def axis_between_pixels(e, o, n, between):
    """A flat field has its image symmetric about the axis of the mask."""
    f = ElectricField(n, n, 0.1)
    f.generation_time = S
    wire(o, in_ef=f)
    o.setup()
    u = np.fft.fftshift(o._pupil_to_focal_plane(np.ones((n, n), complex)))
    p = abs(u) ** 2
    if between:
        e.eq('image centred between four pixels', p, p[::-1, ::-1], tol=1e-9)
    else:
        e.eq('image centred on a pixel', p[1:, 1:], p[:0:-1, :0:-1], tol=1e-9)


@harness('C20', funcs=['processing_objects/four_quadrant_coronagraph.py:FourQuadrantCoronagraph.' + f for f in ('__init__', 'make_focal_plane_mask', 'make_pupil_plane_mask')]
         + ['processing_objects/vortex_coronagraph.py:VortexCoronagraph.' + f for f in ('__init__', 'make_focal_plane_mask', 'make_pupil_plane_mask')] + MK,
         mode='test', trials=80)
def phase_masks(e):
    """Two opposite quadrants delayed; vortex of the given charge, with an inner vortex of its own radius."""
    n, res = e.choice('n', [16, 10, 15]), e.choice('fft_res', [3.0, 2.0, 4.0])
    inner, outer = e.choice('stop', STOPS)
    sp = SimulParams(pixel_pupil=n, pixel_pitch=0.1)
    st = dict(innerStopAsRatioOfPupil=inner, outerStopAsRatioOfPupil=outer, fft_res=res)
    N = int(np.around(n * res / 2)) * 2
    q = distances(n) / (n / 2)
    bnd = (abs(q - outer) < 1e-6) | (abs(q - inner * outer) < 1e-6)
    if e.flag('quadrants'):
        d = e.choice('delay', [np.pi, 1.0])
        o = FourQuadrantCoronagraph(sp, 700.0, phase_delay=d, **st)
        h = np.arange(N) < N // 2
        e.eq('opposite quadrants delayed', o.fp_mask / o.fp_mask[0, 0], np.exp(1j * d * (h[:, None] ^ h[None, :])), tol=1e-6)
        axis_between_pixels(e, o, n, True)
        e.raises('stops', ValueError, lambda: FourQuadrantCoronagraph(sp, 700.0, innerStopAsRatioOfPupil=0.9, outerStopAsRatioOfPupil=0.5))
    else:
        c = e.choice('charge', [2, 4, 1])
        inn = e.choice('inner', [None, (None, None, None), (1.5, None, None), (2.0, 1, 0.5)])
        k = {} if inn is None else dict(addInVortex=True, inVortexRadInLambdaOverD=inn[0], inVortexCharge=inn[1], inVortexShift=inn[2])
        o = VortexCoronagraph(sp, 700.0, c, **st, **k)
        i = np.arange(N) - N // 2
        th = np.arctan2(i[:, None], i[None, :])
        want = np.exp(1j * c * th)
        if inn is not None:
            r0, c0, s0 = inn[0] or 0.6, inn[1] or c, np.pi if inn[2] is None else inn[2]
            r = distances(N, True) / (N / n)
            want = np.where(r <= r0, np.exp(1j * (c0 * th + s0)), want)
            edge = abs(r - r0) < 1e-6
        else:
            edge = np.zeros((N, N), bool)
        e.eq('vortex', np.where(edge, 0, o.fp_mask), np.where(edge, 0, want), tol=1e-6)
        axis_between_pixels(e, o, n, False)
        e.raises('inner vortex not asked', ValueError, lambda: VortexCoronagraph(sp, 700.0, c, inVortexCharge=1))
        e.raises('stops', ValueError, lambda: VortexCoronagraph(sp, 700.0, c, innerStopAsRatioOfPupil=0.9, outerStopAsRatioOfPupil=0.5))
    same_mask(e, 'pupil stop', o.pupil_mask, stop_of(n, inner, outer), bnd)


@harness('C20', funcs=['processing_objects/apodizer_coronagraph.py:' + f for f in ('APPCoronagraph.__init__', 'APPCoronagraph.define_apodizing_phase', 'generate_app_keller',
                       'PAPLCoronagraph.__init__', 'PAPLCoronagraph.make_focal_plane_mask')], mode='test', trials=16)
def apodizing_phase(e):
    """A phase of the pupil alone which makes the region between the working angles dark."""
    n, res = e.choice('n', [32, 24]), e.choice('fft_res', [3.0, 2.0])
    iwa, owa, c = 3.0, e.choice('owa', [6.0, 5.0]), 1e-3
    sym = e.flag('symmetric')
    pup = (distances(n) < n / 2).astype(float)
    sp = SimulParams(pixel_pupil=n, pixel_pitch=0.1)
    lyot = e.flag('lyot')
    k = dict(fft_res=res, make_symmetric=sym)
    if lyot:
        fi, fo = 2.0, e.choice('outer', [None, 5.0])
        knife = e.flag('knife')
        mk = lambda: PAPLCoronagraph(sp, 700.0, pup, c, iwa, owa, fi, fo, knife_edge=knife, innerStopAsRatioOfPupil=0.2, outerStopAsRatioOfPupil=0.9, **k)
        if knife and fo is not None:
            e.raises('edge with outer angle', ValueError, mk)
            return
        o = mk()
    else:
        o = APPCoronagraph(sp, 700.0, pup, c, iwa, owa, **k)
    N = int(np.around(n * res / 2)) * 2
    px = N / n
    r = distances(N) / px
    x = (np.arange(N) - (N - 1) / 2) / px
    dark = (r >= iwa) & (r < owa) & (sym | np.broadcast_to(x >= iwa, (N, N)))
    edge = (abs(r - iwa) < 1e-6) | (abs(r - owa) < 1e-6) | np.broadcast_to(abs(x - iwa) < 1e-6, (N, N))
    same_mask(e, 'dark region between the working angles', np.asarray(o.target_contrast) < 0.1, dark, edge)
    e.eq('only a phase', abs(o.apodizer), np.ones((n, n)), tol=1e-6)
    z = np.zeros((N, N), complex)
    z[:n, :n] = pup * o.apodizer
    p = abs(np.fft.fftshift(np.fft.fft2(z))) ** 2
    hole = np.asarray(o.target_contrast) < 0.1
    e.ensure('dark region is dark', (p[hole] / p.max()).max() < 3 * c)
    if lyot:
        q = distances(n) / (n / 2)
        same_mask(e, 'pupil stop', o.pupil_mask, stop_of(n, 0.2, 0.9), (abs(q - 0.9) < 1e-6) | (abs(q - 0.18) < 1e-6))
        out = fo if fo is not None else N / 2 / px
        want = np.broadcast_to(x >= fi, (N, N)) if knife else (r >= fi) & (r < out)
        same_mask(e, 'focal plane mask', o.fp_mask, want, np.broadcast_to(abs(x - fi) < 1e-6, (N, N)) | (abs(r - fi) < 1e-6) | (abs(r - out) < 1e-6))


GEO = ['lib/calc_psf.py:calc_psf_geometry', 'lib/calc_psf.py:calc_psf_pixel_size']


@harness('C20', funcs=GEO, trials=60)
def sampling_density(e):
    """Pixels of lambda over nd times the diameter."""
    n, pitch, wl, nd = e.int('n', 2, 500), e.real('pitch', 0.01, 1), e.real('wavelength', 100, 5000), e.real('nd', 0.5, 8)
    unit = wl * 1e-9 / (n * pitch) * 3600 * 180 / e.np.pi * 1000
    g = calc_psf_geometry(n, pitch, wl, nd=nd)
    e.eq('density', g.nd, nd)
    e.eq('pixel size', g.pixel_size_mas, unit / nd, tol=1e-9)
    e.raises('both given', ValueError, lambda: calc_psf_geometry(n, pitch, wl, nd=nd, pixel_size_mas=1.0))
    g = calc_psf_geometry(n, pitch, wl)
    e.eq('one pixel for each lambda over D', (g.nd, g.pixel_size_mas), (1.0, unit), tol=1e-9)


@harness('C20', funcs=GEO + ['lib/calc_psf.py:calc_psf_sampling'], mode='test', trials=100)
def requested_pixel(e):
    """A requested pixel size gives the nearest whole number of pixels."""
    n = e.choice('n', [10, 24, 7])
    pitch, wl = e.choice('pitch', [0.05, 0.1]), e.choice('wavelength', [500.0, 1650.0])
    unit = wl * 1e-9 / (n * pitch) * 3600 * 180 / math.pi * 1000
    ask = unit * e.real('fraction', 0.1, 1.5)
    if raises_iff(e, 'too coarse', ValueError, lambda: calc_psf_geometry(n, pitch, wl, pixel_size_mas=ask), ask > unit):
        return
    g = calc_psf_geometry(n, pitch, wl, pixel_size_mas=ask)
    m = g.nd * n
    e.eq('whole number of pixels', m, round(m), tol=1e-9)
    e.eq('pixel size', g.pixel_size_mas, unit / g.nd, tol=1e-9)
    e.ensure('nearest size', all(abs(g.pixel_size_mas - ask) <= abs(unit * n / k - ask) + 1e-9 for k in range(1, 400)))


RP = 'lib/radial_profile.py:'


@harness('C20', funcs=[RP + f for f in ('compute_radial_profile', 'compute_fwhm_from_profile', 'compute_encircled_energy', 'get_encircled_energy_at_distance')]
         + ['processing_objects/psf.py:PSF.' + f for f in ('_compute_radial_profile_data', '_compute_profile_metrics', '_set_profile_outputs')], mode='test', trials=80)
def profiles(e):
    """Mean over rings of one pixel, width at half maximum and energy within a radius."""
    h, w = e.int('h', 2, 7), e.int('w', 2, 7)
    a = np.asarray(e.array('a', (h, w), lo=0, hi=5))
    cy, cx = (None, None) if e.flag('centred') else (e.real('cy', 0, 6), e.real('cx', 0, 6))
    p, d, c = compute_radial_profile(a, cy, cx, return_counts=True)
    y0, x0 = (h / 2, w / 2) if cy is None else (cy, cx)
    rings = {}
    for i in range(h):
        for j in range(w):
            r = math.hypot(i - y0, j - x0)
            rings.setdefault(int(r), []).append((r, a[i, j]))
    ks = sorted(rings)
    e.eq('pixels of the rings', list(c), [len(rings[k]) for k in ks])
    e.eq('mean over the rings', list(p), [sum(v for _, v in rings[k]) / len(rings[k]) for k in ks], tol=1e-9)
    e.eq('mean distance', list(d), [sum(r for r, _ in rings[k]) / len(rings[k]) for k in ks], tol=1e-9)
    tot = a.sum()
    ee = compute_encircled_energy(p, c)
    cum = np.cumsum([sum(v for _, v in rings[k]) for k in ks])
    e.eq('energy inside', ee, cum / tot if tot else cum, tol=1e-9)
    f = compute_fwhm_from_profile(p, d)
    pk = max(p)
    if pk <= 0:
        e.eq('no light', f, 0)
    else:
        k = [i for i in range(1, len(p)) if p[i] <= pk / 2]
        if not k:
            e.ensure('no half maximum', math.isnan(f))
        else:
            k = k[0]
            dp = p[k] - p[k - 1]
            e.eq('width at half maximum', f, 2 * (d[k - 1] + ((pk / 2 - p[k - 1]) * (d[k] - d[k - 1]) / dp if dp else 0)), tol=1e-9)
    q = [e.real('q0', 0, 8), e.real('q1', 0, 8)]
    e.eq('energy within a radius', get_encircled_energy_at_distance(ee, d, q), np.interp(q, d, ee), tol=1e-9)
    e.eq('energy within one radius', get_encircled_energy_at_distance(ee, d, q[0]), np.interp(q[0], d, ee), tol=1e-9)
    # published by the image block, in lambda over D
    n, nd = 4, 2.0
    o = PSF(SimulParams(pixel_pupil=n, pixel_pitch=0.1), 500.0, nd=nd, compute_profile_metrics=True, compute_metrics_in_trigger=e.flag('always'),
            ee_radius_in_lambda_d=[0.5, 1.5], verbose=False)
    f = field(e, 'f', n)
    f.A[0, 0] = 1
    f.generation_time = S
    wire(o, in_ef=f)
    o.setup()
    step(o, S)
    o.finalize()
    for pre, on in (('', o.compute_metrics_in_trigger), ('int_', True)):
        img = o.outputs[f'out_{pre}psf'].value
        if on:
            p, d, c = compute_radial_profile(img / img.max(), return_counts=True)
            ee = compute_encircled_energy(p, c)
            e.eq('profile', o.outputs[f'out_{pre}psf_profile'].value, np.vstack([d / nd, p]), tol=1e-6)
            e.eq('energy', o.outputs[f'out_{pre}encircled_energy'].value, np.vstack([d / nd, ee]), tol=1e-6)
            e.eq('energy at the radii', o.outputs[f'out_{pre}encircled_energy_at_radius'].value, np.interp([0.5, 1.5], d / nd, ee), tol=1e-6)
            e.eq('time', o.outputs[f'out_{pre}psf_fwhm'].generation_time, S)
        else:
            e.ensure('not computed', o.outputs[f'out_{pre}psf_profile'].value is None)
