"""C12: what is saved to a file comes back unchanged when it is restored."""
import numpy as np
from pvc.api import harness
from contracts.common import raises_iff
from contracts.c11_fields import field
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.layer import Layer
from specula.data_objects.pupilstop import Pupilstop
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.intensity import Intensity
from specula.data_objects.pixels import Pixels
from specula.data_objects.slopes import Slopes
from specula.data_objects.intmat import Intmat
from specula.data_objects.recmat import Recmat
from specula.data_objects.subap_data import SubapData
from specula.data_objects.pupdata import PupData
from specula.data_objects.ifunc import IFunc
from specula.data_objects.ifunc_inv import IFuncInv
from specula.data_objects.m2c import M2C
from specula.data_objects.lenslet import Lenslet
from specula.data_objects.time_history import TimeHistory
from specula.data_objects.spatio_temp_array import SpatioTempArray
from specula.data_objects.source import Source
from specula.data_objects.laser_launch_telescope import LaserLaunchTelescope
from specula.data_objects.iir_filter_data import IirFilterData
from specula.data_objects.ssr_filter_data import SsrFilterData
from specula.data_objects.convolution_kernel import ConvolutionKernel
from specula.data_objects.gaussian_convolution_kernel import GaussianConvolutionKernel
from specula.base_value import BaseValue

D = 'data_objects/'


def sr(f, c, *more):
    return [f'{D}{f}.py:{c}.{m}' for m in ('save', 'restore') + more]


def back(e, obj, cls, name='f.fits', **k):
    fn = e.tmpfile(name)
    obj.save(fn, **k)
    return cls.restore(fn)


@harness('C12', funcs=sr('electric_field', 'ElectricField', 'get_fits_header', 'from_header'))
def electric_field(e):
    ny, nx = e.dim('ny'), e.dim('nx')
    ef, a, p = field(e, 'f', ny, nx)
    r = back(e, ef, ElectricField)
    e.eq('amplitude', r.A, a)
    e.eq('phase', r.phaseInNm, p)
    e.eq('pitch, flux density', (r.pixel_pitch, r.S0), (ef.pixel_pitch, ef.S0))
    e.eq('saving leaves the object as it was', ef.A, a)
    e.eq('saving leaves the object as it was', ef.phaseInNm, p)


@harness('C12', funcs=sr('layer', 'Layer', 'get_fits_header', 'from_header'))
def layer(e):
    ny, nx = e.dim('ny'), e.dim('nx')
    a, p = e.array('A', (ny, nx)), e.array('P', (ny, nx))
    g = [e.real(k) for k in ('pitch', 'height', 'sx', 'sy', 'rot', 'mag')]
    la = Layer(nx, ny, g[0], g[1], (g[2], g[3]), g[4], g[5])
    la.A, la.phaseInNm = a, p
    r = back(e, la, Layer)
    e.eq('amplitude', r.A, a)
    e.eq('phase', r.phaseInNm, p)
    e.eq('pitch, height, rotation, magnification', (r.pixel_pitch, r.height, r.rotInDeg, r.magnification),
         (g[0], g[1], g[4], g[5]))
    e.eq('shift', (r.shiftXYinPixel[0], r.shiftXYinPixel[1]), (g[2], g[3]))


@harness('C12', funcs=sr('pupilstop', 'Pupilstop', 'get_fits_header', 'from_header'))
def pupilstop(e):
    n = e.choice('n', [2, 3, 5])
    m = e.array('mask', (n, n))
    g = [e.real(k) for k in ('pitch', 'sx', 'sy', 'rot', 'mag')]
    o = Pupilstop(SimulParams(pixel_pupil=n, pixel_pitch=g[0]), input_mask=m, shiftXYinPixel=(g[1], g[2]), rotInDeg=g[3],
                  magnification=g[4])
    r = back(e, o, Pupilstop)
    e.eq('mask', r.A, m)
    e.eq_fn('no phase', r.phaseInNm, (n, n), lambda i, j: 0)
    e.eq('pitch, size, rotation, magnification', (r.pixel_pitch, r.pixel_pupil, r.rotInDeg, r.magnification), (g[0], n, g[3], g[4]))
    e.eq('shift', (r.shiftXYinPixel[0], r.shiftXYinPixel[1]), (g[1], g[2]))
    e.eq('valid from the first step', r.generation_time, 0)


@harness('C12', funcs=sr('intensity', 'Intensity', 'get_fits_header', 'from_header') + sr('pixels', 'Pixels', 'get_fits_header', 'from_header', '_get_type'))
def frames(e):
    ny, nx = e.dim('ny'), e.dim('nx')
    v = e.array('v', (ny, nx))
    i = Intensity(nx, ny)
    i.set_value(v)
    r = back(e, i, Intensity)
    e.eq('intensity', r.i, v)
    bits, signed = e.choice('bits', [8, 12, 16, 32, 64]), e.choice('signed', [0, 1])
    p = Pixels(nx, ny, bits=bits, signed=signed)
    p.set_value(v)
    r = back(e, p, Pixels, 'p.fits')
    e.eq('pixels', r.pixels, v)
    e.eq('bits, bytes, sign', (r.bpp, r.bytespp, r.signed), (bits, p.bytespp, signed))
    e.ensure('pixel type', r.type == p.type)


@harness('C12', funcs=sr('slopes', 'Slopes', 'get_fits_header', 'from_header'))
def slopes(e):
    n = e.dim('n')
    v = e.array('v', n)
    s = Slopes(slopes=v, interleave=e.flag('interleave'))
    if e.flag('tags'):
        s.pupdata_tag, s.subapdata_tag = 'pup', 'sub'
    r = back(e, s, Slopes)
    e.eq('slopes', r.slopes, v)
    e.eq('x slopes', r.xslopes, s.xslopes)
    e.eq('y slopes', r.yslopes, s.yslopes)
    e.ensure('layout', r.interleave == s.interleave)
    e.ensure('tags', (r.pupdata_tag or None, r.subapdata_tag or None) == (s.pupdata_tag, s.subapdata_tag))


@harness('C12', funcs=sr('intmat', 'Intmat', 'get_fits_header') + sr('recmat', 'Recmat', 'get_fits_header'))
def matrices(e):
    ns, nm = e.dim('ns'), e.dim('nm')
    v = e.array('v', (ns, nm))
    mm, rms, nf = e.array('mm', (nm, 2)), e.array('rms', nm), e.real('nf')
    full = e.flag('statistics')
    im = Intmat(v, slope_mm=mm if full else None, slope_rms=rms if full else None, pupdata_tag='pp', subapdata_tag='ss', norm_factor=nf)
    r = back(e, im, Intmat)
    e.eq('interaction matrix', r.intmat, v)
    e.eq('normalisation', r.norm_factor, nf)
    e.ensure('tags', (r.pupdata_tag, r.subapdata_tag) == ('pp', 'ss'))
    if full:
        e.eq('slope range', r.slope_mm, mm)
        e.eq('slope rms', r.slope_rms, rms)
    else:
        e.ensure('no statistics', r.slope_mm is None and r.slope_rms is None)
    rec = Recmat(v, norm_factor=nf)
    r = back(e, rec, Recmat, 'r.fits')
    e.eq('reconstruction matrix', r.recmat, v)
    e.eq('normalisation of the reconstruction matrix', r.norm_factor, nf)


@harness('C12', funcs=sr('subap_data', 'SubapData') + sr('pupdata', 'PupData', 'get_fits_header'))
def pupils(e):
    n, np_, nd = e.dim('n'), e.choice('np', [1, 4, 9]), e.dim('nd')
    ix = e.array('ix', (n, np_), kind='i')
    dm = e.array('dm', nd, kind='i')
    nx, ny, th = e.int('nx', 1, 50), e.int('ny', 1, 50), e.real('th')
    s = SubapData(ix, dm, nx, ny, energy_th=th)
    r = back(e, s, SubapData)
    e.eq('pixel indices', r.idxs, ix)
    e.eq('display map', r.display_map, dm)
    e.eq('grid, threshold', (r.nx, r.ny, r.energy_th), (nx, ny, th))
    k = e.choice('pupils', [1, 3, 4])
    ip = e.array('ip', (n, k), kind='i')
    rad, cx, cy = e.array('rad', k), e.array('cx', k), e.array('cy', k)
    fx, fy = e.int('fx', 1, 50), e.int('fy', 1, 50)
    p = PupData(ind_pup=ip, radius=rad, cx=cx, cy=cy, framesize=[fx, fy])
    r = back(e, p, PupData, 'p.fits')
    e.eq('pupil indices', r.ind_pup, ip)
    e.eq('radius', r.radius, rad)
    e.eq('centre x', r.cx, cx)
    e.eq('centre y', r.cy, cy)
    e.eq('frame size', (r.framesize[0], r.framesize[1]), (fx, fy))


@harness('C12', funcs=sr('ifunc', 'IFunc', 'get_fits_header') + sr('ifunc_inv', 'IFuncInv', 'get_fits_header') + sr('m2c', 'M2C', 'get_fits_header'))
def influence(e):
    nm, npx, h, w = e.dim('nm'), e.dim('npx'), e.dim('h'), e.dim('w')
    f = e.array('f', (nm, npx))
    m = e.array('mask', (h, w))
    r = back(e, IFunc(f, mask=m), IFunc)
    e.eq('influence functions', r.influence_function, f)
    e.eq('mask', r.mask_inf_func, m)
    g = e.array('g', (npx, nm))
    r = back(e, IFuncInv(g, m), IFuncInv, 'i.fits')
    e.eq('inverse influence functions', r.ifunc_inv, g)
    e.eq('mask of the inverse', r.mask_inf_func, m)
    r = back(e, M2C(g), M2C, 'm.fits')
    e.eq('modes to commands', r.m2c, g)


@harness('C12', funcs=sr('time_history', 'TimeHistory', 'get_fits_header') + sr('spatio_temp_array', 'SpatioTempArray', 'get_fits_header', '__init__'))
def histories(e):
    n, nt, h = e.dim('n'), e.dim('nt'), e.dim('h')
    v = e.array('v', (nt, n))
    r = back(e, TimeHistory(v), TimeHistory)
    e.eq('time history', r.time_history, v)
    t = e.array('t', nt)
    last = e.flag('time_last')
    a = e.array('a', (n, h, nt)) if last else e.array('b', (nt, n, h))
    o = SpatioTempArray(a, t, time_axis=-1 if last else 0)
    at = (lambda k, i, j: a[i, j, k]) if last else (lambda k, i, j: a[k, i, j])
    e.eq_fn('time first inside', o.array, (nt, n, h), at)
    r = back(e, o, SpatioTempArray, 's.fits')
    e.eq_fn('array', r.array, (nt, n, h), at)
    e.eq('times', r.time_vector, t)


@harness('C12', funcs=sr('source', 'Source', 'get_fits_header', 'from_header'))
def source(e):
    r0, phi, mag, lam, zp, e0, e1 = [e.real(k) for k in ('r', 'phi', 'mag', 'lam', 'zp', 'e0', 'e1')]
    height = float('inf') if e.flag('infinite') else e.real('height', 1000, 1e6)
    band = e.choice('band', ['', 'R'])
    s = Source([r0, phi], mag, lam, height=height, band=band, zero_point=zp, error_coord=(e0, e1))
    r = back(e, s, Source)
    e.eq('coordinates (with the error applied once)', (r.polar_coordinates[0], r.polar_coordinates[1]), (r0 + e0, phi + e1))
    e.eq('magnitude, wavelength, zero point', (r.magnitude, r.wavelengthInNm, r.zero_point), (mag, lam, zp))
    e.ensure('height', r.height == height)
    e.ensure('band', r.band == band)
    r2 = back(e, r, Source, 'again.fits')
    e.eq('saved again', (r2.polar_coordinates[0], r2.polar_coordinates[1]), (r0 + e0, phi + e1))


@harness('C12', funcs=sr('laser_launch_telescope', 'LaserLaunchTelescope', 'get_fits_header', 'from_header') + sr('lenslet', 'Lenslet', 'get_fits_header', 'from_header'))
def instruments(e):
    v = [e.real(k) for k in ('spot', 'x', 'y', 'z', 'foc', 't0', 't1')]
    za = e.choice('zenith', [0.0, 30.0, 60.0])
    o = LaserLaunchTelescope(SimulParams(zenithAngleInDeg=za), spot_size=v[0], tel_position=v[1:4], beacon_focus=v[4],
                             beacon_tt=v[5:7])
    r = back(e, o, LaserLaunchTelescope)
    e.eq('spot size', r.spot_size, v[0])
    e.eq('position', list(r.tel_pos), v[1:4])
    e.eq('focus (with the airmass applied once)', r.beacon_focus, o.beacon_focus)
    e.eq('tilts', list(r.beacon_tt), v[5:7])
    n = e.choice('n', [1, 2, 5])
    lens = Lenslet(n)
    r = back(e, lens, Lenslet, 'l.fits')
    e.ensure('lenses', r.n_lenses == n)
    for i in range(n):
        for j in range(n):
            e.eq('lens positions', list(r.get(i, j)), list(lens.get(i, j)))


@harness('C12', funcs=sr('iir_filter_data', 'IirFilterData') + sr('ssr_filter_data', 'SsrFilterData'))
def filters(e):
    n, p, q = e.choice('n', [1, 2]), e.choice('p', [1, 2, 3]), e.choice('q', [1, 3])
    num, den = e.array('num', (n, p)), e.array('den', (n, q))
    on = [p] * n
    od = [q] * n
    short = e.flag('shorter') and p > 1
    if short:
        on[-1] = p - 1                  # a filter of lower order, given left-aligned
        num[n - 1, p - 1] = 0
        e.assume(num[n - 1, p - 2] != 0)
    f = IirFilterData(on, od, num, den)
    n0, d0 = e.snap(f.num), e.snap(f.den)
    r = back(e, f, IirFilterData)
    e.eq('numerator', r.num, n0)
    e.eq('denominator', r.den, d0)
    e.eq('denominator', r.den, den)
    e.eq('orders of the numerators', list(r.ordnum), on)
    e.eq('orders of the denominators', list(r.ordden), od)
    s, ni, no = e.dim('s'), e.dim('ni'), e.dim('no')
    A, B, C, Dm = e.array('A', (s, s)), e.array('B', (s, ni)), e.array('C', (ni, s)), e.array('D', (ni, ni))
    r = back(e, SsrFilterData(A, B, C, Dm), SsrFilterData, 's.fits')
    e.eq('A', r.A, A)
    e.eq('B', r.B, B)
    e.eq('C', r.C, C)
    e.eq('D', r.D, Dm)


@harness('C12', funcs=[D + 'convolution_kernel.py:ConvolutionKernel.' + m for m in ('save', 'restore', 'get_fits_header', 'from_header', 'process_kernels')] +
         [D + 'gaussian_convolution_kernel.py:GaussianConvolutionKernel.restore'], mode='bounded')
def kernels(e):
    n, d = e.choice('n', [1, 2]), e.choice('d', [1, 2])
    px, spot = e.real('px', 0.1, 2), e.real('spot', 0.1, 2)
    v = e.array('v', (n * n, d, d), lo=1, hi=9)
    gauss = e.flag('gaussian')
    cls = GaussianConvolutionKernel if gauss else ConvolutionKernel
    mk = (lambda: cls(n, n, px, d, spot, return_fft=False)) if gauss else (lambda: cls(n, n, px, 8.0, d, return_fft=False))
    o = mk()
    o.spot_size = spot
    o.set_value(v)
    k0 = e.snap(o.kernels)
    fn = e.tmpfile('k.fits')
    o.save(fn)
    given = e.flag('into_object')
    if given:
        t = mk()
        t.spot_size = spot
        if e.flag('released'):
            t.real_kernels = None
        r = cls.restore(fn, kernel_obj=t)
        e.ensure('restored into the given object', r is t)
    else:
        r = cls.restore(fn)
    tot = lambda i: e.sum(d, lambda a: e.sum(d, lambda b: v[i, a, b]))
    # kernels are stored with the two lens indices exchanged, normalised to unit sum
    for i in range(n):
        for j in range(n):
            e.eq_fn('kernel of each lens', r.kernels[j * n + i] if given else e.np.real(r.kernels[j * n + i]), (d, d),
                    lambda a, b: v[i * n + j, a, b] / tot(i * n + j))
    e.eq('same kernels as before saving', e.np.real(r.kernels), k0)
    e.eq('scale, spot', (r.pxscale, r.spot_size), (px, spot))
    e.ensure('sizes', (r.dimx, r.dimy, r.dimension, r.oversampling, r.positive_shift_tt) == (n, n, d, 1, True))


@harness('C12', funcs=sr('../base_value', 'BaseValue')[:0] + ['base_value.py:BaseValue.save', 'base_value.py:BaseValue.restore'])
def base_value(e):
    n = e.dim('n')
    v = e.array('v', n)
    r = back(e, BaseValue(value=v), BaseValue)
    e.eq('value', r.value, v)
