"""C24: wavefront sensors record the image that diffraction predicts."""
import math
import numpy as np
from pvc.api import harness
from contracts.common import step, wire, val, raises_iff
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.laser_launch_telescope import LaserLaunchTelescope
from specula.data_objects.simul_params import SimulParams
import specula.processing_objects.sh as sh_module
import specula.processing_objects.modulated_pyramid as pyr_module
from specula.processing_objects.modulated_pyramid import ModulatedPyramid
from specula.processing_objects.modulated_double_roof import ModulatedDoubleRoof
from specula.processing_objects.sh import SH
from specula.processing_objects.distributed_sh import DistributedSH
from specula.processing_objects.zernike_sensor import ZernikeSensor
import specula.processing_objects.curvature_sensor as cw_module
from specula.processing_objects.curvature_sensor import CurvatureSensor
from specula.lib.make_mask import make_mask
from specula.lib.zernike_generator import ZernikeGenerator
from specula.processing_objects.ext_source_pyramid import ExtSourcePyramid
import specula.processing_objects.ideal_derivative_sensor as ideal_module
from specula.processing_objects.ideal_derivative_sensor import IdealDerivativeSensor
from specula.processing_objects.poly_chrom_wfs import PolyChromWFS
from specula.processing_objects.poly_chrom_sh import PolyChromSH
from specula.processing_objects.poly_crom_pyramid import PolyCromPyramid
import specula.processing_objects.ciao_ciao_sensor as ciao_module
from specula.processing_objects.ciao_ciao_sensor import CiaoCiaoSensor
from specula.data_objects.subap_data import SubapData
from specula.data_objects.intensity import Intensity
from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
from specula.connections import InputValue
from specula import RAD2ASEC

PO = 'processing_objects/'
SHF = [PO + 'sh.py:SH.' + f for f in ('trigger_code', 'post_trigger', 'prepare_trigger')] + [PO + 'sh.py:abs2']
S = 10 ** 9


class Given:
    """Stands for the field interpolator (see C21): the field on the grid of the sensor is the given one."""

    def __init__(self, f):
        self.f = f

    def interpolate(self):
        pass

    def interpolated_ef(self):
        return self.f


def field(e, name, n, m=None, amp=True):
    f = ElectricField(n, n if m is None else m, 0.1)
    if amp:
        f.A[:] = e.array(name + '_A', f.A.shape, lo=0)
    f.phaseInNm[:] = e.array(name + '_P', f.A.shape)
    return f


def power(e, u):
    return e.np.real(u * e.np.conj(u))


class Kernels:
    """Stands for the convolution kernels of a laser guide star (see C12)."""

    def __init__(self, kernels, e):
        self.kernels, self.e, self.got = kernels, e, None

    def prepare_for_sh(self, **k):
        self.got = k


def lenslet_array(e, laser=None):
    """A Shack-Hartmann sensor of 2x2 lenses on arbitrary grids, its input field, and the image it hands to the detector."""
    nl = 2
    s = e.dim('s')
    C = e.dim('C', 1, 4)
    odd = e.choice('odd', [None, 0, 1])
    h = 0 if odd is None else e.dim('h', 1, 3)
    cut = 2 * h + (odd or 0)
    F = C + cut
    e.assume(F >= s)
    side = 2
    wl = 600.0
    o = SH(wl, 1.0, 0.5, nl, side // nl, laser_launch_tel=laser)
    ef = field(e, 'f', nl * s)
    entry = field(e, 'in', 3)
    entry.S0 = e.real('S0', 0, 10)
    entry.generation_time = S
    wire(o, in_ef=entry)
    e.setattr(o, 'ef_interpolator', Given(ef))
    tilt, mask = e.array('tilt', (s, s), kind='c'), e.array('mask', (F, F))
    z, c = e.np.zeros, e.np.complex128
    for k, v in (('_ovs_np_sub', s), ('_wf3', z((nl, F, F), dtype=c)), ('ef_row', z((s, nl * s), dtype=c)), ('psf', z((nl, F, F))),
                 ('psf_shifted', z((nl, F, F))), ('_tltf', tilt), ('_fp_mask', mask), ('_cutpixels', cut), ('_cutsize', C),
                 ('_psf_reshaped_2d', z((C, C * nl))), ('_psfimage', z((C * nl, C * nl))), ('subap_rows_slice', slice(0, nl))):
        e.setattr(o, k, v)
    seen = []
    ccd = e.array('ccd', (side, side), lo=0)

    def toccd(a, size, **k):
        seen.append((a.copy(), size))
        return ccd.copy()
    e.setattr(sh_module, 'toccd', toccd)
    u = ef.A * e.np.exp(1j * (ef.phaseInNm * (2 * e.np.pi / wl)))

    def spot(i, j):
        p = z((F, F), dtype=c)
        p[:s, :s] = u[i * s:(i + 1) * s, j * s:(j + 1) * s] * tilt
        return power(e, e.np.fft.fft2(p))
    return o, entry, spot, mask, seen, ccd, (nl, F, C, h)


@harness('C24', funcs=SHF, trials=60)
def shack_hartmann_image(e):
    """Each lens forms the squared modulus of the transform of its part of the field, cut to the field of view of its pixels."""
    o, entry, spot, mask, seen, ccd, (nl, F, C, h) = lenslet_array(e)
    step(o, S)
    image, size = seen[0]
    e.eq('size of the frame', size, (2, 2))
    for i in range(nl):
        for j in range(nl):
            want = e.np.fft.fftshift(spot(i, j)) * mask
            e.eq('spot', image[i * C:(i + 1) * C, j * C:(j + 1) * C], want[h:h + C, h:h + C])
    e.eq('flux of the source', o.outputs['out_i'].i, ccd * (entry.S0 * entry.masked_area() / e.np.sum(ccd)))
    e.eq('time', o.outputs['out_i'].generation_time, S)


@harness('C24', funcs=SHF + [PO + 'sh.py:SH._prepare_kernels'], trials=60)
def laser_spots(e):
    """With a laser guide star each spot is convolved with the kernel of its subaperture, prepared for the sodium layer of the moment."""
    far = e.flag('launched')
    llt = LaserLaunchTelescope(SimulParams(pixel_pupil=4, pixel_pitch=0.1, zenithAngleInDeg=60.0), 1.0, [1.0, 2.0, 0.0] if far else [])
    o, entry, spot, mask, seen, ccd, (nl, F, C, h) = lenslet_array(e, llt)
    kern = Kernels(e.array('kernel', (nl * nl, F, F), kind='c'), e)
    e.setattr(o, '_kernelobj', kern)
    alt, prof = e.array('alt', (3,)), e.array('prof', (3,))
    if far:
        wire(o, sodium_altitude=val(alt, S), sodium_intensity=val(prof, S))
    step(o, S)
    e.eq('sodium layer', (kern.got['sodium_altitude'], kern.got['sodium_intensity']), (alt * llt.airmass, prof) if far else (None, None))
    e.eq('instant', kern.got['current_time'], S)
    image, size = seen[0]

    def lens(i, j):
        return (e.np.real(e.np.fft.ifft2(e.np.fft.fft2(spot(i, j)) * kern.kernels[i * nl + j])) * mask)[h:h + C, h:h + C]
    # the scale common to all lenses does not matter (the flux is set afterwards)
    k, q = (F * F, 1) if e.symbolic else (image[0, 0], lens(0, 0)[0, 0])
    for i in range(nl):
        for j in range(nl):
            e.eq('spot', image[i * C:(i + 1) * C, j * C:(j + 1) * C] * q, lens(i, j) * k, tol=1e-6)


def shack(e, n, pitch, nl, npx, wl, fov, pxs, **k):
    o = SH(wl, fov, pxs, nl, npx, **k)
    f = ElectricField(n, n, pitch)
    f.S0 = 10.0
    f.generation_time = S
    wire(o, in_ef=f)
    return o, f


def spots(i, nl):
    """Centre of gravity (row, column) of each spot, relative to the centre of its subaperture, in pixels."""
    q = i.shape[0] // nl
    c = np.arange(q) - (q - 1) / 2
    b = i.reshape(nl, q, nl, q).swapaxes(1, 2)
    t = b.sum(axis=(2, 3))
    return np.stack([(b.sum(axis=3) * c).sum(axis=2) / t, (b.sum(axis=2) * c).sum(axis=2) / t], axis=-1)


@harness('C24', funcs=[PO + 'sh.py:SH.' + f for f in ('__init__', 'setup', '_set_in_ef', '_calc_geometry', '_get_tlt_f', '_zeros_common')] + SHF,
         mode='test', trials=8, name='shack_hartmann_geometry')
def shack_hartmann_geometry(e):
    """Flat field: centred equal spots; a tilt moves them by tilt / pixel scale along its axis; frames do not depend on other sensors."""
    n, pitch, nl, npx, wl, fov, pxs = e.choice('case', [(32, 0.05, 4, 10, 600, 4.0, 0.4), (40, 0.1, 4, 8, 750, 3.0, 0.375), (36, 0.05, 6, 6, 600, 6.0, 1.0),
                                                        (24, 0.1, 2, 12, 600, 1.2, 0.1), (30, 0.1, 4, 8, 600, 3.2, 0.4)])
    o, f = shack(e, n, pitch, nl, npx, wl, fov, pxs)
    o.setup()
    scale = o._sensor_pxscale * 206264.806
    e.ensure('pixel scale close to the one requested', abs(scale / pxs - 1) < 0.1)
    step(o, S)
    i0 = o.outputs['out_i'].i.copy()
    e.eq('size', i0.shape, (nl * npx, nl * npx))
    e.eq('flux', i0.sum(), f.S0 * f.A.sum() * pitch ** 2, tol=1e-6)
    c0 = spots(i0, nl)
    e.ensure('spots centred', bool(np.all(np.abs(c0) < 0.05)))
    t = i0.reshape(nl, npx, nl, npx).sum(axis=(1, 3))
    e.eq('equal subapertures', t, np.full((nl, nl), t.mean()), tol=1e-3)
    move = e.choice('pixels', [0.5, 1.0, -1.0])
    axis = e.choice('axis', [0, 1])
    ramp = np.arange(n) * pitch * 1e9 * move * scale / 206264.806
    f.phaseInNm[:] = ramp[:, None] if axis == 0 else ramp[None, :]
    # another sensor with other subapertures works in between
    o2, f2 = shack(e, n, pitch, nl * 2 if n % (nl * 2) == 0 else nl, npx, wl, fov, pxs, fov_ovs_coeff=1.0)
    o2.setup()
    step(o2, S)
    f.generation_time = 2 * S
    step(o, 2 * S)
    i1 = o.outputs['out_i'].i
    c1 = spots(i1, nl) - c0
    e.ensure('spots follow the tilt', bool(np.all(np.abs(c1[..., axis] - move) < 0.12)))
    e.ensure('and only along its axis', bool(np.all(np.abs(c1[..., 1 - axis]) < 0.05)))
    f.phaseInNm[:] = 0
    f.generation_time = 3 * S
    step(o, 3 * S)
    e.eq('same frame for the same field', o.outputs['out_i'].i, i0, tol=1e-9)


@harness('C24', funcs=[PO + 'sh.py:SH._zeros_common', PO + 'sh.py:SH._calc_geometry', PO + 'sh.py:SH.setup'] + SHF, mode='test', trials=4)
def sensors_do_not_mix(e):
    """Two sensors with equal transform size and different sampling, working in turn, give the frames each gives alone."""
    kinds = [dict(fov=0.5, pxs=0.05, fov_ovs_coeff=1.0), dict(fov=1.0, pxs=0.1, fov_ovs_coeff=2.0)]
    n, nl = 64, 4
    phase = [e.array(f'P{k}', (n, n), lo=-99, hi=99) for k in range(2)]

    def frame(o, f, k, t):
        f.phaseInNm[:] = phase[k]
        f.generation_time = t
        step(o, t)
        return o.outputs['out_i'].i.copy()
    alone = []
    for k in range(2):
        sh_module.SH._SH__zeros_cache.clear() if hasattr(sh_module.SH, '_SH__zeros_cache') else None
        o, f = shack(e, n, 0.05, nl, 10, 600, **kinds[k])
        o.setup()
        alone.append(frame(o, f, k, S))
    both = [shack(e, n, 0.05, nl, 10, 600, **kinds[k]) for k in range(2)]
    for o, f in both:
        o.setup()
    for t in (S, 2 * S):
        for k in (0, 1):
            e.eq('frame of the sensor', frame(*both[k], k, t), alone[k], tol=1e-9)


@harness('C24', funcs=[PO + 'sh.py:SH._set_in_ef'], mode='test', trials=6)
def shack_hartmann_errors(e):
    o, f = shack(e, 32, 0.05, 4, 10, 600, 4.0, 0.1, set_fov_res_to_turbpxsc=True)
    e.raises('turbulence scale coarser than the pixels', ValueError, lambda: o.setup())
    e.ensure('one lens at least', SH(600, 1.0, 0.1, 1, 4).outputs['out_i'].i.shape == (4, 4))


@harness('C24', funcs=[PO + 'distributed_sh.py:DistributedSH.' + f for f in ('__init__', 'setup', 'check_ready', 'prepare_trigger', 'trigger', 'trigger_code', 'post_trigger')],
         mode='test', trials=14)
def distributed_sensor(e):
    """Work divided in slices of rows gives the frame of the undivided sensor, frame by frame."""
    nl, q = e.choice('lenses', [(4, 1), (4, 2), (4, 3), (5, 2), (6, 4)])
    n = 8 * nl
    kind = e.choice('guide star', ['natural', 'natural', 'laser', 'launched'])
    k, ins = dict(fov_ovs_coeff=1.5), {}
    if kind != 'natural':
        par = SimulParams(pixel_pupil=n, pixel_pitch=0.05)
        k['laser_launch_tel'] = LaserLaunchTelescope(par, 1.0, [4.0, 2.0, 0.0] if kind == 'launched' else [], beacon_focus=90e3, beacon_tt=[0.0, 0.0])
        if kind == 'launched':
            ins = dict(sodium_altitude=val(np.array([85e3, 90e3, 96e3])), sodium_intensity=val(np.array([0.2, 0.5, 0.3])))
    o, f = shack(e, n, 0.05, nl, 6, 600, 3.0, 0.5, **k)
    d = DistributedSH(600, 3.0, 0.5, nl, 6, n_slices=q, **k)
    wire(o, **ins)
    wire(d, in_ef=f, **ins)
    o.setup()
    d.setup()
    for t in (1, 2, 3):
        f.A[:] = e.array(f'A{t}', (n, n), lo=0.5, hi=2)
        f.phaseInNm[:] = e.array(f'P{t}', (n, n), lo=-99, hi=99)
        f.S0 = float(t)
        for x in [f] + list(ins.values()):
            x.generation_time = t * S
        o.check_ready(t * S), o.trigger(), o.post_trigger()
        d.check_ready(t * S), d.trigger(), d.post_trigger()
        e.eq('same frame', d.outputs['out_i'].i, o.outputs['out_i'].i, tol=1e-6)
        e.eq('same instant', d.outputs['out_i'].generation_time, t * S)


PYF = [PO + 'modulated_pyramid.py:ModulatedPyramid.' + f for f in ('prepare_trigger', 'trigger_code', 'post_trigger')] + \
      [PO + 'modulated_pyramid.py:pyr1_fused', PO + 'modulated_pyramid.py:pyr1_abs2']


def pyramid_on(e, cls, kind, sides, names):
    """A pyramid-like sensor on arbitrary grids: every optical element is an arbitrary array."""
    internal, ccd, M = sides
    o = cls(SimulParams(pixel_pupil=2, pixel_pitch=0.1), 600.0, 1.0, 2, 6, pup_dist=2, pup_margin=0, min_pup_dist=0, mod_amp=0.0, **kind)
    p, T, pad = e.dim('p', 1, 3), e.dim('T', 1, 7), e.int('pad', 0, 3)
    e.assume(T >= p + pad)
    f = field(e, 'f', p)
    entry = field(e, 'in', 3)
    entry.S0 = e.real('S0', 0, 10)
    entry.generation_time = S
    wire(o, in_ef=entry)
    z, c = e.np.zeros, e.np.complex128
    R = 2 if o.mod_type == 'alternating' else 1
    ffv = e.array('weights', (M,), lo=0.1, hi=2)
    el = dict(ef_interpolator=Given(f), ef=z((p, p), dtype=c), tlt_f=e.array('shift', (p, p), kind='c'), ttexp=e.array('modulation', (R, M, p, p), kind='c'),
              ttexp_shape=(M, p, p), u_tlt=z((M, T, T), dtype=c), ffv=ffv[:, None, None], factor=1 / e.np.sum(ffv), mod_steps=M, ifft_norm=1.0 / (T * T),
              fp_mask=e.array('stop', (T, T)), roll_array=[pad, pad], toccd_side=internal, final_ccd_side=ccd, fft_totsize=T)
    for k in names:
        el[k] = e.array(k, (T, T), kind='c')
    for k in ('fpsf', 'pyr_image', 'pup_pyr_tot', 'roof1_image', 'roof2_image'):
        if hasattr(o, k):
            el[k] = z((T, T))
    o.ef_interpolator = o.ffv = None        # created at set-up
    for k, v in el.items():
        e.setattr(o, k, v)
    o.psf_tot.value, o.psf_bfm.value = z((T, T)), z((T, T))
    o.out_i.i = z((ccd, ccd))
    seen = []
    frame = e.array('frame', (internal, internal), lo=0)

    def toccd(a, size, **k):
        seen.append((a.copy(), size))
        return frame.copy()
    e.setattr(pyr_module, 'toccd', toccd)
    u = f.A * e.np.exp(1j * (f.phaseInNm * (2 * e.np.pi / 600))) * el['tlt_f']
    return o, entry, u, el, ffv, seen, frame, (p, pad, T, M)


def detector_of(e, o, entry, seen, frame, image, sides, tol=1e-9):
    """The image, scaled to the flux transmitted, binned and placed on the detector."""
    internal, ccd, M = sides
    got, size = seen[0]
    flux = entry.S0 * entry.masked_area() / e.np.sum(image) * o.outputs['out_transmission'].value[0]
    e.eq('pupil images, flux of the source times transmission', got, image * flux, tol=tol)
    e.eq('size of the detector image', size, (internal, internal))
    want = e.np.zeros((ccd, ccd))
    if ccd >= internal:
        k = (ccd - internal) // 2
        want[k:k + internal, k:k + internal] = frame
    else:
        k = (internal - ccd) // 2
        want = frame[k:k + ccd, k:k + ccd]
        e.eq('fraction on the detector', o.outputs['out_flux_frac_inside_detector'].value, [e.np.sum(want) / e.np.sum(frame)])
    if ccd >= internal:
        e.eq('all light on the detector', o.outputs['out_flux_frac_inside_detector'].value, [1])
    e.eq('frame', o.outputs['out_i'].i, want)
    for x in o.outputs:
        e.eq('time', o.outputs[x].generation_time, S)


@harness('C24', funcs=PYF, trials=60)
def pyramid_image(e):
    """Sum over the modulation of the power behind the pyramid; focal plane images and transmission; placed on the detector."""
    mod, sides = e.choice('case', [('circular', (3, 3, 2)), ('vertical', (2, 5, 1)), ('horizontal', (5, 2, 2)), ('alternating', (3, 4, 2))])
    o, entry, u, el, ffv, seen, frame, (p, pad, T, M) = pyramid_on(e, ModulatedPyramid, dict(mod_type=mod), sides, ['shifted_masked_exp'])
    odd = e.flag('odd') if mod == 'alternating' else 0
    past = 2 * e.int('frames seen', 0, 9) + odd if mod == 'alternating' else 0
    o.iter[0] = past
    step(o, S)
    e.eq('frames counted', o.iter[0], past + 1 if mod == 'alternating' else 0)
    image, psf = e.np.zeros((T, T)), e.np.zeros((T, T))
    for k in range(M):
        v = e.np.zeros((T, T), dtype=e.np.complex128)
        v[:p, :p] = u * el['ttexp'][1 if odd else 0, k]
        fp = e.np.fft.fft2(v)
        psf = psf + power(e, fp) * ffv[k]
        image = image + power(e, e.np.fft.ifft2(fp * el['shifted_masked_exp'])) * ffv[k]
    before = e.np.fft.fftshift(psf) / e.np.sum(ffv)
    e.eq('focal plane before the stop', o.outputs['out_psf_bfm'].value, before, tol=1e-9)
    e.eq('focal plane after the stop', o.outputs['out_psf_tot'].value, before * el['fp_mask'], tol=1e-9)
    e.eq('transmission', o.outputs['out_transmission'].value, [e.np.sum(o.outputs['out_psf_tot'].value) / e.np.sum(o.outputs['out_psf_bfm'].value)])
    detector_of(e, o, entry, seen, frame, e.np.roll(image, (pad, pad), (0, 1)), sides)


@harness('C24', funcs=[PO + 'modulated_double_roof.py:ModulatedDoubleRoof.' + f for f in ('trigger_code', '_combine_roof_images')] + PYF, trials=60)
def double_roof_image(e):
    """One pair of pupils behind each roof, the second turned by a quarter; the focal plane is seen by both."""
    sides = e.choice('case', [(3, 3, 2), (2, 5, 1), (5, 2, 1)])
    o, entry, u, el, ffv, seen, frame, (p, pad, T, M) = pyramid_on(e, ModulatedDoubleRoof, {}, sides, ['shifted_masked_exp_roof1', 'shifted_masked_exp_roof2'])
    e.setattr(o, 'ttexp', el['ttexp'])
    step(o, S)
    z = e.np.zeros
    one, two, psf = z((T, T)), z((T, T)), z((T, T))
    for k in range(M):
        v = z((T, T), dtype=e.np.complex128)
        v[:p, :p] = u * el['ttexp'][0, k]
        fp = e.np.fft.fft2(v)
        psf = psf + 2 * (power(e, fp) * ffv[k])
        one = one + power(e, e.np.fft.ifft2(fp * el['shifted_masked_exp_roof1'])) * ffv[k]
        two = two + power(e, e.np.fft.ifft2(fp * el['shifted_masked_exp_roof2'])) * ffv[k]
    before = e.np.fft.fftshift(psf) / e.np.sum(ffv)
    e.eq('focal plane before the stop', o.outputs['out_psf_bfm'].value, before, tol=1e-9)
    e.eq('focal plane after the stop', o.outputs['out_psf_tot'].value, before * el['fp_mask'], tol=1e-9)
    e.eq('transmission', o.outputs['out_transmission'].value, [e.np.sum(o.outputs['out_psf_tot'].value) / e.np.sum(o.outputs['out_psf_bfm'].value)])
    image = e.np.roll(one, (pad, pad), (0, 1)) + e.np.rot90(e.np.roll(two, (pad, pad), (0, 1)))
    detector_of(e, o, entry, seen, frame, image, sides)


CT = [PO + 'modulated_pyramid.py:ModulatedPyramid.cache_ttexp', PO + 'modulated_pyramid.py:ModulatedPyramid.__init__']


@harness('C24', funcs=CT, trials=60)
def modulation(e):
    """Tilts of the modulation path, one for each step, and their weights; the automatic number of steps."""
    kind, steps, amp = e.choice('case', [('circular', 4, 0.5), ('circular', None, 1.0), ('circular', None, 0.0), ('vertical', 3, 0.25), ('horizontal', None, 1.0),
                                         ('alternating', 5, 0.5), ('vertical', None, 0.2), ('horizontal', 1, 0.0), ('alternating', 2, 0.25)])
    o = ModulatedPyramid(SimulParams(pixel_pupil=2, pixel_pitch=0.1), 600.0, 1.0, 2, 6, pup_dist=2, pup_margin=0, min_pup_dist=0,
                         mod_amp=amp, mod_step=steps, mod_type=kind)
    n = e.dim('n')
    tx, ty = e.array('tilt_x', (n, n)), e.array('tilt_y', (n, n))
    e.setattr(o, 'tilt_x', tx)
    e.setattr(o, 'tilt_y', ty)
    o.cache_ttexp()
    M = steps or {'circular': max(1, round(2 * amp) * 4)}.get(kind, 2 * round(amp) + 1)
    R = 2 if kind == 'alternating' else 1
    e.eq('steps', (o.mod_steps, o.ttexp.shape), (M, (R, M, n, n)))
    pi = e.np.pi
    w = []
    for r in range(R):
        for k in range(M):
            if kind == 'circular':
                a = 2 * pi * e.np.asarray(k) / M
                t = amp * (e.np.sin(a) * tx + e.np.cos(a) * ty)
            else:
                at = amp * (2 * k / (M - 1) - 1) if M > 1 else 0
                t = at * (tx if kind == 'horizontal' or r == 1 else ty)
            e.eq('tilt of the step', o.ttexp[r, k], e.np.exp(-1j * t), tol=1e-9)
    for k in range(M):
        if kind == 'circular' or M == 1:
            w.append(1)
        else:
            lo, hi = max(-amp, amp * (2 * (k - 0.5) / (M - 1) - 1)), min(amp, amp * (2 * (k + 0.5) / (M - 1) - 1))
            w.append(1 / math.cos(math.pi / 2 * abs(lo + hi) / 2 / amp))
    if not e.symbolic:
        e.eq('weights', o.flux_factor_vector, np.array(w), tol=1e-6)
        e.eq('normalisation', o.factor, 1 / sum(w), tol=1e-6)
    e.eq('weights by step', o.ffv[:, 0, 0], o.flux_factor_vector)


@harness('C24', funcs=CT, mode='proof', trials=3)
def modulation_errors(e):
    def make(**k):
        return ModulatedPyramid(SimulParams(pixel_pupil=2, pixel_pitch=0.1), 600.0, 1.0, 2, k.pop('out', 6), **{**dict(pup_dist=2, pup_margin=0, min_pup_dist=0), **k})
    e.raises('kind', ValueError, lambda: make(mod_type='square'))
    e.raises('no step', ValueError, lambda: make(mod_step=0))
    e.raises('negative', ValueError, lambda: make(mod_step=-2))
    e.raises('fraction', ValueError, lambda: make(mod_step=2.5))
    e.raises('too few', ValueError, lambda: make(mod_amp=3.0, mod_step=18))
    e.raises('pupils too near', ValueError, lambda: make(pup_dist=3, min_pup_dist=None, pup_margin=2))
    e.raises('detector too small', ValueError, lambda: make(out=3))
    e.raises('face angles', NotImplementedError, lambda: make(pyr_tlt_coeff=1.0))


# ---------------------------------------------------------------- pyramid geometry


def pyramid(e, cls, n=48, wl=600, **k):
    o = cls(SimulParams(pixel_pupil=n, pixel_pitch=0.1), wl, 1.0, k.pop('pup_diam'), k.pop('out'), **k)
    f = ElectricField(n, n, 0.1)
    f.A[:] = make_mask(n)
    f.S0 = 100.0
    f.generation_time = 1
    wire(o, in_ef=f)
    o.setup()
    return o, f


def record(o, f, phase=0.0, t=1):
    f.phaseInNm[:] = phase
    f.generation_time = t
    step(o, t)
    return o.outputs['out_i'].i.copy()


def pupils(image, diam, dist):
    """Flux (fraction), centre (from where it must be) and width of the four pupil images; rows down, columns across."""
    out = len(image)
    y, x = np.mgrid[:out, :out] - (out - 1) / 2
    res = []
    for sy in (-1, 1):
        for sx in (-1, 1):
            w = image * (np.hypot(y - sy * dist / 2, x - sx * dist / 2) < diam / 2 + 1)
            cen = [(w * y).sum() / w.sum() - sy * dist / 2, (w * x).sum() / w.sum() - sx * dist / 2]
            area = (w > w.max() / 2).sum()
            res.append((w.sum() / image.sum(), cen, 2 * math.sqrt(area / math.pi)))
    return [np.array(q) for q in zip(*res)]


GEO = [PO + 'modulated_pyramid.py:ModulatedPyramid.' + f for f in (
    '__init__', 'setup', 'calc_pyr_geometry', 'get_pyr_tlt', 'get_tlt_f', 'get_fp_mask', 'minmax', 'cache_ttexp', 'set_modulated_pyramid', 'set_extended_source')] + PYF


@harness('C24', funcs=GEO + [PO + 'modulated_double_roof.py:ModulatedDoubleRoof.' + f for f in ('__init__', 'setup', 'get_pyr_tlt', 'trigger_code')], mode='test', trials=18)
def pyramid_geometry(e):
    """Four equal pupils of the wanted diameter and distance; a tilt moves light between the faces along its axis and only there."""
    roof = e.flag('double roof')
    diam, dist, out, mod, wl = e.choice('case', [(8, 12, 30, 3.0, 600), (8, 20, 40, 3.0, 750), (10, 14, 32, 4.0, 600), (8, 16, 32, 3.0, 500)])
    along = e.choice('axis', [0, 1])
    slope = e.real('nm per pixel', 4, 9) * e.choice('sign', [1, -1])
    o, f = pyramid(e, ModulatedDoubleRoof if roof else ModulatedPyramid, wl=wl, pup_diam=diam, pup_dist=dist, out=out, mod_amp=mod)
    flat = record(o, f)
    flux, cen, width = pupils(flat, diam, dist)
    e.eq('flux', flat.sum(), 100.0 * f.masked_area() * o.outputs['out_transmission'].value[0] * o.outputs['out_flux_frac_inside_detector'].value[0], tol=1e-9)
    e.ensure('transmission', 0.9 < o.outputs['out_transmission'].value[0] <= 1 + 1e-9)
    e.ensure('pupils where the distance puts them', abs(cen).max() < 0.2)
    e.ensure('pupils as large as asked', abs(width - diam).max() < 0.9)
    e.eq('equal pupils', flux / flux[0], [1, 1, 1, 1], tol=1e-3)
    e.ensure('light in the pupils', flux.sum() > 0.94)
    ramp = np.indices((48, 48))[along] * slope
    tilted = record(o, f, ramp, t=2)
    g = pupils(tilted, diam, dist)[0]
    e.eq('same light', tilted.sum(), flat.sum(), tol=1e-3)
    up, down, left, right = (g[0] + g[1], g[2] + g[3], g[0] + g[2], g[1] + g[3])
    if roof:
        pair, other = (g[:2], g[2:]) if along else (g[2:], g[:2])
        e.ensure('one pair of pupils sees the tilt', (pair[1] - pair[0]) * np.sign(slope) > 0.02)
        e.eq('the other does not', other, flux[:2], tol=2e-3)
    else:
        a, b = (left, right) if along else (up, down)
        same = (up, down) if along else (left, right)
        e.ensure('light moves to the pupils of the face', (a - b) * np.sign(slope) > 0.02)
        e.eq('nothing along the other axis', same[0], same[1], tol=2e-3)
    back = record(o, f, -ramp, t=3)
    e.eq('opposite tilt, opposite change', pupils(back, diam, dist)[0] - flux, -(g - flux), tol=6e-3)
    e.eq('no memory of earlier frames', record(o, f, t=4), flat, tol=1e-9)
    # modulation: the wider the circle, the smaller the change
    if not roof and mod == 3.0:
        wide, f2 = pyramid(e, ModulatedPyramid, wl=wl, pup_diam=diam, pup_dist=dist, out=out, mod_amp=2 * mod)
        h = pupils(record(wide, f2, ramp), diam, dist)[0]
        e.ensure('sensitivity falls with the modulation', 0.35 < abs(h - h.mean()).max() / abs(g - g.mean()).max() < 0.65)


@harness('C24', funcs=GEO, mode='test', trials=12)
def pyramid_options(e):
    """Shifts move the pupils; defects of the prism take light away and leave the pupils where they are; finer grids change nothing."""
    roof = e.flag('double roof')
    cls = ModulatedDoubleRoof if roof else ModulatedPyramid
    base = dict(pup_diam=8, pup_dist=12, out=30, mod_amp=3.0)
    o, f = pyramid(e, cls, **base)
    flat = record(o, f)
    light = pupils(flat, 8, 12)[0].sum()
    what = e.choice('option', ['shift', 'fine', 'pyr_edge_def_ld', 'pyr_tip_def_ld', 'pyr_tip_maya_ld'])
    if what == 'shift':
        if roof:
            return
        sx, sy = e.choice('shift', [(1.0, 0.0), (0.0, 1.0), (-1.0, 1.0)])
        p, g = pyramid(e, cls, pup_shifts=(sx, sy), **base)
        moved = record(p, g)
        y, x = np.mgrid[:30, :30]
        cen = [((im * x).sum() / im.sum(), (im * y).sum() / im.sum()) for im in (flat, moved)]
        e.eq('pupils moved', np.array(cen[1]) - np.array(cen[0]), [-sx, -sy], tol=0.3)
    elif what == 'fine':
        p, g = pyramid(e, cls, fft_res=6.0, **base)
        e.ensure('finer grid', p.fft_totsize > o.fft_totsize)
        e.eq('same image', record(p, g) / flat.max(), flat / flat.max(), tol=0.25)
        e.eq('same pupils', pupils(record(p, g, t=2), 8, 12)[0], pupils(flat, 8, 12)[0], tol=1e-2)
    else:
        p, g = pyramid(e, cls, **{what: 1.0}, **base)
        image = record(p, g)
        flux, cen, width = pupils(image, 8, 12)
        e.eq('all the light recorded', image.sum(), flat.sum(), tol=1e-2)
        e.ensure('pupils in place', abs(cen).max() < 0.35)
        e.ensure('no more light in the pupils than with a perfect prism', flux.sum() < light + 1e-3)


@harness('C24', funcs=[PO + 'zernike_sensor.py:ZernikeSensor.' + f for f in ('__init__', 'get_pyr_tlt')], mode='test', trials=10)
def zernike_sensor(e):
    """A disc in the focal plane retards the centre of the image by the given phase; a single pupil reinterferes."""
    radius, pi, res = e.real('radius', 0.5, 1.5), e.choice('delay', [0.5, 0.25, 1.0]), e.choice('fft', [4.0, 6.0])
    o, f = pyramid(e, ZernikeSensor, pup_diam=10, out=40, spot_radius_lambda=radius, phase_shift_pi=pi, fft_res=res)
    t = o.pyr_tlt
    e.eq('delay', np.unique(t), [0, pi / 2])
    y, x = np.mgrid[:len(t), :len(t)] - (len(t) - 1) / 2
    px = radius * o.fft_totsize / o.fft_sampling
    e.eq('disc of the given radius', t > 0, np.hypot(x, y) < px)
    flat = record(o, f)
    e.eq('flux', flat.sum(), 100.0 * f.masked_area() * o.outputs['out_transmission'].value[0] * o.outputs['out_flux_frac_inside_detector'].value[0], tol=1e-9)
    # without delay the sensor is an imager
    p, g = pyramid(e, ZernikeSensor, pup_diam=10, out=40, phase_shift_pi=0.0, fft_res=res)
    plain = record(p, g)
    area = (plain > plain.max() / 2).sum()
    e.ensure('image of the pupil', abs(2 * math.sqrt(area / math.pi) - 10) < 0.8)
    e.ensure('one pupil', plain[(np.hypot(*(np.mgrid[:40, :40] - 19.5)) < 6.5)].sum() > 0.95 * plain.sum())
    # small phases change the intensity linearly and with their sign
    bump = 6.0 * np.cos(2 * np.pi * np.arange(48) / 12)[None, :] * np.ones((48, 1))
    if pi == 0.5 and radius > 0.8:
        a, b = record(o, f, bump, t=2), record(o, f, -bump, t=3)
        e.ensure('responds to the phase', abs(a - b).max() > 0.05 * flat.max())
        # camera pixels where the phase is positive brighten (or all of them darken): the response is monotonic
        d = (a - b)[20]
        ref = -np.interp(np.arange(40), 19.5 + (np.arange(48) - 23.5) * 10 / 48, bump[0] * 1.0)[::1]
        mid = slice(16, 24)
        c = np.corrcoef(d[mid], ref[mid])[0, 1]
        e.ensure('follows the shape of the phase', abs(c) > 0.8)


# ---------------------------------------------------------------- curvature


@harness('C24', funcs=[PO + 'curvature_sensor.py:CurvatureSensor.' + f for f in ('prepare_trigger', 'trigger_code', 'post_trigger')] + [PO + 'curvature_sensor.py:abs2_cwfs'], trials=40)
def curvature_images(e):
    """Images on either side of the focus: opposite defocus, field stop, cut to the field, binned, photons of the source in each."""
    N = 6
    px, fov = 0.1, e.choice('fov', [0.4, 0.35, 0.6])
    o = CurvatureSensor(600.0, fov, px, 3, 100.0)
    f, entry = field(e, 'f', N), field(e, 'in', 3)
    entry.S0 = e.real('S0', 0, 10)
    entry.generation_time = S
    wire(o, in_ef=entry)
    c = e.np.complex128
    o.ef_interpolator = None
    e.setattr(o, 'ef_interpolator', Given(f))
    plus, minus, stop = e.array('plus', (N, N), kind='c'), e.array('minus', (N, N), kind='c'), e.array('stop', (N, N))
    for k, v in dict(ef_resampled=e.np.zeros((N, N), dtype=c), fp_plus=e.np.zeros((N, N), dtype=c), fp_minus=e.np.zeros((N, N), dtype=c),
                     _temp_i1=e.np.zeros((N, N)), _temp_i2=e.np.zeros((N, N)), exp_plus=plus, exp_minus=minus, detector_mask=stop,
                     internal_res=N, actual_internal_pxscale=px).items():
        e.setattr(o, k, v)
    seen, ccd = [], [e.array('ccd1', (3, 3), lo=0.1), e.array('ccd2', (3, 3), lo=0.1)]

    def toccd(a, size, **k):
        seen.append((a.copy(), size))
        return ccd[len(seen) - 1].copy()
    e.setattr(cw_module, 'toccd', toccd)
    step(o, S)
    u = f.A * e.np.exp(1j * (f.phaseInNm * (2 * e.np.pi / 600)))
    n = math.ceil(fov / px)
    k = (N - n) // 2
    phot = entry.S0 * entry.masked_area()
    for i, (d, out) in enumerate(((plus, 'out_i1'), (minus, 'out_i2'))):
        want = power(e, e.np.fft.fftshift(e.np.fft.fft2(u * d))) * stop
        e.eq('image through the defocus', seen[i][0], want[k:k + n, k:k + n])
        e.eq('size of the detector', seen[i][1], (3, 3))
        e.eq('photons', o.outputs[out].i, ccd[i] * (phot / e.np.sum(ccd[i])))
        e.eq('time', o.outputs[out].generation_time, S)


@harness('C24', funcs=[PO + 'curvature_sensor.py:CurvatureSensor.' + f for f in ('__init__', 'setup')], mode='test', trials=6)
def curvature_geometry(e):
    """Flat field: equal images, as wide as the defocus says; a positive curvature makes one smaller and the other larger."""
    amp = e.choice('rms nm', [150.0, 250.0])
    n = 32
    o = CurvatureSensor(600.0, 2.0, 0.04, 50, amp)
    f = ElectricField(n, n, 0.05)
    f.A[:] = make_mask(n)
    f.S0 = 10.0
    wire(o, in_ef=f)
    f.generation_time = 1
    o.setup()

    def both(t, phase):
        f.phaseInNm[:] = phase
        f.generation_time = t
        step(o, t)
        res = [o.outputs[k].i.copy() for k in ('out_i1', 'out_i2')]
        for im in res:
            e.eq('photons', im.sum(), 10.0 * f.masked_area(), tol=1e-9)
        return res

    def width(im):
        return im.sum() / math.sqrt((im * im).sum())
    a, b = both(1, 0.0)
    e.eq('same size', width(a), width(b), tol=2e-2)
    y, x = np.mgrid[:n, :n] - (n - 1) / 2
    focus = math.sqrt(3) * (2 * (x * x + y * y) / (n / 2) ** 2 - 1)
    e.eq('opposite defocus', o.exp_plus * o.exp_minus, np.ones_like(o.exp_plus), tol=1e-6)
    c, d = both(2, 0.5 * amp * focus)
    e.ensure('curvature: one image grows', width(c) > width(a) * 1.15)
    e.ensure('curvature: the other shrinks', width(d) < width(b) * 0.85)
    g, h = both(3, -0.5 * amp * focus)
    e.eq('opposite curvature: images exchange their roles', [width(g), width(h)], [width(d), width(c)], tol=0.05)


@harness('C24', funcs=[PO + 'curvature_sensor.py:CurvatureSensor.setup'], mode='test', trials=2, name='curvature_scale')
def curvature_scale(e):
    """A tilt moves the images by tilt / pixel scale."""
    n, px = 64, 0.02
    o = CurvatureSensor(600.0, 1.0, px, 50, 50.0)
    f = ElectricField(n, n, 0.05)
    f.A[:] = make_mask(n)
    f.S0 = 10.0
    wire(o, in_ef=f)
    o_t = e.real('tilt', 0.09, 0.11)
    f.generation_time = 1
    o.setup()
    x = np.mgrid[:50, :50][1]

    def cx(t, tilt):
        f.phaseInNm[:] = np.arange(n)[None, :] * (0.05 * tilt / 206264.806 * 1e9)
        f.generation_time = t
        step(o, t)
        im = o.outputs['out_i1'].i
        return (im * x).sum() / im.sum()
    e.eq('shift in pixels', cx(2, o_t) - cx(1, 0.0), o_t / px, tol=0.05)


# ---------------------------------------------------------------- ideal derivative, polychromatic and interferometric sensors


@harness('C24', funcs=[PO + 'ideal_derivative_sensor.py:IdealDerivativeSensor.' + f for f in ('__init__', 'setup', '_compute_subap_indices', 'trigger_code', 'post_trigger', 'prepare_trigger')], trials=60, heavy=3)
def ideal_derivative(e):
    """Mean derivative over the illuminated pixels of every subaperture, in units of the field of view; zero in the dark."""
    nx, q, where = e.choice('layout', [(2, 2, [1, 2]), (2, 3, [3]), (3, 2, [8, 4, 1])])
    n, k = nx * q, len(where)
    fov, pitch = e.real('fov', 1, 9), 0.125
    npx = e.choice('camera pixels', [2, 5])
    sub = SubapData(idxs=np.arange(k * npx * npx).reshape(k, npx * npx), display_map=np.array(where), nx=nx, ny=nx)
    o = IdealDerivativeSensor(SimulParams(pixel_pupil=n, pixel_pitch=pitch), sub, fov)
    entry = field(e, 'f', n)
    entry.generation_time = S
    full = ElectricField(n, n, pitch)         # phase continued outside the pupil (see C21)
    full.phaseInNm[:] = e.array('continued', (n, n))
    made = []

    def interpolator(f, shape, **kw):
        made.append((f, shape, kw))
        return Given(full)
    e.setattr(ideal_module, 'EFInterpolator', interpolator)
    wire(o, in_ef=entry)
    o.setup()
    e.ensure('continues the phase of the field', made[0][0] is entry and bool(made[0][2].get('force_extrapolation')))
    step(o, S)
    w = full.phaseInNm
    lit = entry.A > 0.5
    scale = 1e-9 * RAD2ASEC / (pitch * fov / 2.0) * (npx - 1) / npx
    s = o.outputs['out_slopes']
    for j, m in enumerate(where):
        r, c = q * (m // nx), q * (m % nx)
        for name, axis, got in (('x', 1, s.xslopes[j]), ('y', 0, s.yslopes[j])):
            total, count = 0, 0
            for y in range(r, r + q):
                for x in range(c, c + q):
                    i = x if axis else y
                    lo, hi = max(i - 1, 0), min(i + 1, n - 1)
                    d = (w[y, hi] - w[y, lo]) if axis else (w[hi, x] - w[lo, x])
                    total = total + e.ite(lit[y, x], d / (hi - lo), 0)
                    count = count + e.ite(lit[y, x], 1, 0)
            e.eq(name + ' slope', got, e.ite(count > 0, total * scale / e.ite(count > 0, count, 1), 0))
    e.eq('map', s.single_mask, [[1 if i * nx + j in where else 0 for j in range(nx)] for i in range(nx)])
    e.eq('time', s.generation_time, S)
    e.raises('field of view', ValueError, lambda: IdealDerivativeSensor(SimulParams(pixel_pupil=n, pixel_pitch=pitch), sub, e.choice('bad', [0.0, -1.0])))


class Colour(BaseProcessingObj):
    """Stands for the sensor of one wavelength."""

    def __init__(self, image):
        super().__init__()
        self.image, self.calls, self.seen = image, [], None
        self.inputs['in_ef'] = InputValue(type=ElectricField)
        self.outputs['out_i'] = Intensity(2, 2)

    @classmethod
    def input_names(cls):
        return {'in_ef': InputDesc(ElectricField, '')}

    @classmethod
    def output_names(cls):
        return {'out_i': OutputDesc(Intensity, '')}

    def prepare_trigger(self, t):
        super().prepare_trigger(t)
        f = self.local_inputs['in_ef']
        self.seen = f.A.copy(), f.phaseInNm.copy(), f.S0

    def trigger_code(self):
        self.calls.append('run')
        self.outputs['out_i'].i[:] = self.image

    def post_trigger(self):
        super().post_trigger()
        self.calls.append('end')


PC = [PO + 'poly_chrom_wfs.py:PolyChromWFS.' + f for f in ('__init__', 'setup', 'check_ready', 'prepare_trigger', 'trigger_code', 'post_trigger', 'get_wavelength_contribution')]


@harness('C24', funcs=PC, trials=60)
def polychromatic(e):
    """Every wavelength sees the field of the frame with its own tilt; images add with their weights, to the photons of the source."""
    colours = e.choice('wavelengths', [1, 2, 3])
    tilts = [[e.real(f'x{i}', -1, 1), e.real(f'y{i}', -1, 1)] for i in range(colours)] if e.flag('tilts') else None
    w = [e.real(f'w{i}', 0.1, 3) for i in range(colours)]
    o = PolyChromWFS([500.0 + i for i in range(colours)], 2, w, xy_tilts_in_arcsec=tilts)
    parts = [Colour(e.array(f'image{i}', (2, 2), lo=0.1)) for i in range(colours)]
    o._wfs_instances.extend(parts)
    f = field(e, 'f', 2)
    wire(o, in_ef=f)
    o.setup()
    unit = e.array('tilt_x', (2, 2)), e.array('tilt_y', (2, 2))
    e.setattr(o, '_unit_tilt_x', unit[0])
    e.setattr(o, '_unit_tilt_y', unit[1])
    for t in (1, 2):
        f.A[:] = e.array(f'A{t}', (2, 2), lo=0.1)
        f.phaseInNm[:] = e.array(f'P{t}', (2, 2))
        f.S0 = e.real(f'S{t}', 0.1, 9)
        f.generation_time = t * S
        before = f.phaseInNm.copy(), f.A.copy()
        o.check_ready(t * S)
        o.trigger()
        o.post_trigger()
        e.eq('the field is not modified', f.phaseInNm, before[0])
        e.eq('nor the amplitude', f.A, before[1])
        for i, p in enumerate(parts):
            x, y = tilts[i] if tilts else (0, 0)
            e.eq('amplitude of the frame', p.seen[0], f.A)
            e.eq('phase of the frame, tilted', p.seen[1], f.phaseInNm + x * unit[0] + y * unit[1])
            e.eq('flux of the frame', p.seen[2], f.S0)
            e.eq('one exposure', p.calls, ['run', 'end'] * t)
        total = sum(w[1:], w[0])
        image = sum((w[i] / total * parts[i].image for i in range(1, colours)), w[0] / total * parts[0].image)
        e.eq('image', o.outputs['out_i'].i, image * (f.S0 * f.masked_area() / e.np.sum(image)))
        e.eq('time', o.outputs['out_i'].generation_time, t * S)
    for i in range(colours):
        e.eq('contribution', o.get_wavelength_contribution(i), parts[i].image * w[i] / total)
    e.raises('no such wavelength', IndexError, lambda: o.get_wavelength_contribution(colours))
    e.raises('negative index', IndexError, lambda: o.get_wavelength_contribution(-1))
    e.raises('weights', ValueError, lambda: PolyChromWFS([500.0], 2, [1.0, 2.0]))
    e.raises('tilts', ValueError, lambda: PolyChromWFS([500.0, 600.0], 2, [1.0, 2.0], xy_tilts_in_arcsec=[[0.0, 0.0]]))


@harness('C24', funcs=PC + [PO + 'poly_chrom_wfs.py:PolyChromWFS._create_unit_tilts', PO + 'poly_chrom_sh.py:PolyChromSH.__init__', PO + 'poly_crom_pyramid.py:PolyCromPyramid.__init__'],
         mode='test', trials=8)
def polychromatic_sensors(e):
    """One wavelength without tilt is the monochromatic sensor; a tilt acts as the tilt of the field."""
    n = 40
    tilt = e.choice('tilt', [None, (0.1, 0.0), (0.0, -0.2), (0.15, 0.1)])
    kind = e.choice('sensor', ['sh', 'pyramid'])
    f, g = (ElectricField(n, n, 0.05) for _ in range(2))
    f.A[:] = make_mask(n)
    f.S0 = 50.0
    f.phaseInNm[:] = e.array('P', (n, n), lo=-20, hi=20)
    f.generation_time = 1
    g.A[:], g.S0, g.generation_time = f.A, f.S0, 1
    y, x = np.mgrid[:n, :n] - (n - 1) / 2
    tx, ty = tilt or (0.0, 0.0)
    g.phaseInNm[:] = f.phaseInNm + (x * tx + y * ty) * 0.05 / RAD2ASEC * 1e9
    tilts = None if tilt is None else [list(tilt), [0.0, 0.0]][:1]
    if kind == 'sh':
        a = dict(subap_wanted_fov=2.0, sensor_pxscale=0.25, subap_on_diameter=4, subap_npx=8, fov_ovs_coeff=1.0)
        o, m = PolyChromSH([600.0], [2.0], xy_tilts_in_arcsec=tilts, **a), SH(600.0, **a)
    else:
        a = dict(fov=1.0, pup_diam=8, output_resolution=30, pup_dist=12, mod_amp=3.0)
        p = SimulParams(pixel_pupil=n, pixel_pitch=0.05)
        o = PolyCromPyramid([600.0], [2.0], p, xy_tilts_in_arcsec=tilts, **a)
        m = ModulatedPyramid(p, 600.0, **a)
    wire(o, in_ef=f)
    wire(m, in_ef=g)
    for q in (o, m):
        q.setup()
        q.check_ready(1), q.trigger(), q.post_trigger()
    got, ref = (q.outputs['out_i'].i / q.outputs['out_i'].i.sum() for q in (o, m))
    e.eq('image of the monochromatic sensor', got / ref.max(), ref / ref.max(), tol=1e-9 if tilt is None else 0.06)
    e.eq('photons of the source', o.outputs['out_i'].i.sum(), 50.0 * f.masked_area(), tol=1e-9)


@harness('C24', funcs=[PO + 'ciao_ciao_sensor.py:CiaoCiaoSensor.' + f for f in ('__init__', '_parse_tilt', '_build_tilt_phase_map_nm', 'setup', 'prepare_trigger', 'trigger_code', 'post_trigger')] +
         [PO + 'ciao_ciao_sensor.py:abs2'], trials=60)
def shearing_interferometer(e):
    """The field interferes with its rotated and tilted copy; the channels share the light as asked; photons of the source."""
    n = 4
    out, keep = e.choice('pixels', [(4, False), (2, False), (2, True)] + ([] if e.symbolic else [(4, True)]))
    flux = e.choice('channel', [0.5, 0.125, 1.0, 0.0])
    tilt = e.choice('tilt', [(0.0, 0.0), 0.5, (0.25, -1.0)])
    o = CiaoCiaoSensor(600.0, out, tiltInArcsec=tilt, channel_flux=flux, normalize_flux=keep, rotAnglePhInDeg=5.0, diffRotAngleInDeg=90.0,
                       xShiftPhInPixel=0.5, yShiftPhInPixel=1.5, magnification=1.25, xShiftDiffPhInPixel=2.5, yShiftDiffPhInPixel=3.5, magnificationDiff=1.5)
    entry, a, b = field(e, 'in', n), field(e, 'a', n), field(e, 'b', n)
    entry.S0 = e.real('S0', 0.1, 9)
    entry.generation_time = S
    made = []

    def interpolator(in_ef, out_shape, **kw):
        made.append((in_ef, out_shape, kw))
        return Given((a, b)[len(made) - 1])
    e.setattr(ciao_module, 'EFInterpolator', interpolator)
    ccd = e.array('ccd', (2, 2), lo=0.1)
    seen = []

    def toccd(im, size, **kw):
        seen.append((im.copy(), size))
        return ccd.copy()
    e.setattr(ciao_module, 'toccd', toccd)
    wire(o, in_ef=entry)
    o.setup()
    names = ('rotAnglePhInDeg', 'xShiftPhInPixel', 'yShiftPhInPixel', 'magnification')
    e.ensure('the entrance field is turned first', made[0][0] is entry and made[1][0] is a)
    e.eq('geometry of the entrance', [made[0][2][k] for k in names], [5.0, 0.5, 1.5, 1.25])
    e.eq('geometry of the second channel', [made[1][2][k] for k in names], [90.0, 2.5, 3.5, 1.5])
    step(o, S)
    k = 2 * e.np.pi / 600
    tx, ty = tilt if isinstance(tilt, tuple) else (tilt, 0.0)
    ax, ay = tx / RAD2ASEC, ty / RAD2ASEC
    ramp = e.mk((n, n), lambda i, j: (ax * ((j - n // 2) * 0.1) + ay * ((i - n // 2) * 0.1)) * 1e9)
    ua = a.A * e.np.exp(1j * (a.phaseInNm * k)) * (2 * flux) ** 0.5
    ub = b.A * e.np.exp(1j * (b.phaseInNm * k)) * (2 * (1 - flux)) ** 0.5
    image = power(e, ua + ub * e.np.exp(1j * (ramp * k)))
    if out != n:
        e.eq('interference pattern', seen[0][0], image)
        e.eq('detector', seen[0][1], (out, out))
        image = ccd
    elif not keep:
        e.eq('interference pattern', o.outputs['out_i'].i, image)
    if keep:
        total = e.np.sum(image)
        if e.symbolic or total > 1e-6:
            e.eq('photons', o.outputs['out_i'].i, image * (entry.S0 * entry.masked_area() / total))
    elif out != n:
        e.eq('binned pattern', o.outputs['out_i'].i, ccd)
    e.eq('time', o.outputs['out_i'].generation_time, S)


@harness('C24', funcs=[PO + 'ciao_ciao_sensor.py:CiaoCiaoSensor.' + f for f in ('__init__', '_parse_tilt', 'setup', '_build_tilt_phase_map_nm')], mode='proof', trials=3)
def shearing_errors(e):
    e.raises('pixels', ValueError, lambda: CiaoCiaoSensor(600.0, 0))
    e.raises('channel above', ValueError, lambda: CiaoCiaoSensor(600.0, 4, channel_flux=1.5))
    e.raises('channel below', ValueError, lambda: CiaoCiaoSensor(600.0, 4, channel_flux=-0.5))
    e.raises('tilt', ValueError, lambda: CiaoCiaoSensor(600.0, 4, tiltInArcsec=(1.0, 2.0, 3.0)))
    e.raises('magnification', ValueError, lambda: CiaoCiaoSensor(600.0, 4, magnification=0.0))
    e.raises('second magnification', ValueError, lambda: CiaoCiaoSensor(600.0, 4, magnificationDiff=0.0))


@harness('C24', funcs=[PO + 'ext_source_pyramid.py:ExtSourcePyramid.' + f for f in ('__init__', '_get_pyramid_face_angles_at_fov_radius', 'cache_ttexp', 'prepare_trigger', 'trigger_code', 'post_trigger')],
         mode='test', trials=10)
def extended_source_pyramid(e):
    """Every point of the source adds its own pyramid image with its flux, however the points are divided in batches."""
    def on(points, batch, f, **k):
        src = val(np.array(points, dtype=float), 1)
        with np.errstate(all='ignore'):
            o = ExtSourcePyramid(SimulParams(pixel_pupil=48, pixel_pitch=0.1), 600, 1.0, 8, 30, pup_dist=12, max_batch_size=batch, **k)
        wire(o, in_ef=f, ext_source_coeff=src)
        o.setup()
        return o, src

    def run(o, t):
        o.check_ready(t), o.trigger(), o.post_trigger()
        return o.outputs['out_i'].i.copy()
    f = ElectricField(48, 48, 0.1)
    f.A[:] = make_mask(48)
    f.S0 = 100.0
    f.phaseInNm[:] = e.array('P', (48, 48), lo=-20, hi=20)
    f.generation_time = 1
    n = e.choice('points', [1, 3, 5])
    pts = [[e.real(f'{k}{i}', -3, 3) for k in 'xyf'] + [e.real(f'w{i}', 0.2, 2)] for i in range(n)]
    # every point alone: the plain pyramid looking at a field with that tilt and focus
    z = ZernikeGenerator(48, xp=np, dtype=float)
    alone = []
    for x, y, d, w in pts:
        m, g = pyramid(e, ModulatedPyramid, pup_diam=8, pup_dist=12, out=30, mod_amp=0.0)
        g.A[:] = f.A
        alone.append(record(m, g, f.phaseInNm - (x * z.getZernike(2) + y * z.getZernike(3) - d * z.getZernike(4)) * 600 / (2 * np.pi)))
    want = sum(p[3] * a for p, a in zip(pts, alone)) / sum(p[3] for p in pts)
    batch = e.choice('batch', [1, 2, 3, 128])
    o, src = on(pts, batch, f)
    e.eq('weighted sum of the images of the points', run(o, 1), want, tol=1e-6)
    f.generation_time = 2
    e.eq('nothing kept from the frame before', run(o, 2), want, tol=1e-6)
    # the source changes its fluxes
    new = [e.real(f'v{i}', 0.2, 2) for i in range(n)]
    src.value[:n, 3] = new
    src.generation_time = f.generation_time = 3
    e.eq('follows the source', run(o, 3), sum(v * a for v, a in zip(new, alone)) / sum(new), tol=1e-6)
    src.value = np.array([p[:3] + [v] for p, v in zip(pts, new)] + [pts[0]])
    src.generation_time = f.generation_time = 4
    e.eq('more points', run(o, 4), (sum(v * a for v, a in zip(new, alone)) + pts[0][3] * alone[0]) / (sum(new) + pts[0][3]), tol=1e-6)
    f.generation_time = 1
    # without faint points the selection of points changes nothing
    q, _ = on(pts, batch, f, cuda_stream_enable=False)
    e.eq('selection of bright points', run(q, 1), want, tol=1e-6)
    e.raises('batch', ValueError, lambda: on(pts, 0, f))
    e.raises('threshold', ValueError, lambda: on(pts, 1, f, max_flux_ratio_thr=e.choice('thr', [0.0, 1.0, -1.0])))
