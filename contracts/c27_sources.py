"""C27: sources, photometry and link geometry follow the physics they stand for."""
import math
import numpy as np
from pvc.api import harness
from contracts.common import step, wire, val, raises_iff
from specula import ASEC2RAD
from specula.base_value import BaseValue
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.source import Source
from specula.lib.air_refraction import MatharAirRefraction
from specula.lib.calc_noise_cov_elong import calc_noise_cov_elong
from specula.lib.calc_spatialfrequency import calc_spatialfrequency
from specula.lib.fsoc_lib import calc_effective_wind_speed, calc_paa, calc_timing_uplink_downlink
from specula.lib.n_phot import n_phot
from specula.processing_objects.extended_source import ExtendedSource
from specula.processing_objects.power_loss import PowerLoss

S = 10 ** 9
ES = 'processing_objects/extended_source.py:ExtendedSource.'
FS = 'lib/fsoc_lib.py:'
LIGHT = 299792458.0
# flux of a star of magnitude zero [J/s/m^2/um], central wavelength [um], width [um], sky magnitude (Lena 1996)
BANDS = dict(U=(4.35e-8, .36, .068, 23.), B=(7.2e-8, .44, .098, 22.), V=(3.92e-8, .55, .089, 21.), R=(1.76e-8, .70, .220, 20.), I=(8.3e-9, .90, .240, 19.5),
             J=(3.4e-9, 1.25, .300, 14.), H=(7e-10, 1.65, .350, 13.5), K=(3.9e-10, 2.2, .400, 12.5), L=(8.1e-11, 3.4, .550, 3.), M=(2.2e-11, 5., .300, 0.),
             Na=(3.92e-8, .589, .010, 23.))
MAORY = dict(V=(3.68e-8, .54, .090, 21.4), R=(1.77e-8, .65, .130, 20.6), I=(1.19e-8, .80, .200, 19.7), J=(2.86e-9, 1.25, .300, 16.5), H=(1.08e-9, 1.65, .350, 14.4), K=(3.79e-10, 2.2, .400, 13.0))


def photons(e0, um, width, mag, surf, dt):
    return e0 * width * surf * dt * um * 1e-6 / (6.626e-34 * 3e8) * 10 ** (-mag / 2.5)


@harness('C27', funcs=['lib/n_phot.py:n_phot', 'lib/n_phot.py:get_model'], mode='test', trials=120)
def photon_flux(e):
    """The number of photons is that of the band for the magnitude, surface and time; a bare wavelength uses the nearest band; what the user gives wins over the table."""
    mag, surf, dt = e.real('mag', -2, 18), e.real('surf', 0.01, 1000), e.real('dt', 1e-4, 10)
    model, table = e.choice('model', [('default', BANDS), ('MAORY-1', MAORY)])
    band = e.choice('band', list(table))
    e0, um, w, sky = table[band]
    got, back = n_phot(mag, band, surf=surf, delta_t=dt, model=model)
    e.eq('photons of the band', got, photons(e0, um, w, mag, surf, dt), tol=1e-9)
    e.eq('sky of the band', back, photons(e0, um, w, sky, surf, dt), tol=1e-9)
    e.eq('five magnitudes are a factor 100', n_phot(mag + 5, band, surf=surf, delta_t=dt, model=model)[0], got / 100, tol=1e-9)
    lam, width, zero, bm = e.real('lam', 0.3, 5.5), e.real('width', 0.001, 0.5), e.real('zero', 1e-11, 1e-7), e.real('bm', 10, 24)
    g2 = n_phot(mag, band, surf, dt, lambda_=lam * 1e-6, width=width * 1e-6, e0=zero, back_mag=bm, model=model)
    e.eq('given values win', g2[0], photons(zero, lam, width, mag, surf, dt), tol=1e-9)
    e.eq('given sky wins', g2[1], photons(zero, lam, width, bm, surf, dt), tol=1e-9)
    names = [b for b in table if b != 'Na']
    dist = sorted(abs(table[b][1] - lam) for b in names)
    e.assume(dist[1] - dist[0] > 1e-6 and abs(lam - 0.589) > 2e-4)
    near = min(names, key=lambda b: abs(table[b][1] - lam))
    e.eq('nearest band', n_phot(mag, lambda_=lam * 1e-6, surf=surf, delta_t=dt, model=model)[0], photons(table[near][0], lam, table[near][2], mag, surf, dt), tol=1e-9)
    e.eq('sodium', n_phot(mag, lambda_=0.589e-6)[0], photons(BANDS['Na'][0], .589, .010, mag, 1, 1), tol=1e-9)
    e.raises('nothing given', ValueError, n_phot, mag)
    e.raises('unknown band', Exception, n_phot, mag, 'X')
    e.raises('unknown model', Exception, n_phot, mag, 'V', model='none')


@harness('C27', funcs=['lib/n_phot.py:n_phot'], trials=60)
def photon_balance(e):
    """For every band, magnitude, surface, time and zero point the photons are the energy collected over the energy of a photon."""
    mag, surf, dt, width, lam, zero = (e.real(v, lo, hi) for v, lo, hi in (('mag', -2, 18), ('surf', 0.01, 1000), ('dt', 1e-4, 10), ('width', 1e-9, 1e-6), ('lam', 3e-7, 5e-6), ('zero', 1e-11, 1e-7)))
    model, band = e.choice('case', [('default', b) for b in BANDS] + [('MAORY-1', b) for b in MAORY])
    e0, um, w, sky = (BANDS if model == 'default' else MAORY)[band]
    dim = 10 ** (-mag / 2.5)
    energy = lambda l: 6.626e-34 * 3e8 / l
    e.eq('band', n_phot(mag, band, surf, dt, model=model)[0] * energy(um * 1e-6), dt * surf * w * e0 * dim, tol=1e-9)
    got, back = n_phot(mag, band, surf, dt, lam, width, zero, model=model)
    e.eq('given', got * (6.626e-34 * 3e8), lam * dt * surf * (width * 1e6) * zero * dim, tol=1e-9)
    e.eq('sky', back * (6.626e-34 * 3e8), lam * dt * surf * (width * 1e6) * zero * 10 ** (-sky / 2.5), tol=1e-9)


@harness('C27', funcs=['data_objects/source.py:Source.' + f for f in ('__init__', 'phot_density', 'x_coord', 'y_coord', 'r', 'phi', 'r_arcsec', 'phi_deg')], mode='test', trials=80)
def source(e):
    """A source lies where its coordinates plus their error say, and its density is the photons per square metre, second and nanometre of its magnitude."""
    r, phi, mag, lam = e.real('r', 0, 300), e.real('phi', -180, 360), e.real('mag', 0, 16), e.real('lam', 400, 2500)
    h = e.real('h', 1e3, 2e5)
    err = (e.real('er', -5, 5), e.real('ep', -10, 10)) if e.flag('error') else (0., 0.)
    band = e.choice('band', ['', 'R', 'Na'])
    zero = e.choice('zero', [0, 1e-8])
    s = Source([r, phi], mag, lam, height=h, band=band, zero_point=zero, error_coord=err)
    R, P = (r + err[0]) * ASEC2RAD, math.radians(phi + err[1])
    e.eq('radius', s.r, R, tol=1e-9)
    e.eq('radius in arcsec', s.r_arcsec, r + err[0], tol=1e-9)
    e.eq('angle', s.phi, P, tol=1e-9)
    e.eq('angle in degrees', s.phi_deg, phi + err[1], tol=1e-9)
    e.eq('position', np.array([s.x_coord, s.y_coord]), h * math.sin(R) * np.array([math.cos(P), math.sin(P)]), tol=1e-9)
    names = [b for b in BANDS if b != 'Na']
    dist = sorted(abs(BANDS[b][1] - lam / 1e3) for b in names)
    e.assume(dist[1] - dist[0] > 1e-6 and abs(lam - 589) > 0.2)
    b = band or min(names, key=lambda k: abs(BANDS[k][1] - lam / 1e3))
    e.eq('density', s.phot_density(), photons(zero or BANDS[b][0], lam / 1e3, 1e-3, mag, 1, 1), tol=1e-9)


@harness('C27', funcs=[FS + 'calc_timing_uplink_downlink', FS + 'calc_paa'], trials=60)
def link_timing(e):
    """Light reaches a layer after its height times airmass down, and after going up and back through the rest up; the point-ahead angle is twice v/c."""
    n, H, v = e.dim('n', 1, 4), e.real('H', 1e5, 4e7), e.real('v', 100, 1e4)
    h = e.array('h', n, lo=0, hi=2e4)
    z = e.real('z', 0, 80)
    up, down = calc_timing_uplink_downlink(z, H, h, e.xp)
    airmass = 1.0 / e.np.cos(z / 180. * math.pi)
    e.eq('down', down, h * airmass / LIGHT, tol=1e-9)
    e.eq('up', up, (2 * H - h) * airmass / LIGHT, tol=1e-9)
    e.eq('point ahead in arcsec', calc_paa(v, e.xp), 2 * v / LIGHT * 3600 * 180 / math.pi, tol=1e-9)


@harness('C27', funcs=[FS + 'calc_effective_wind_speed'], mode='test', trials=80)
def effective_wind(e):
    """The effective wind is the vector sum of the wind and of the slewing of the line of sight at the layer, in any direction."""
    n, H, v = e.dim('n', 1, 4), e.real('H', 3e5, 4e7), e.real('v', 0, 1e4)
    h, w, d, od = np.array(e.array('h', n, lo=0, hi=2e4)), np.array(e.array('w', n, lo=0, hi=40)), np.array(e.array('d', n, lo=0, hi=360)), e.real('od', -180, 360)
    speed, direction = calc_effective_wind_speed(h, w, d, H, v, od, np)
    slew = 2 * v * h / H
    east = w * np.sin(np.radians(d)) + slew * np.sin(np.radians(od))
    north = w * np.cos(np.radians(d)) + slew * np.cos(np.radians(od))
    e.eq('speed', speed, np.hypot(east, north), tol=1e-6)
    e.ensure('east', np.all(np.abs(speed * np.sin(np.radians(direction)) - east) < 1e-5 * (1 + np.abs(w).max() + slew.max())))
    e.ensure('north', np.all(np.abs(speed * np.cos(np.radians(direction)) - north) < 1e-5 * (1 + np.abs(w).max() + slew.max())))


def edlen(um):
    s2 = um ** -2.0
    return (8342.13 + 2406030 / (130 - s2) + 15997 / (38.9 - s2)) * 1e-8


@harness('C27', funcs=['lib/air_refraction.py:MatharAirRefraction.get_refractive_index', 'lib/air_refraction.py:MatharAirRefraction._load_coefficients'], mode='test', trials=80)
def air_refraction(e):
    """Refractivity agrees with an independent formula of dry air, scales with density, depends on each wavelength alone, and water lowers it in the visible."""
    m = MatharAirRefraction()
    T, P, hum = e.real('T', -10, 35), e.real('P', 6e4, 1.05e5), e.real('hum', 0, 90)
    vis = e.real('vis', 0.36, 1.29)
    base = m.get_refractive_index(vis * 1e-6)
    e.ensure('dry air in the visible', abs(base - edlen(vis)) < 2e-8)
    e.eq('density', m.get_refractive_index(vis * 1e-6, T, P), base * (P / 101325.0) * (288.15 / (T + 273.15)), tol=1e-9)
    wet = m.get_refractive_index(vis * 1e-6, T, P, 100.0)
    dry = m.get_refractive_index(vis * 1e-6, T, P, 0.0)
    e.ensure('water lowers it', -1.2e-6 * 2.5 < wet - dry < 0)
    e.eq('humidity', m.get_refractive_index(vis * 1e-6, T, P, hum) - dry, (wet - dry) * hum / 100, tol=1e-6)
    ir = e.choice('ir', [1.35, 1.65, 2.2, 2.5, 3.0, 3.4, 4.0, 4.6, 5.0, 8.0, 10.0, 13.0, 20.0])
    Ti = e.real('Ti', 0, 25)
    Pi, hi = e.real('Pi', 7e4, 8e4), e.real('hi', 5, 15)
    dens = (Pi / 101325.0) * (288.15 / (Ti + 273.15))
    e.ensure('infrared', abs(m.get_refractive_index(ir * 1e-6, Ti, Pi, hi) / (edlen(ir) * dens) - 1) < 0.01)
    band = 'K' if ir < 2.6 else 'L' if ir < 4.3 else 'M' if ir < 6 else 'N' if ir < 15 else 'Q'
    ref = {'K': 2.25, 'L': 3.4, 'M': 4.8, 'N': 10.1, 'Q': 20.0}[band]
    c = m.tables[band]['coeffs']
    at_ref = m.get_refractive_index(ir * 1e-6, 17.5, 75000.0, 10.0)
    e.eq('polynomial of its band', at_ref, sum(c[i][0] * (1e4 / ir - 1e4 / ref) ** i for i in range(6)), tol=1e-9)
    x = [1 / (Ti + 273.15) - 1 / 290.65, hi - 10.0, Pi - 75000.0]
    state = [1, x[0], x[0] ** 2, x[1], x[1] ** 2, x[2], x[2] ** 2, x[0] * x[1], x[0] * x[2], x[1] * x[2]]
    e.eq('expansion about its reference', m.get_refractive_index(ir * 1e-6, Ti, Pi, hi),
         sum(sum(c[i][k] * state[k] for k in range(10)) * (1e4 / ir - 1e4 / ref) ** i for i in range(6)), tol=1e-9)
    lams = np.random.default_rng(int(e.int('seed', 0, 1000))).permutation([vis, ir, 2.65, 6.0, 15.0, 3.4, 4.8, 10.1, 20.0, 1.3, 0.8])[:e.dim('n', 2, 11)]
    e.eq('each wavelength alone', m.get_refractive_index(lams * 1e-6, T, P, hum), np.array([m.get_refractive_index(v * 1e-6, T, P, hum) for v in lams]), tol=1e-12)


@harness('C27', funcs=['lib/calc_spatialfrequency.py:calc_spatialfrequency'], mode='bounded', trials=30)
def spatial_frequencies(e):
    """The matrix holds the squared distance, in frequency steps, from its centre."""
    n = 2 * e.dim('n', 1, 20)
    c = np.arange(n) - (n // 2 - 1)
    e.eq('squared frequency', calc_spatialfrequency(n, np, 0), c[:, None] ** 2.0 + c[None, :] ** 2.0)


@harness('C27', funcs=['processing_objects/power_loss.py:PowerLoss.trigger_code', 'processing_objects/power_loss.py:PowerLoss.__init__'], mode='test', trials=60)
def power_loss(e):
    """The loss in dB is that of the flux times receiver diameter over the pixel at the satellite; parameters that are not positive are refused."""
    sim = SimulParams(pixel_pupil=e.dim('n', 8, 64), pixel_pitch=e.real('pitch', 0.01, 0.1), time_step=0.001)
    lam, nd, dist, rec = e.real('lam', 500, 1600), int(e.int('nd', 1, 6)), e.real('dist', 1e5, 4e7), e.real('rec', 0.01, 1)
    o = PowerLoss(sim, lam, nd, dist, rec)
    src = BaseValue(value=e.real('f', 0.01, 1))
    wire(o, se_sr=src)
    for k in range(2):
        t = k * S
        src.value = e.real(f'f{k}', 0.01, 1)
        src.generation_time = t
        step(o, t)
        pixel = lam * 1e-9 * dist / (sim.pixel_pupil * nd * sim.pixel_pitch)
        e.eq('dB', 10 ** (o.outputs['out_power_loss'].value / 10), src.value / pixel * rec, tol=1e-9)
        e.ensure('fresh', o.outputs['out_power_loss'].generation_time == t)
    for bad in ((0, nd, dist, rec), (lam, 0, dist, rec), (lam, nd, -1.0, rec), (lam, nd, dist, 0)):
        e.raises('not positive', ValueError, PowerLoss, sim, *bad)


def sim_params(e, zenith=0.0):
    return SimulParams(pixel_pupil=8, pixel_pitch=e.real('pitch', 0.1, 1.0), time_step=0.001, zenithAngleInDeg=zenith)


def tip_of(arcsec, D, lam):
    return np.asarray(arcsec) * (math.pi / 180 / 3600) * D * 2 * math.pi / (lam * 1e-9) / 4


def common(e, o, D, lam, total=1.0):
    c = o.outputs['coeff'].value
    e.ensure('one row per point', c.shape == (o.npoints, 4))
    e.eq('tip', c[:, 0], tip_of(o.xx_arcsec, D, lam), tol=1e-6)
    e.eq('tilt', c[:, 1], tip_of(o.yy_arcsec, D, lam), tol=1e-6)
    e.eq('total flux', c[:, 3].sum(), total, tol=1e-9)
    e.ensure('no negative flux', np.all(c[:, 3] >= 0))
    return c


@harness('C27', funcs=[ES + f for f in ('__init__', '_validate_parameters', 'compute', '_compute_2d', '_compute_point_source', '_compute_tophat', '_compute_tophat_cartesian', '_compute_tophat_polar',
                                        '_compute_tophat_rings', '_compute_gauss', '_compute_gauss_cartesian', '_compute_gauss_rings', '_angle_to_tip')], mode='test', trials=80)
def source_shapes(e):
    """Points fill the disc (or the Gaussian of the given width) with the asked spacing, carry equal (or Gaussian) flux adding to one, and their coefficients are their angles."""
    sim, lam = sim_params(e), e.real('lam', 400, 2000)
    D = 8 * sim.pixel_pitch
    typ, smp = e.choice('case', [('POINT_SOURCE', 'CARTESIAN'), ('TOPHAT', 'CARTESIAN'), ('TOPHAT', 'POLAR'), ('TOPHAT', 'RINGS'), ('GAUSS', 'CARTESIAN'), ('GAUSS', 'RINGS')])
    over = e.real('over', 0.5, 2)
    spacing = over * lam * 1e-9 / D / 4.848e-6
    n = e.real('n', 3.2, 9)
    size = n * spacing
    rings = int(e.int('rings', 2, 4))
    e.assume(abs(n / 2 - round(n / 2)) < 0.49 and abs(3 * n / 2.354820045 % 1 - 0.5) > 0.01)
    o = ExtendedSource(sim, lam, typ, sampling_lambda_over_d=over, size_obj=size, sampling_type=smp, n_rings=rings)
    c = common(e, o, D, lam)
    x, y, f = np.asarray(o.xx_arcsec), np.asarray(o.yy_arcsec), c[:, 3]
    r = np.hypot(x, y)
    e.eq('no focus', c[:, 2], np.zeros(o.npoints))
    if typ == 'POINT_SOURCE':
        e.eq('one point', c, np.array([[0., 0., 0., 1.]]))
        return
    e.ensure('centred', abs((x * f).sum()) < 1e-6 * size and abs((y * f).sum()) < 1e-6 * size)
    sigma = size / 2.354820045
    if typ == 'TOPHAT':
        e.eq('equal flux', f, np.full(o.npoints, 1 / o.npoints))
        e.ensure('inside the disc', np.all(r <= size / 2 * (1 + 1e-9)))
    else:
        e.eq('Gaussian flux', f / f.max(), np.exp(-(r ** 2 - r[np.argmax(f)] ** 2) / (2 * sigma ** 2)), tol=1e-6)
    if smp == 'CARTESIAN':
        if typ == 'TOPHAT':
            m = 2 * int(round(n / 2))
            g = np.linspace(-size / 2, size / 2, m)
            keep = lambda X, Y: np.hypot(X, Y) <= size / 2
        else:
            m = 2 * int(round(3 * sigma / spacing))
            g = (np.arange(m) - (m - 1) / 2) * spacing
            top = math.exp(-2 * (spacing / 2) ** 2 / (2 * sigma ** 2))
            keep = lambda X, Y: np.exp(-(X ** 2 + Y ** 2) / (2 * sigma ** 2)) >= 0.1 * top
        pts = [(a, b) for b in g for a in g if keep(a, b)]
        e.ensure('points of the grid', len(pts) == o.npoints and np.allclose(sorted(pts), sorted(zip(x, y)), atol=1e-9 * size))
    elif smp == 'POLAR':
        k = int(round(n / 2))
        radii = np.linspace(0, size / 2, k)
        want = [(0, 1)] + [(q, int(round(2 * math.pi * q / spacing))) for q in radii[1:]]
    else:
        R = size / 2 if typ == 'TOPHAT' else 3 * sigma
        radii = (np.arange(rings) + 0.5) * R / rings
        want = [(0, 1)] + [(q, math.ceil(2 * math.pi * q / spacing)) for q in radii]
    if smp != 'CARTESIAN':
        e.assume(all(abs(v - round(v)) > 1e-6 and abs(v % 1 - 0.5) > 1e-6 for v in (2 * math.pi * q / spacing for q, k in want[1:])))
        e.ensure('number of points', o.npoints == sum(k for q, k in want))
        at = 0
        for q, k in want:
            part = slice(at, at + k)
            at += k
            e.eq('radius of the ring', r[part], np.full(k, q), tol=1e-9)
            if q:
                ang = np.sort(np.arctan2(y[part], x[part]) % (2 * np.pi))
                e.ensure('evenly spaced', np.allclose(np.diff(np.append(ang, ang[0] + 2 * np.pi)), 2 * np.pi / k, atol=1e-6))


@harness('C27', funcs=[ES + '_validate_parameters', ES + '_compute_gauss', ES + '_compute_from_psf', ES + '_compute_3d'], mode='bounded', trials=20)
def source_errors(e):
    """Unknown shapes and samplings, and shapes without their size, profile or scale, are refused."""
    sim = sim_params(e)
    mk = lambda *a, **k: ExtendedSource(sim, 500, *a, **k)
    e.raises('shape', ValueError, mk, 'SQUARE')
    e.raises('sampling', ValueError, mk, 'POINT_SOURCE', sampling_type='HEXAGONS')
    e.raises('tophat size', ValueError, mk, 'TOPHAT')
    e.raises('gauss size', ValueError, mk, 'GAUSS')
    e.raises('pixel scale', ValueError, mk, 'FROM_PSF')
    e.raises('gauss polar', ValueError, mk, 'GAUSS', size_obj=1.0, sampling_type='POLAR')
    e.raises('psf rings', ValueError, mk, 'FROM_PSF', pixel_scale_psf=0.1, initial_psf=np.ones((8, 8)), sampling_type='RINGS')
    e.raises('profile', ValueError, mk, 'POINT_SOURCE', layer_height=[9e4, 9.1e4], focus_height=9e4)
    e.raises('profile length', ValueError, mk, 'POINT_SOURCE', layer_height=[9e4, 9.1e4], intensity_profile=[1.0], focus_height=9e4)


@harness('C27', funcs=[ES + f for f in ('_compute_3d', '_compute_focus_coefficient', '_check_if_3d', '_apply_flux_threshold')], mode='test', trials=60)
def source_layers(e):
    """Each layer repeats the shape with its share of the flux, its offset and the defocus of its distance; weak points are left out below the threshold."""
    zenith = e.choice('zenith', [0.0, 60.0])
    air = 1 / math.cos(math.radians(zenith))
    sim, lam = sim_params(e, zenith), 589.0
    D = 8 * sim.pixel_pitch
    k = e.dim('k', 2, 4)
    heights = [90e3 + 1e3 * i for i in range(k)]
    focus = e.real('focus', 85e3, 95e3)
    prof = np.array(e.array('prof', k, lo=0.1, hi=1))
    prof = np.abs(prof) / np.abs(prof).sum()
    tt = np.array(e.array('tt', (k, 2))) if e.flag('offsets') else None
    spacing = lam * 1e-9 / D / 4.848e-6
    kw = dict(size_obj=4 * spacing, sampling_type='CARTESIAN')
    typ = e.choice('typ', ['POINT_SOURCE', 'TOPHAT', 'GAUSS'])
    flat = ExtendedSource(sim, lam, typ, **kw)
    o = ExtendedSource(sim, lam, typ, layer_height=list(heights), intensity_profile=list(prof), focus_height=focus, tt_profile=tt, **kw)
    c = common(e, o, D, lam)
    n = flat.npoints
    e.ensure('points', o.npoints == n * k)
    f0 = flat.outputs['coeff'].value
    for i in range(k):
        part = slice(i * n, (i + 1) * n)
        off = tt[i] if tt is not None else (0, 0)
        e.eq('x of the layer', np.asarray(o.xx_arcsec)[part], np.asarray(flat.xx_arcsec) + off[0], tol=1e-9)
        e.eq('y of the layer', np.asarray(o.yy_arcsec)[part], np.asarray(flat.yy_arcsec) + off[1], tol=1e-9)
        e.eq('flux of the layer', c[part, 3], f0[:, 3] * prof[i], tol=1e-9)
        h, z = heights[i] * air, focus * air
        e.eq('defocus', c[part, 2], np.full(n, (h - z) * D ** 2 / (16 * math.sqrt(3) * h ** 2) * 2 * math.pi / (lam * 1e-9)), tol=1e-6)
    thr = e.real('thr', 0.2, 1.5)
    cut = ExtendedSource(sim, lam, typ, layer_height=list(heights), intensity_profile=list(prof), focus_height=focus, tt_profile=tt, flux_threshold=thr, **kw)
    keep = c[:, 3] > thr * c[:, 3].mean()
    e.assume(np.all(np.abs(c[:, 3] / c[:, 3].mean() - thr) > 1e-9))
    e.eq('strong points only', cut.outputs['coeff'].value, c[keep])
    e.ensure('their number', cut.npoints == int(keep.sum()))
    one = ExtendedSource(sim, lam, typ, layer_height=[heights[0]], intensity_profile=[1.0], focus_height=heights[0], **kw)
    e.eq('a single layer in focus is flat', one.outputs['coeff'].value, f0)


@harness('C27', funcs=[ES + '_compute_from_psf', ES + 'trigger'], mode='test', trials=50)
def source_from_image(e):
    """The flux of a point is that of the image at its position; a new image, cropped or padded about its centre when asked, replaces it; an empty one does not."""
    sim, lam = sim_params(e), 600.0
    D = 8 * sim.pixel_pitch
    n = e.choice('n', [8, 11, 12])
    spacing = lam * 1e-9 / D / 4.848e-6
    scale = spacing * e.real('ratio', 0.5, 1.5)
    psf = np.abs(np.array(e.array('psf', (n, n), lo=0.1, hi=1))) + 0.1
    smp, crop = e.choice('sampling', ['CARTESIAN', 'POLAR']), e.flag('crop')
    o = ExtendedSource(sim, lam, 'FROM_PSF', sampling_type=smp, initial_psf=psf, pixel_scale_psf=scale, crop_psf=crop)

    def flux(img):
        m = img.shape[0]
        out = []
        for a, b in zip(o.xx_arcsec, o.yy_arcsec):
            X, Y = min(max(a / scale + m / 2, 0), m - 1), min(max(b / scale + m / 2, 0), m - 1)
            i, j = min(int(Y), m - 2), min(int(X), m - 2)
            u, v = Y - i, X - j
            out.append((1 - u) * (1 - v) * img[i, j] + (1 - u) * v * img[i, j + 1] + u * (1 - v) * img[i + 1, j] + u * v * img[i + 1, j + 1])
        return np.array(out) / np.sum(out)
    c = common(e, o, D, lam)
    e.eq('flux of the image', c[:, 3], flux(psf), tol=1e-7)
    src = BaseValue(value=np.zeros((n, n)))
    src.generation_time = S
    wire(o, psf=src)
    step(o, S)
    e.eq('an empty image changes nothing', o.outputs['coeff'].value, c)
    m = n + (e.choice('grow', [-2, 0, 2]) if crop else 0)
    new = np.abs(np.array(e.array('new', (m, m), lo=0.1, hi=1))) + 0.1
    src.value = new
    src.generation_time = 2 * S
    step(o, 2 * S)
    want = new[1:-1, 1:-1] if m > n else np.pad(new, 1) if m < n else new
    c2 = common(e, o, D, lam)
    e.eq('flux of the new image', c2[:, 3], flux(want), tol=1e-7)
    e.ensure('published', o.outputs['coeff'].generation_time == 2 * S)


@harness('C27', funcs=['lib/calc_noise_cov_elong.py:calc_noise_cov_elong'], mode='test', trials=60)
def elongated_noise(e):
    """The inverse covariance of an elongated spot is that of noise sigma^2 (1 + b b'/s^2), b the elongation seen from the launcher; far, truncated spots keep only the direction across it."""
    n, D, zen = e.choice('n', [4, 5]), e.real('D', 4, 40), e.choice('zen', [0.0, 60.0])
    thick, h = e.real('thick', 5e3, 15e3), e.choice('h', [None, 85e3])
    la = [e.real('lx', -25, 25), e.real('ly', -25, 25), 0.0]
    s, sig, tg = e.real('s', 0.8, 2), e.real('sig', 0.5, 2), e.choice('tg', [0.0, 0.25, 0.6])
    idx = np.flatnonzero(np.array(e.array('use', n * n)) > -0.5)
    e.assume(len(idx) > 2)
    air = 1 / math.cos(math.radians(zen))
    H, th = (h or 90e3) * air, thick * air
    x = (idx % n - n / 2) * D / n - la[0]
    y = (idx // n - n / 2) * D / n - la[1]
    seen = lambda p: np.degrees(np.arctan2(p, H + th / 2) - np.arctan2(p, H - th / 2)) * 3600
    b1, b2 = seen(x), seen(y)
    k = len(idx)
    full = calc_noise_cov_elong(D, zen, thick, la, idx, n, 10.0, s, sig, tg, h_in_m=h)
    far = np.argsort(np.maximum(np.abs(x), np.abs(y)))
    nt = int(tg * k)
    ds = np.sort(np.maximum(np.abs(x), np.abs(y)))
    e.assume(nt == 0 or ds[k - nt] - ds[k - nt - 1] > 1e-6)
    trunc = set(far[k - nt:]) if nt else set()
    want = np.zeros((2 * k, 2 * k))
    for i in range(k):
        b = np.array([b1[i], b2[i]])
        m = (np.eye(2) - np.outer(b, b) / (b @ b)) / sig if i in trunc else np.linalg.inv(sig * (np.eye(2) + np.outer(b, b) / s ** 2))
        want[np.ix_([i, i + k], [i, i + k])] = m
    e.eq('inverse covariance', full, want, tol=1e-6)
    diag = calc_noise_cov_elong(D, zen, thick, la, idx, n, 10.0, s, sig, tg, h_in_m=h, only_diag=True)
    d = np.concatenate([1 / (sig * (1 + (b1 / s) ** 2)), 1 / (sig * (1 + (b2 / s) ** 2))])
    dist = np.abs(np.concatenate([x, y]))
    nt = int(tg * 2 * k)
    ds = np.sort(dist)
    e.assume(nt == 0 or ds[2 * k - nt] - ds[2 * k - nt - 1] > 1e-6)
    if nt:
        d[np.argsort(dist)[2 * k - nt:]] *= 0.25
    e.eq('diagonal', diag, np.diag(d), tol=1e-6)
