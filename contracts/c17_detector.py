"""C17: detector: exposure, binning, efficiency, levels, noise and conversion."""
import numpy as np
from pvc.api import harness
from contracts.common import step, wire
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.intensity import Intensity
from specula.processing_objects.ccd import CCD

C = 'processing_objects/ccd.py:CCD.'
ALL = [C + m for m in ('__init__', 'trigger_code', 'apply_binning', 'apply_qe', 'apply_noise')]
MS = 1000000        # clock ticks in a millisecond


def light(e, name, ny, nx, t):
    i = Intensity(nx, ny)
    v = e.array(name, (ny, nx), lo=0, hi=50)
    i.i[:] = v
    i.generation_time = t
    return i, v


@harness('C17', funcs=ALL, trials=60)
def exposure_step(e):
    """One step at any instant from any accumulated charge."""
    ny, nx = e.dim('ny'), e.dim('nx')
    n = e.choice('steps', [1, 2, 3, 5])
    start = e.choice('start', [0, 1, 4])
    bw, qe = e.real('bandwidth', 1, 400), e.real('qe', 0.1, 1)
    dt = e.choice('time step', [1, 2])
    kw = dict(start_time=start * dt / 1000) if start else {}
    o = CCD(SimulParams(time_step=dt / 1000), [nx, ny], n * dt / 1000, bw, quantum_eff=qe, **kw)
    k = e.int('k', 0)
    t = k * dt * MS
    i, v = light(e, 'i', ny, nx, t)
    wire(o, in_i=i)
    o.setup()
    acc = e.array('acc', (ny, nx))
    px, done = e.array('px', (ny, nx)), e.array('done', (ny, nx))
    o._integrated_i.i[:] = acc
    o.outputs['out_pixels'].pixels[:] = px
    o.outputs['integrated_i'].i[:] = done
    step(o, t)
    pix, tot = o.outputs['out_pixels'], o.outputs['integrated_i']
    f = e.ite(k < start, 0, dt * bw) / 1000
    new = lambda y, x: acc[y, x] + f * v[y, x]
    last = e.And(k >= start, (k - start + 1) % n == 0)
    if e.case(last):
        e.eq_fn('pixels: charge of the exposure times the efficiency', pix.pixels, (ny, nx), lambda y, x: qe * new(y, x))
        e.eq_fn('integrated intensity', tot.i, (ny, nx), new)
        e.eq('published at the last step', (pix.generation_time, tot.generation_time), (t, t))
        e.eq_fn('next exposure starts from zero', o._integrated_i.i, (ny, nx), lambda y, x: 0)
    else:
        e.eq('pixels hold during the exposure', pix.pixels, px)
        e.eq('integrated intensity holds during the exposure', tot.i, done)
        e.eq('not refreshed during the exposure', (pix.generation_time, tot.generation_time), (-1, -1))
        e.eq_fn('charge accumulates', o._integrated_i.i, (ny, nx), new)


@harness('C17', funcs=ALL, trials=40)
def exposures(e):
    """Two exposures from the beginning of a run."""
    ny, nx = e.dim('ny'), e.dim('nx')
    n = e.choice('steps', [1, 2, 3])
    start = e.choice('start', [0, 2])
    bw = e.real('bandwidth', 1, 400)
    o = CCD(SimulParams(time_step=0.001), [nx, ny], n * 0.001, bw, start_time=start * 0.001)
    i, v = light(e, 'i0', ny, nx, 0)
    wire(o, in_i=i)
    o.setup()
    pix = o.outputs['out_pixels']
    got = []
    for k in range(start + 2 * n):
        w = v if k == 0 else e.array(f'i{k}', (ny, nx), lo=0, hi=50)
        i.i[:] = w
        i.generation_time = k * MS
        got.append(e.snap(w))
        step(o, k * MS)
        m = (k - start + 1) // n
        if m > 0:
            use = got[start + (m - 1) * n:start + m * n]
            e.eq_fn('sum of the steps of the last complete exposure', pix.pixels, (ny, nx),
                    lambda y, x, use=use: sum([u[y, x] for u in use], 0) * bw / 1000)
            e.eq('time of the last complete exposure', pix.generation_time, (start + m * n - 1) * MS)
        else:
            e.eq('nothing published before', pix.generation_time, -1)


@harness('C17', funcs=[C + '__init__'], trials=60)
def settings(e):
    n = e.int('n', 1, 6)
    step_ = e.int('step', 1, 4)
    ok = n % step_ == 0
    mk = lambda: CCD(SimulParams(time_step=step_ / 1000), [2, 2], n / 1000, 1.0)
    if e.case(ok):
        mk()
    else:
        e.raises('exposure not a multiple of the step', ValueError, mk)
    d = e.real('dt', -5, 0)
    e.raises('exposure not positive', ValueError, lambda: CCD(SimulParams(time_step=1), [2, 2], d, 1.0))
    e.raises('charge transfer without matrix', ValueError, lambda: CCD(SimulParams(time_step=1), [2, 2], 1, 1.0, cte_noise=True))


@harness('C17', funcs=ALL, trials=40)
def binned(e):
    b = e.choice('binning', [1, 2, 3])
    my, mx = e.dim('my'), e.dim('mx')
    ny, nx = my * b, mx * b
    o = CCD(SimulParams(time_step=1), [nx, ny], 1, 1.0, binning=b)
    i, v = light(e, 'i', ny, nx, 0)
    wire(o, in_i=i)
    o.setup()
    step(o, 0)
    pix = o.outputs['out_pixels'].pixels
    e.eq_fn('each pixel is the mean of its block', pix, (my, mx),
            lambda y, x: sum([v[y * b + j, x * b + k] for j in range(b) for k in range(b)], 0) / (b * b))
    e.eq('integrated intensity is not binned', o.outputs['integrated_i'].i, v)


@harness('C17', funcs=ALL, trials=60, heavy=2)
def noise(e):
    """Noise terms in the order of the electronics, from the seeded generators."""
    ny, nx = e.dim('ny'), e.dim('nx')
    on = e.choice('noise', ['levels', 'photon', 'photon+levels', 'readout', 'excess', 'excess+readout', 'all'])
    photon = 'photon' in on or on == 'all'
    levels = 'levels' in on or on == 'all'
    ron = 'readout' in on or on == 'all'
    exc = 'excess' in on or on == 'all'
    has_bg, has_dark = levels, levels and e.flag('dark')
    bg, dark, rl = e.real('bg', 0, 5), e.real('dk', 0, 5), e.real('ron', 0, 5)
    adu = e.choice('adu', [None, 2.0])
    bias = e.choice('bias', [400, 10])
    em = e.choice('em', [None, 3]) if exc else None
    delta = e.choice('delta', [1.0, 0.5]) if exc else 1.0
    gains = e.array('gains', (ny, nx), lo=0.5, hi=1.5) if e.flag('pixel gains') else None
    seeds = e.choice('seeds', [(1, 2, 3), (5, 7, 9)])
    o = CCD(SimulParams(time_step=1), [nx, ny], 1, 1.0, photon_noise=photon, readout_noise=ron, excess_noise=exc,
            background_noise=has_bg, darkcurrent_noise=has_dark, background_level=bg, darkcurrent_level=dark if has_dark else 0.0,
            readout_level=rl, ADU_gain=adu, ADU_bias=bias, emccd_gain=em, excess_delta=delta, pixelGains=gains,
            photon_seed=seeds[0], readout_seed=seeds[1], excess_seed=seeds[2])
    i, v = light(e, 'i', ny, nx, 0)
    wire(o, in_i=i)
    o.setup()
    step(o, 0)
    xp = e.np
    em = (400 if em is None else em) if exc else 1
    gain = (0.05 if exc else 8) if adu is None else adu
    x = v + ((bg if has_bg else 0) + (dark if has_dark else 0))
    if photon:
        x = xp.random.default_rng(seeds[0]).poisson(x) * 1.0
    if exc:
        s = delta * x
        s = xp.where(s < 1e-10, 1e-10, s)
        x = xp.random.default_rng(seeds[2]).gamma(shape=s, scale=em) / delta
    if ron:
        x = x + xp.random.default_rng(seeds[1]).standard_normal(size=ny * nx).reshape((ny, nx)) * (rl * em)
    if gains is not None:
        x = x * gains
    if photon:
        x = xp.round(x * gain) + bias
        x = xp.where(x < 0, 0, x) - bias
        x = x / gain / em - (dark if has_dark else 0)
    e.eq('pixels', o.outputs['out_pixels'].pixels, x, tol=1e-7)


@harness('C17', funcs=ALL, mode='bounded')
def charge_transfer(e):
    n = e.choice('n', [1, 2])
    m = e.array('m', (n, n, 2))
    bg = e.real('bg', 0, 5)
    o = CCD(SimulParams(time_step=1), [n, n], 1, 1.0, cte_noise=True, cte_mat=m, background_noise=True, background_level=bg)
    i, v = light(e, 'i', n, n, 0)
    wire(o, in_i=i)
    o.setup()
    step(o, 0)
    pix = o.outputs['out_pixels'].pixels
    for y in range(n):
        for x in range(n):
            e.eq('transfer matrices on both sides', pix[y, x],
                 sum(m[y, j, 0] * (v[j, k] + bg) * m[k, x, 1] for j in range(n) for k in range(n)))


@harness('C17', funcs=[C + 'apply_noise'], mode='test', trials=30)
def clock_induced(e):
    level = e.choice('level', [0.0, 1.0, 0.5])
    ny, nx = e.dim('ny'), e.dim('nx')
    o = CCD(SimulParams(time_step=1), [nx, ny], 1, 1.0, cic_noise=True, cic_level=level)
    i, v = light(e, 'i', ny, nx, 0)
    wire(o, in_i=i)
    o.setup()
    step(o, 0)
    d = o.outputs['out_pixels'].pixels - v
    e.ensure('one electron or none in each pixel', np.all((np.abs(d) < 1e-9) | (np.abs(d - 1) < 1e-9)))
    if level != 0.5:
        e.ensure('with the given probability', np.allclose(d, level))


@harness('C17', funcs=ALL, trials=40)
def repeatable(e):
    """Noise of the next exposure continues the same seeded sequences: two detectors with equal seeds agree, step by step."""
    ny, nx = e.dim('ny'), e.dim('nx')
    k = dict(photon_noise=True, readout_noise=True, readout_level=2.0)
    a, b = CCD(SimulParams(time_step=1), [nx, ny], 1, 1.0, **k), CCD(SimulParams(time_step=1), [nx, ny], 1, 1.0, **k)
    i, v = light(e, 'i', ny, nx, 0)
    for o in (a, b):
        wire(o, in_i=i)
        o.setup()
    for t in range(2):
        i.generation_time = t * 1000 * MS
        step(a, t * 1000 * MS)
    xp = e.np
    r1, r2 = xp.random.default_rng(1), xp.random.default_rng(2)
    for t in range(2):
        i.generation_time = t * 1000 * MS
        step(b, t * 1000 * MS)
        x = r1.poisson(v) + 2.0 * r2.standard_normal(size=ny * nx).reshape((ny, nx))
        x = xp.round(x * 8) + 400
        e.eq('next draws of the sequences', b.outputs['out_pixels'].pixels, (xp.where(x < 0, 0, x) - 400) / 8, tol=1e-7)
    e.eq('equal seeds, equal pixels', a.outputs['out_pixels'].pixels, b.outputs['out_pixels'].pixels)
