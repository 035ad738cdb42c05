"""C25: what is estimated from the signals of the loop is what those signals contain."""
import math
import numpy as np
from pvc.api import harness
from contracts.common import step, wire, val, raises_iff
from specula.base_value import BaseValue
from specula.data_objects.ifunc import IFunc
from specula.data_objects.iir_filter_data import IirFilterData
from specula.data_objects.pixels import Pixels
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.subap_data import SubapData
from specula.lib.demodulate_signal import demodulate_signal
import specula.processing_objects.demodulator as demod_module
from specula.processing_objects.demodulator import Demodulator
from specula.processing_objects.dynamic_integrator import DynamicIntegrator
import specula.processing_objects.gain_optimizer as gain_module
from specula.processing_objects.gain_optimizer import GainOptimizer
from specula.processing_objects.lift import Lift
from specula.processing_objects.optical_gain_estimator import OpticalGainEstimator
from specula.processing_objects.spot_monitor import SpotMonitor

PO = 'processing_objects/'
S = 10 ** 9
DE = PO + 'demodulator.py:Demodulator.'
GO = PO + 'gain_optimizer.py:GainOptimizer.'
LI = PO + 'lift.py:Lift.'


@harness('C25', funcs=[DE + 'trigger_code', DE + '_perform_demodulation', DE + '__init__'], trials=60)
def demodulator(e):
    """Once per demodulation interval, each mode is demodulated at its own carrier over the samples of that interval, all of them and no others."""
    n = e.dim('n', 2, 6)
    N = e.choice('N', [1, 2, 3])
    p = SimulParams(pixel_pupil=2, pixel_pitch=0.1, time_step=0.5)
    o = Demodulator(p, [0, 1], [3.0, 7.0], 0.5 * N)
    modes = e.indices('modes', 2, n)
    e.setattr(o, 'mode_numbers', modes)
    calls, results = [], []

    def demodulate(signal_data, carrier_freq, sampling_freq, cumulated=True, **options):
        calls.append((signal_data, carrier_freq, sampling_freq, cumulated))
        results.append(e.real(f'amp{len(data)}_{len(results)}'))
        return results[-1], 0.0
    e.setattr(demod_module, 'demodulate_signal', demodulate)
    data, out = [], e.np.zeros(2)
    src = BaseValue(value=e.np.zeros((n,)))
    wire(o, in_data=src)
    last = -1
    for k in range(2 * N + 1):
        t = k * S // 2
        d = e.array(f'd{k}', n)
        data.append(d)
        src.value = d
        src.generation_time = t
        del calls[:], results[:]
        step(o, t)
        if (k + 1) % N == 0:
            e.ensure('one demodulation per mode', len(calls) == 2)
            for i, (sig, f, fs, cum) in enumerate(calls):
                e.eq('the samples of the interval', sig, e.np.stack([data[k + 1 - N + x][modes[i]] for x in range(N)]))
                e.ensure('at the carrier of the mode, at the rate of the loop', (f, fs, cum) == ((3.0, 7.0)[i], 2.0, True))
            out = e.np.array(results)
            last = t
        else:
            e.ensure('no demodulation within the interval', not calls)
        e.eq('published amplitudes', o.outputs['output'].value, out)
        e.ensure('published when the interval ends', o.outputs['output'].generation_time == last)


def amplitude(x, fc, fs, cumulated):
    """Amplitude and phase of the carrier in one signal."""
    nt = len(x)
    t = np.arange(nt) / fs
    w = 2 * np.pi * fc
    y = x - x.mean()
    y = y - (y[-1] - y[0]) / nt * np.arange(nt) - y[0]
    ref = math.atan2((y * np.sin(w * t)).mean(), (y * np.cos(w * t)).mean())
    s, c = np.sin(w * t - ref), np.cos(w * t - ref)
    if not cumulated:
        q, p = (y * s).mean(), (y * c).mean()
        return 2 * math.hypot(q, p), math.atan2(q, p) + ref, True
    per = int(np.floor(t.max() * fc))
    if per > 0:
        samples = [(k + 1) * fs / fc for k in range(per)]
        err = [abs(v - round(v)) for v in samples]
        good = [v for v, d in zip(samples, err) if d <= 1e-3]
        m = int(good[-1]) if good else int(samples[int(np.argmin(err))])
    else:
        m = max(1, nt // 4)
    amp, ph = [], []
    for j in range(2, nt):
        z = x[:j + 1] - x[0]
        z = z - (x[j] - x[0]) / j * np.arange(j + 1)
        q, p = (z * s[:j + 1]).mean(), (z * c[:j + 1]).mean()
        amp.append(2 * math.hypot(q, p))
        ph.append(math.atan2(q, p))
    # the angle of a vanishing or opposite phasor is not defined
    sure = min(amp) > 0.05 and max(abs(v) for v in ph) < 3
    return np.mean(amp[-m:]), np.mean(ph[-m:]) + ref, sure


@harness('C25', funcs=['lib/demodulate_signal.py:demodulate_signal'], mode='test', trials=80)
def demodulation(e):
    """The amplitude and phase of the carrier, of each column, blind to constants; amplitude scales with the signal and is that of a pure carrier."""
    nt = e.dim('nt', 6, 40)
    fc, fs = e.choice('case', [(10.0, 100.0), (25.0, 100.0), (7.0, 100.0), (2.0, 100.0), (12.5, 50.0)])
    cum = e.flag('cumulated')
    x = e.array('x', (nt, 2))
    v, p = demodulate_signal(x, fc, fs, cumulated=cum, dtype=np.float64)
    for i in range(2):
        sv, sp, sure = amplitude(x[:, i], fc, fs, cum)
        e.eq('amplitude', v[i], sv, tol=1e-5)
        if sure and sv > 0.05:
            e.ensure('phase', abs(np.exp(1j * p[i]) - np.exp(1j * sp)) < 2e-3)
        v1, p1 = demodulate_signal(x[:, i], fc, fs, cumulated=cum, dtype=np.float64)
        e.eq('one signal as a column of several', v1, v[i], tol=1e-5)
        if sure and sv > 0.05:
            e.ensure('one signal as a column of several, phase', abs(np.exp(1j * p1) - np.exp(1j * p[i])) < 2e-3)
    v2, _ = demodulate_signal(3 * x + 5, fc, fs, cumulated=cum, dtype=np.float64)
    e.eq('amplitude scales, whatever the offset', v2, 3 * v, tol=1e-5)
    m = e.dim('periods', 20, 60)
    a = e.real('a', 0.5, 3)
    k = np.arange(int(m * 20))
    pure = a * np.cos(2 * np.pi * k / 20 + e.real('phi', 0, 6))
    vp, _ = demodulate_signal(pure, 5.0, 100.0, cumulated=cum, dtype=np.float64)
    e.ensure('a pure carrier has its own amplitude', abs(vp - a) < 0.15 * a)


OG = PO + 'optical_gain_estimator.py:OpticalGainEstimator.'


@harness('C25', funcs=[OG + f for f in ('trigger_code', '_update_optical_gain', '_calculate_output', 'prepare_trigger', '__init__')], trials=80)
def optical_gain(e):
    """The gain follows the ratio of the demodulated signals when both are fresh and the reference is not zero; what is published never exceeds one."""
    k, g = e.real('k', 0, 1), e.real('g', 0.1, 2)
    o = OpticalGainEstimator(gain=k, initial_optical_gain=g)
    d, c = BaseValue(value=e.np.zeros((1,))), BaseValue(value=e.np.zeros((1,)))
    wire(o, in_demod_delta_command=d, in_demod_command=c)
    e.eq('initial gain', o.outputs['optical_gain'].value, e.mk((1,), lambda i: g))
    when = -1
    for t in (1, 2):
        d.value = e.array(f'd{t}', 1)
        c.value = e.array(f'c{t}', 1)
        fresh = e.choice(f'fresh{t}', ['both', 'delta', 'command'])
        if fresh != 'command':
            d.generation_time = t
        if fresh != 'delta':
            c.generation_time = t
        step(o, t)
        if fresh == 'both' and e.case(abs(c.value[0]) > 1e-12):
            g = g - (1 - d.value[0] / c.value[0]) * k * g
            when = t
        e.eq('optical gain', o.outputs['optical_gain'].value, e.mk((1,), lambda i: g), tol=1e-9)
        e.ensure('time of the optical gain', o.outputs['optical_gain'].generation_time == when)
        e.eq('published gain', o.outputs['output'].value, e.mk((1,), lambda i: e.ite(g < 1, g, 1.0)), tol=1e-9)
        e.ensure('published at each step', o.outputs['output'].generation_time == t)


def optimizer(e, n=2, **k):
    p = SimulParams(pixel_pupil=2, pixel_pitch=0.1, time_step=0.5)
    num, den = np.zeros((n, 2)), np.zeros((n, 2))
    num[:, 1], den[:, 0], den[:, 1] = [0.5, 0.25, 0.3][:n], -1.0, 1.0
    f = IirFilterData(ordnum=[2] * n, ordden=[2] * n, num=num, den=den)
    return GainOptimizer(p, f, verbose=False, **k), f


@harness('C25', funcs=[GO + f for f in ('trigger_code', '_optimize_gains', '_calculate_max_gains', 'prepare_trigger', 'post_trigger', '__init__')], trials=60)
def gain_update(e):
    """At each optimisation interval the new gains approach the best ones by the allowed increment, follow the optical gain, keep the safety margin and never exceed the stable limit; the filter receives them."""
    limit, track = e.choice('case', [(True, False), (True, True), (False, True)])
    inc, safe, fac = e.real('inc', 0, 1), e.real('safe', 0, 1), e.real('fac', 0, 1)
    delay = e.choice('delay', [1.0, 2.5])
    o, f = optimizer(e, opt_dt=1.0, delay=delay, max_inc=inc, safety_factor=safe, max_gain_factor=fac, limit_inc=limit)
    gmax, best = e.array('gmax', 2, lo=0), [e.real('b0', 0, 2), e.real('b1', 0, 2)]
    asked, pols, given = [], [], []

    def max_stable_gain(**k):
        asked.append(k)
        return gmax.copy()
    e.setattr(f, 'max_stable_gain', max_stable_gain)

    def single(mode, pol, dt, g):
        pols.append((mode, pol, dt, g))
        return best[mode]
    e.setattr(o, '_optimize_single_mode', single)
    e.setattr(f, 'set_gain', lambda g: given.append(g.copy()))
    d, c, og = BaseValue(value=np.zeros(2)), BaseValue(value=np.zeros(2)), BaseValue(value=0.0)
    wire(o, delta_comm=d, out_comm=c)
    if track:
        wire(o, optical_gain=og)
    prev = f.gain.copy()
    D, C, G = [], [], []
    want, last = e.np.ones(2), -1
    for k in range(5):
        t = k * S // 2
        d.value, c.value = e.array(f'd{k}', 2), e.array(f'c{k}', 2)
        og.value = e.real(f'og{k}', 0.5, 1)
        D.append(d.value)
        C.append(c.value)
        G.append(og.value)
        d.generation_time = c.generation_time = og.generation_time = t
        del asked[:], pols[:], given[:]
        step(o, t)
        if k in (2, 4):
            e.ensure('limits of the delay of the loop', len(asked) == 1 and asked[0]['delay'] == delay)
            e.ensure('one optimisation per mode', [x[0] for x in pols] == [0, 1] and all(x[2] == 0.5 for x in pols))
            for m in range(2):
                e.eq('pseudo open loop signal of the mode', pols[m][1], e.np.stack([D[0][m]] + [C[j - 1][m] + D[j][m] for j in range(1, k + 1)]))
                e.eq('searched up to the stable limit', pols[m][3], gmax[m] * fac)
            new = []
            for m in range(2):
                g = best[m]
                if limit:
                    g = prev[m] + inc * (g - prev[m])
                if track:
                    g = g * (G[-1] / G[-2])
                g = g * safe
                new.append(e.ite(g < gmax[m] * fac, g, gmax[m] * fac))
            want = prev = e.np.stack(new)
            last = t
            e.ensure('the filter receives the gains', len(given) == 1)
            e.eq('the gains the filter receives', given[0], want, tol=1e-9)
        else:
            e.ensure('nothing between the intervals', not asked and not pols and not given)
        e.eq('optimised gains', o.outputs['optimized_gain'].value, want, tol=1e-9)
        e.ensure('time of the gains', o.outputs['optimized_gain'].generation_time == last)


@harness('C25', funcs=[GO + '_calculate_pseudo_open_loop'], trials=60)
def pseudo_open_loop(e):
    """The pseudo open loop signal is the measurement plus the command that was applied when it was taken."""
    T, n = e.dim('T', 1, 6), e.dim('n', 1, 4)
    o, _ = optimizer(e)
    d, c = e.array('d', (T, n)), e.array('c', (T, n))
    e.eq('pseudo open loop', o._calculate_pseudo_open_loop(d, c), e.mk((T, n), lambda t, m: e.ite(t == 0, d[t, m], c[t - 1, m] + d[t, m])))


@harness('C25', funcs=[GO + f for f in ('_optimize_single_mode', '_calculate_psd', '_calculate_rejection_tf', '_calculate_rejection_tf_cached', '_round_values_for_cache')], mode='test', trials=25)
def best_gain(e):
    """The gain of a mode is the one, of the grid below the stable limit, whose closed loop leaves the least residual power of the signal."""
    from scipy import signal
    n = e.dim('T', 40, 300)
    ng = e.choice('ngains', [5, 20])
    delay = e.choice('delay', [1.0, 2.0, 2.5])
    o, f = optimizer(e, delay=delay, ngains=ng)
    o.nperseg_psd = min(n, 256)
    x = np.cumsum(e.array('x', n)) if e.flag('slow') else e.array('x', n)
    dt, m = 0.01, e.choice('mode', [0, 1])
    gmax = e.real('gmax', 0.3, 1.2)
    g = o._optimize_single_mode(m, x, dt, gmax)
    fr, psd = signal.welch(x, fs=1 / dt, window='hann', nperseg=min(n, 256))
    z = np.exp(2j * np.pi * fr * dt)
    num = f.num[m] / f.gain[m]
    with np.errstate(all='ignore'):
        C = sum(num[i] * z ** i for i in range(2)) / sum(f.den[m][i] * z ** i for i in range(2))

    def cost(k):
        with np.errstate(all='ignore'):
            h = 1 / (1 + k * C * z ** -delay)
        h[0] = 0
        return (np.abs(h) ** 2 * psd).sum()
    grid = [gmax * (i + 1) / ng for i in range(ng)]
    e.ensure('a gain of the grid', min(abs(g - v) for v in grid) < 1e-6)
    e.ensure('the least residual', cost(g) <= min(cost(v) for v in grid) * (1 + 1e-4))


@harness('C25', funcs=[GO + '_optimize_single_mode', GO + '_optimize_gains'], mode='test', trials=40)
def running_mean_of_the_spectrum(e):
    """With running_mean the spectrum that is optimised keeps memory of the previous intervals."""
    o, f = optimizer(e, ngains=50, running_mean=True, opt_dt=1.0)
    p, q, gmax = e.real('p', 1, 9), e.real('q', 1, 9), e.real('gmax', 0.5, 1.5)
    o.nperseg_psd = 64
    o.psd_ol = np.zeros((33, 2))
    now = np.zeros(33)
    e.setattr(o, '_calculate_psd', lambda data, dt: (now.copy(), np.arange(33) / 0.64))
    # a rejection that grows with the gain at one frequency and decreases at another
    e.setattr(o, '_calculate_rejection_tf', lambda freq, dt, gain, num, den: np.where(np.arange(33) == 3, gain, np.where(np.arange(33) == 20, gmax - gain, 0.0)))
    x = np.linspace(0, 1, 64)
    past, m = [0.0, 0.0], e.choice('mode', [0, 1])
    for k in range(3):
        now[:] = 0
        now[3], now[20] = (p, 0) if k != 1 else (0, q)
        past = [(past[0] + now[3]) / 2, (past[1] + now[20]) / 2]
        g = o._optimize_single_mode(m, x, 0.01, gmax)
        e.ensure(f'gain of interval {k}', abs(g - gmax * past[1] / (past[0] + past[1])) <= gmax / 50 * 1.01)


DI = PO + 'dynamic_integrator.py:DynamicIntegrator.'


@harness('C25', funcs=[DI + 'prepare_trigger', DI + '__init__'], trials=60)
def interactive_integrator(e):
    """A fresh gain changes the gain of the integrator from that step on, a fresh reset clears what it had integrated, and stale ones do nothing."""
    n = 2
    p = SimulParams(pixel_pupil=2, pixel_pitch=0.1, time_step=0.5)
    o = DynamicIntegrator(p, int_gain=[0.5], n_modes=[n], delay=0)
    d, g, r = BaseValue(value=np.zeros(n)), BaseValue(value=0.5), BaseValue(value=1.0)
    wire(o, delta_comm=d)
    ins = e.choice('inputs', ['none', 'gain', 'reset', 'both'])
    if ins in ('gain', 'both'):
        wire(o, int_gain=g)
    if ins in ('reset', 'both'):
        wire(o, reset=r)
    o.setup()
    acc, gain = e.np.zeros(n), 0.5
    for t in (1, 2, 3):
        d.value = e.array(f'd{t}', n)
        d.generation_time = t
        fresh = t == 2
        if fresh:
            g.value = e.real(f'g{t}', 0.1, 1)
            g.generation_time = r.generation_time = t
            if ins in ('gain', 'both'):
                gain = g.value
            if ins in ('reset', 'both'):
                acc = e.np.zeros(n)
        step(o, t)
        acc = acc + gain * d.value
        e.eq('integrated command', o.outputs['out_comm'].value, acc, tol=1e-9)


# ---------------------------------------------------------------- LIFT
def lift(e, npx=16, nz=3, npist=0, crop=4, ref=None, scale=0.005, n_iter=20, fix=False):
    z = IFunc(type_str='zernike', nmodes=nz, npixels=npx)
    if npist:
        m = np.asarray(z.mask_inf_func)
        a = np.asarray(z.influence_function)
        half = np.zeros((1, a.shape[1]))
        half[0, :a.shape[1] // 2] = 1.0
        z = IFunc(np.vstack([half] * npist + [a]), mask=m)
    return Lift(SimulParams(pixel_pupil=npx, pixel_pitch=1.0), npist, nz, 750.0, scale, npx, crop, z, np.zeros(nz) if ref is None else ref, n_iter=n_iter, fix=fix)


@harness('C25', funcs=[LI + f for f in ('phaseFromCoeffs', 'phaseLIFT', 'complexField', 'focalPlaneImageFromFFT', 'ft_ft2', 'calcDerivatives', 'IK_prime', 'crop', 'setRefTT', 'set_modalbase')], mode='test', trials=20)
def lift_model(e):
    """The model image is that of the reference aberration plus the estimate, and the derivatives are its derivatives along each mode."""
    npist = e.choice('npist', [0, 1])
    nz = 4
    ref = e.array('ref', nz, lo=-0.5, hi=0.5)
    o = lift(e, nz=nz, npist=npist, ref=ref)
    n, F = o.gridSize, o.fftSize
    c = e.array('c', npist + nz, lo=-0.3, hi=0.3)
    o.setRefTT(e.real('cx', n / 2 - 1, n / 2 + 1), e.real('cy', n / 2 - 1, n / 2 + 1), float(n))
    M = np.array([np.asarray(x) for x in o.modes])
    aref = np.concatenate([np.zeros(npist), ref])
    tt = np.zeros(npist + nz)
    tt[npist], tt[npist + 1] = o.ref_tip, o.ref_tilt

    def image(c):
        ph = np.tensordot(c + aref + tt, M, 1)
        pad = (F - n) // 2
        P = np.zeros((F, F), dtype=complex)
        P[pad:pad + n, pad:pad + n] = o.mask * np.exp(1j * ph)
        return (np.abs(np.fft.fftshift(np.fft.fft2(P)) / F) ** 2)[pad:pad + n, pad:pad + n]
    f, ft = o.complexField(o.phaseFromCoeffs(c))
    raw = image(c)
    e.eq('image of the phase', o.focalPlaneImageFromFFT(ft), raw / o.mask.sum(), tol=1e-4)
    e.eq('image of a given flux', o.focalPlaneImageFromFFT(ft, set_flux=7.0), raw * (7.0 / raw.sum()), tol=1e-4)
    center = (n / 2.0, n / 2.0)
    H = o.calcDerivatives(f, ft, center)
    lo, hi = int(math.ceil(n / 2 - 4)), int(math.ceil(n / 2 + 4))
    for k in range(npist + nz):
        h = np.zeros(npist + nz)
        h[k] = 1e-3
        num = ((image(c + h) - image(c - h)) / 2e-3)[lo:hi, lo:hi]
        e.ensure('derivative along the mode', np.abs(H[:, k] - num.ravel()).max() < 1e-3 * max(np.abs(num).max(), 1e-6) + 1e-5)


@harness('C25', funcs=[LI + 'computeReconstructor', LI + 'computeNoiseCovarianceDiag', LI + 'applyReconstructor', LI + 'getError'], mode='test', trials=40)
def lift_step(e):
    """Each step is the weighted least squares solution, the weight of a pixel being the inverse of its expected noise."""
    o = lift(e)
    H = e.array('H', (20, 3))
    img = e.array('img', (4, 5), lo=0, hi=5)
    e.assume(img.max() > 0.1)
    R = o.computeNoiseCovarianceDiag(img)
    e.eq('noise of a pixel', R, np.maximum(img.ravel(), img.max() * 1e-6), tol=1e-6)
    R = R + 0.01
    e.assume(np.linalg.svd(H.T * R ** -0.5, compute_uv=False).min() > 1e-2)
    Rinv, P = o.computeReconstructor(H, R)
    d = e.array('d', (4, 5))
    x = o.applyReconstructor(P, d)
    W = np.sqrt(1 / R)
    y = np.linalg.lstsq(H * W[:, None], d.ravel() * W, rcond=None)[0]
    e.eq('weighted least squares', x, y, tol=1e-4)
    e.eq('criterion', o.getError(d, Rinv), (d.ravel() ** 2 / R).sum() / o.gridSize ** 2, tol=1e-5)


@harness('C25', funcs=[LI + 'crop', LI + 'crop_or_enlarge_around_peak', LI + 'computeCoG', LI + 'calcCenter', LI + 'calcCroppedFlux', LI + 'setPsf', LI + 'setRefTT'], mode='test', trials=60)
def lift_windows(e):
    """The window holds the pixels around the centre of the image, the centre being that of the light above the threshold, and no light is invented."""
    o = lift(e)
    n = e.dim('n', 9, 24)
    img = e.array('img', (n, n), lo=0.01, hi=1)
    img[n // 2, n // 2] += 20
    cy, cx = o.computeCoG(img)
    w = np.clip(img - 0.05 * img.max(), 0, None)
    yy, xx = np.mgrid[0:n, 0:n]
    e.eq('centre, rows', cy, (w * yy).sum() / w.sum(), tol=1e-6)
    e.eq('centre, columns', cx, (w * xx).sum() / w.sum(), tol=1e-6)
    e.eq('centre used', np.array(o.calcCenter(img)), np.array([cx, cy]), tol=1e-9)
    a, b = e.real('a', 4, n - 5), e.real('b', 4, n - 5)
    rows, cols = range(int(math.ceil(b - 2)), int(math.ceil(b + 2))), range(int(math.ceil(a - 2)), int(math.ceil(a + 2)))
    e.eq('window', o.crop(img, (a, b), side=2), img[np.ix_(rows, cols)])
    o.cropped_size = 2
    e.eq('flux of the window', o.calcCroppedFlux(img, (a, b)), img[np.ix_(rows, cols)].sum(), tol=1e-9)
    size = e.dim('size', 4, 30)
    r, c = n // 2, n // 2
    got = o.crop_or_enlarge_around_peak(img, size, peak_index=(r, c))
    e.ensure('size of the frame', got.shape == (size, size))
    h = size // 2
    src = img[max(0, r - h):min(n, r + h), max(0, c - h):min(n, c + h)]
    p = (size - src.shape[0]) // 2
    want = np.zeros((size, size))
    want[p:p + src.shape[0], p:p + src.shape[1]] = src
    e.eq('frame around the peak', got, want)
    o.setRefTT(a, b, float(n))
    e.eq('reference tilt from the position', np.array([o.ref_tip, o.ref_tilt]), np.array([b - n / 2, a - n / 2]) * np.pi / (2 * o.fftSize / o.gridSize), tol=1e-6)


@harness('C25', funcs=[LI + 'phaseEstimation', LI + 'trigger', LI + 'prepare_trigger'], mode='test', trials=8)
def lift_estimate(e):
    """From the image of a small aberration, LIFT recovers the aberration in nanometres and publishes pistons and Zernikes separately."""
    npist = e.choice('npist', [0, 1])
    nz = 5
    ref = np.zeros(nz)
    ref[e.choice('reference', [2, 3])] = 0.6
    o = lift(e, npx=64, nz=nz, npist=npist, ref=ref, crop=10, scale=0.0012, n_iter=30)
    n = o.gridSize
    c = np.zeros(npist + nz)
    c[npist + 2:] = e.array('c', nz - 2, lo=-0.1, hi=0.1)
    img = o.focalPlaneImageLIFT(np.tensordot(c, np.asarray(o.modesCube), 1))
    px = Pixels(n, n)
    px.pixels = img * 1e6
    px.generation_time = S
    wire(o, in_pixels=px)
    step(o, S)
    got = np.concatenate([np.asarray(o.outputs['out_pistons'].value), np.asarray(o.outputs['out_zern'].value)])
    e.ensure('tip, tilt and pistons are not made up', np.abs(got[:npist + 2]).max() < 0.5)
    e.ensure('sizes', o.outputs['out_pistons'].value.shape == (npist,) and o.outputs['out_zern'].value.shape == (nz,))
    e.ensure('aberration in nanometres', np.abs(got[npist + 2:] - c[npist + 2:] * 750 / (2 * np.pi)).max() < 0.5)
    e.ensure('published now', o.outputs['out_zern'].generation_time == S and o.outputs['out_pistons'].generation_time == S)


@harness('C25', funcs=[LI + 'calc_geometry', LI + '_build_reference_coeffs'], mode='test', trials=60)
def lift_geometry(e):
    """The transform samples the image at the pixel scale of the detector, and too many reference amplitudes are refused."""
    n, D = e.dim('n', 8, 64), e.real('D', 1, 10)
    wl, scale = e.real('wl', 500, 2200), e.real('scale', 0.001, 0.02)
    k = scale / (wl * 1e-9 / D * 206264.806247)
    e.assume(k > 0.05)
    e.assume(k < 1)
    e.assume(round(n * k) >= 1)
    s = Lift.calc_geometry(n, D / n, wl, scale, 16, 2)
    e.ensure('sizes', s.fft_sampling == round(n * k) and s.fft_size == round(s.fft_sampling / k) // 2 * 2 and s.fft_padding == s.fft_size - s.fft_sampling)
    e.eq('resolution', s.fft_res, s.fft_size / s.fft_sampling, tol=1e-9)
    e.eq('sampling', s.sampling_ratio, k, tol=1e-9)
    e.eq('field of view', s.actual_fov, wl * 1e-9 / D * s.fft_sampling * 206264.806247, tol=1e-9)
    extra = e.dim('extra', 1, 5)
    raises_iff(e, 'too many reference amplitudes', ValueError, lambda: lift(e, nz=3, ref=np.zeros(extra)), extra > 3)


SM = PO + 'spot_monitor.py:SpotMonitor.'


@harness('C25', funcs=[SM + f for f in ('trigger_code', 'post_trigger', '_estimate_initials', '_moffat_fwhm', '__init__')], mode='test', trials=12)
def spot_monitor(e):
    """The summed spot is the sum of the subapertures; model plus residual give it back, and the parameters of a true Moffat spot are recovered."""
    n, ns = e.choice('np_sub', [8, 11]), 3
    side = n * 2
    pos = e.choice('pos', [[(0, 0), (0, 1), (1, 1)], [(1, 0), (0, 1), (1, 1)]])
    idx = np.array([[(r * n + i) * side + c * n + j for i in range(n) for j in range(n)] for r, c in pos])
    sub = SubapData(idxs=idx, display_map=np.array([r * 2 + c for r, c in pos]), nx=2, ny=2)
    o = SpotMonitor(sub)
    A, x0, y0, g, al, sky = e.real('A', 5, 50), e.real('x0', n / 2 - 0.8, n / 2 - 0.2), e.real('y0', n / 2 - 0.8, n / 2 - 0.2), e.real('gam', 2.5, 3.2), e.real('al', 1.8, 2.3), e.real('sky', 0.5, 2)
    yy, xx = np.mgrid[0:n, 0:n]
    spot = sky + A * (1 + ((xx - x0) ** 2 + (yy - y0) ** 2) / g ** 2) ** -al
    w = [0.2, 0.3, 0.5]
    px = Pixels(side, side)
    px.pixels = e.array('noise', (side, side), lo=0, hi=1)
    for (r, c), k in zip(pos, w):
        px.pixels[r * n:(r + 1) * n, c * n:(c + 1) * n] = spot * k
    px.generation_time = S
    wire(o, in_pixels=px)
    step(o, S)
    tot = o.outputs['out_sum_pixels'].pixels
    p = np.asarray(o.outputs['out_params'].value)
    e.eq('sum of the subapertures', tot, spot, tol=1e-5)
    e.eq('model and residual', o.outputs['out_model_pixels'].pixels + o.outputs['out_residual_pixels'].pixels, tot, tol=1e-4)
    e.ensure('fitted', p[8] == 1)
    e.ensure('mean square of the residual', abs(p[7] - (o.outputs['out_residual_pixels'].pixels ** 2).mean()) < 1e-5)
    e.eq('position', p[1:3], np.array([x0, y0]), tol=1e-2)
    e.eq('width', p[6], 2 * g * math.sqrt(2 ** (1 / al) - 1), tol=2e-2)
    e.ensure('width of the parameters', abs(p[6] - 2 * p[3] * math.sqrt(2 ** (1 / p[4]) - 1)) < 1e-4 * p[6])
    e.eq('peak and sky', p[0] + p[5], A + sky, tol=2e-2)
    e.ensure('published now', all(x.generation_time == S for x in o.outputs.values()))
