"""C22: signal generators."""
import math
import numpy as np
from pvc.api import harness
from contracts.common import step, wire, val, raises_iff
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.time_history import TimeHistory
from specula.lib.modal_pushpull_signal import modal_pushpull_signal
from specula.lib.utils import psd_to_signal
from specula.processing_objects.base_generator import BaseGenerator
from specula.processing_objects.push_pull_generator import PushPullGenerator
from specula.processing_objects.random_generator import RandomGenerator
from specula.processing_objects.schedule_generator import ScheduleGenerator
from specula.processing_objects.time_history_generator import TimeHistoryGenerator
from specula.processing_objects.vibration_generator import VibrationGenerator
from specula.processing_objects.wave_generator import WaveGenerator
import specula.processing_objects.vibration_generator as m_vib

PO = 'processing_objects/'
BG = [PO + 'base_generator.py:BaseGenerator.' + f for f in ('__init__', 'prepare_trigger', 'post_trigger', '_validate_array_sizes')]
WG = BG + [PO + 'wave_generator.py:WaveGenerator.' + f for f in ('__init__', 'trigger_code')]
SG = BG + [PO + 'schedule_generator.py:ScheduleGenerator.' + f for f in ('__init__', 'trigger_code')]
RG = BG + [PO + 'random_generator.py:RandomGenerator.' + f for f in ('__init__', 'trigger_code')]
PG = BG + [PO + 'push_pull_generator.py:PushPullGenerator.' + f for f in ('__init__', 'trigger_code')]
TG = BG + [PO + 'time_history_generator.py:TimeHistoryGenerator.' + f for f in ('__init__', 'trigger_code')]
VG = BG + [PO + 'vibration_generator.py:VibrationGenerator.' + f for f in ('__init__', 'trigger_code')]
S = 10 ** 9


def wave_of(e, kind, phase):
    """The waveform of unit amplitude at a phase (radians)."""
    np_ = e.np
    if kind == 'SIN':
        return np_.sin(phase)
    if kind == 'SQUARE':
        return np_.sign(np_.sin(phase))
    if e.symbolic:
        return 2 * np_.arcsin(np_.sin(phase)) / np_.pi
    u = (phase / (2 * math.pi) + 0.25) % 1.0        # a triangle rising from -1 to 1 in half a period
    return 4 * u - 1 if u < 0.5 else 3 - 4 * u


@harness('C22', funcs=WG, trials=80)
def waves(e):
    """At any time: trend + waveform + constant, element by element."""
    kind = e.choice('wave', ['SIN', 'SQUARE', 'TRIANGLE', 'sin', 'Triangle'])
    par = {}
    shape = e.choice('shape', ['scalars', 'vectors', 'mixed', 'vsize'])
    n = e.dim('n', 2) if shape in ('vectors', 'mixed') else 1
    for k in ('amp', 'freq', 'offset', 'constant', 'slope'):
        vec = shape == 'vectors' or shape == 'mixed' and k in ('amp', 'offset')
        par[k] = e.array(k, (n,), lo=-9, hi=9) if vec else e.real(k, -9, 9)
    m = 3 if shape == 'vsize' else n
    o = WaveGenerator(wave_type=kind, vsize=m if shape == 'vsize' else 1, **par)
    o.setup()
    t1 = e.int('t', 0, 10 ** 12)
    t2 = e.int('later', 0, 10 ** 12)
    e.assume(t2 > t1)
    for t in (t1, t2):
        e.ensure('computes at every step', step(o, t))
        s = t / S
        at = lambda k, i: par[k][i] if hasattr(par[k], 'shape') and par[k].shape else par[k]
        want = e.mk((m,), lambda i: at('slope', i) * s + at('constant', i)
                    + at('amp', i) * wave_of(e, kind.upper(), at('freq', i) * 2 * e.np.pi * s + at('offset', i)))
        e.eq('wave', o.outputs['output'].value, want, tol=1e-7)
        e.eq('time stamp', o.outputs['output'].generation_time, t)


@harness('C22', funcs=WG, trials=10)
def wave_errors(e):
    a, b = e.dim('a', 1), e.dim('b', 1)
    e.raises('unknown wave', ValueError, lambda: WaveGenerator(wave_type='SAW'))
    if e.case(a != b):
        e.raises('vectors of different lengths', ValueError,
                 lambda: WaveGenerator(amp=e.array('amp', (a,)), freq=e.array('freq', (b,))))
    else:
        e.eq('size', WaveGenerator(amp=e.array('amp', (a,)), freq=e.array('freq', (b,))).outputs['output'].value.shape, (a,))


@harness('C22', funcs=SG, trials=60)
def schedule(e):
    """The values in force at any time are those scheduled at the last time not later than it."""
    nt, groups = e.choice('case', [(1, [2, 1]), (3, [1, 3]), (0, [2]), (2, 4)])
    g = [groups] if isinstance(groups, int) else groups
    sets = e.array('values', (nt + 1, len(g)))
    gaps = e.array('gap', (nt,), lo=0, hi=3)
    times, x = [], e.real('start', -1, 3)
    for k in range(nt):
        x = x + gaps[k]
        times.append(x)
    o = ScheduleGenerator(scheduled_values=[sets[k] for k in range(nt + 1)], scheduled_times=list(times), modes_per_group=groups)
    o.setup()
    t1, t2 = e.int('t', 0, 10 ** 10), e.int('another t', 0, 10 ** 10)
    for t in (t1, t2):
        e.ensure('computes at every step', step(o, t))
        s = t / S
        row = [j for j, m in enumerate(g) for _ in range(m)]
        e.eq('size', o.outputs['output'].value.shape, (len(row),))
        for i, j in enumerate(row):
            want = sets[0, j]
            for k in range(nt):
                want = e.ite(times[k] <= s, sets[k + 1, j], want)
            e.eq('value in force', o.outputs['output'].value[i], want)
        e.eq('time stamp', o.outputs['output'].generation_time, t)


@harness('C22', funcs=SG[-2:], trials=4)
def schedule_errors(e):
    e.raises('one set of values more than times', ValueError, lambda: ScheduleGenerator([[1.0]], [1.0], [1]))
    e.raises('one set of values more than times', ValueError, lambda: ScheduleGenerator([[1.0], [2.0], [3.0]], [1.0], [1]))
    e.raises('one value per group', ValueError, lambda: ScheduleGenerator([[1.0], [1.0]], [1.0], [1, 2]))
    e.raises('one value per group', ValueError, lambda: ScheduleGenerator([[1.0], [1.0, 2.0]], [1.0], 3))


@harness('C22', funcs=RG, trials=60)
def random(e):
    """Successive draws of the seeded sequence, scaled and shifted element by element."""
    kind = e.choice('distribution', ['NORMAL', 'UNIFORM', 'uniform'])
    shape = e.choice('shape', ['sized', 'vectors', 'vsize', 'constants', 'default'])
    n = e.dim('n', 2)
    seed = e.choice('seed', [0, 7, 12.0])
    amp, const, kw, m = e.real('amp', 0, 9), e.real('const', -9, 9), {}, n
    if shape == 'sized':
        kw['output_size'] = n
    elif shape == 'vectors':
        amp, const = e.array('amps', (n,), lo=0, hi=9), e.array('consts', (n,))
    elif shape == 'constants':
        const = e.array('consts', (n,))
    elif shape == 'vsize':
        kw['vsize'] = n
    else:
        amp, const, m = None, 0.0, 1
    o = RandomGenerator(distribution=kind, seed=seed, constant=const, amp=amp, **kw)
    o.setup()
    rng = e.np.random.default_rng(int(seed))
    a = 1.0 if amp is None else amp
    for t in (1, 5, 6):
        e.ensure('computes at every step', step(o, t))
        if kind == 'NORMAL':
            want = rng.standard_normal(size=m) * a + const
        else:
            want = rng.uniform(low=const - a / 2, high=const + a / 2, size=m)
        e.eq('size', o.outputs['output'].value.shape, (m,))
        e.eq('seeded draw', o.outputs['output'].value, want)
        e.eq('time stamp', o.outputs['output'].generation_time, t)


@harness('C22', funcs=RG[-2:] + [PO + 'random_generator.py:RandomGenerator._generate_scaled_amps'], mode='test', trials=60)
def modal_amplitudes(e):
    """Amplitudes following the radial order, whose total rms is the requested one."""
    n = e.dim('n', 1, 40)
    zero = e.int('zero', 0, 5)
    law = e.choice('law', ['CONSTANT', 'INVERSE', 'linear'])
    rms = e.real('rms', 0.5, 9)
    mk = lambda: RandomGenerator(seed=1, output_size=n, modal_rms=rms, forced_zero_modes=zero, scaling_law=law)
    if zero > n:
        e.raises('more zero modes than modes', ValueError, mk)
        return
    amp = np.atleast_1d(np.array(mk().amp, float))
    e.eq('number of amplitudes', len(amp), n)
    e.eq('modes forced to zero', amp[:zero], np.zeros(zero))
    order = [next(k for k in range(99) if (k + 1) * (k + 2) // 2 >= j) for j in range(1, n + 1)]
    w = [0.0 if i < zero else {'CONSTANT': 1.0, 'INVERSE': 1.0 / max(order[i], 1), 'linear': 1.0 * max(order[i], 1)}[law] for i in range(n)]
    tot = math.sqrt(sum(x * x for x in w))
    e.eq('radial order law', amp, np.array(w) * (rms / tot if tot else 0.0))
    e.eq('total rms', math.sqrt(float(np.sum(amp ** 2))), rms if tot else 0.0)


@harness('C22', funcs=RG[-2:], trials=4)
def random_errors(e):
    e.raises('amplitude and rms', ValueError, lambda: RandomGenerator(amp=1.0, modal_rms=1.0, seed=1))
    e.raises('unknown distribution', ValueError, lambda: RandomGenerator(distribution='POISSON', seed=1))
    e.raises('different lengths', ValueError, lambda: RandomGenerator(amp=[1.0, 2.0], constant=[1.0, 2.0, 3.0], seed=1))
    e.raises('unknown law', ValueError, lambda: RandomGenerator(modal_rms=1.0, output_size=3, scaling_law='CUBIC', seed=1))


def poke_sequence(n, first, amps, pattern, ncycles, local, full, nsamples):
    """(mode, amplitude) of every row: the documented order."""
    rows = []
    inner = 1 if full else ncycles
    for _ in range(ncycles if full else 1):
        for mode in range(first, n):
            if local and not full:
                seq = [p for p in pattern for _ in range(inner)]
            else:
                seq = list(pattern) * inner
            rows += [(mode, amps[mode - first] * p) for p in seq for _ in range(nsamples)]
    return rows


def noll_order(j):
    """Radial order of Noll's mode j."""
    return next(k for k in range(99) if (k + 1) * (k + 2) // 2 >= j)


@harness('C22', funcs=PG + ['lib/modal_pushpull_signal.py:modal_pushpull_signal'], trials=60)
def push_pull(e):
    """The rows of the sequence, one per step, whatever the amplitudes."""
    n, first, ncyc, local, full, ns, kind = e.choice('case', [
        (3, 0, 1, False, False, 1, 'PUSHPULL'), (3, 1, 2, False, False, 2, 'pushpull'), (2, 0, 3, True, False, 1, 'PUSHPULL'),
        (2, 0, 2, True, True, 3, 'PUSHPULL'), (3, 2, 2, False, True, 1, 'PUSHPULL'), (2, 0, 2, False, False, 1, 'PUSH'),
        (3, 1, 2, False, True, 1, 'push')])
    pattern = [1] if kind.upper() == 'PUSH' else [e.real(f'p{k}', -3, 3) for k in range(e.choice('pattern', [2, 3]))]
    amps = e.array('amps', (n - first,))
    kw = {} if kind.upper() == 'PUSH' else dict(pattern=pattern, nsamples=ns)
    o = PushPullGenerator(nmodes=n, first_mode=first, push_pull_type=kind, vect_amplitude=amps, ncycles=ncyc,
                          repeat_ncycles=local, repeat_full_sequence=full, **kw)
    o.setup()
    rows = poke_sequence(n, first, amps, pattern, ncyc, local, full, ns)
    e.eq('length of the sequence', o.time_hist.shape[0], len(rows))
    for k, (mode, a) in enumerate(rows):
        e.ensure('computes at every step', step(o, 10 + k))
        e.eq('poke', o.outputs['output'].value, e.mk((n,), lambda i, mode=mode, a=a: e.ite(i == mode, a, 0)))
        e.eq('time stamp', o.outputs['output'].generation_time, 10 + k)


@harness('C22', funcs=['lib/modal_pushpull_signal.py:modal_pushpull_signal', 'lib/zernike_generator.py:ZernikeGenerator.degree'],
         mode='test', trials=60)
def push_pull_amplitudes(e):
    """Default amplitudes: the amplitude of the first mode over the square root of the radial order."""
    n = e.dim('n', 1, 30)
    first = e.int('first', 0, 29)
    e.assume(first < n)
    law = e.choice('law', ['sqrt', 'linear', 'constant'])
    top = e.choice('top', [None, 0.5])
    amp = e.real('amplitude', 0.1, 3)
    push = e.flag('push')
    h = modal_pushpull_signal(n, first_mode=first, amplitude=amp, linear=law == 'linear', constant=law == 'constant',
                              min_amplitude=top, only_push=push, ncycles=2)
    d = [noll_order(j + 2) for j in range(first, n)]
    a = [amp / {'sqrt': math.sqrt(k), 'linear': k, 'constant': 1}[law] for k in d]
    a = [min(x, top) if top is not None else x for x in a]
    rows = poke_sequence(n, first, a, [1] if push else [1, -1], 2, False, False, 1)
    want = np.zeros((len(rows), n))
    for k, (mode, x) in enumerate(rows):
        want[k, mode] = x
    e.eq('sequence', h, want)
    o = PushPullGenerator(nmodes=n, first_mode=first, amp=amp, constant_amp=True, ncycles=2)
    rows = poke_sequence(n, first, [amp] * (n - first), [1, -1], 2, False, False, 1)
    for k, (mode, x) in enumerate(rows[:9]):
        step(o, k + 1)
        e.eq('constant amplitude', o.output.value, np.array([x if i == mode else 0 for i in range(n)]))


@harness('C22', funcs=PG[-2:], trials=3)
def push_pull_errors(e):
    e.raises('no amplitude', ValueError, lambda: PushPullGenerator(nmodes=2))
    e.raises('samples without pull', ValueError, lambda: PushPullGenerator(nmodes=2, amp=1.0, push_pull_type='PUSH', nsamples=2))
    e.raises('unknown type', ValueError, lambda: PushPullGenerator(nmodes=2, amp=1.0, push_pull_type='PULL'))


@harness('C22', funcs=TG + ['data_objects/time_history.py:TimeHistory.__init__'], trials=60)
def time_history(e):
    """From any number of steps already taken: the row of this step, the last one once they are over."""
    n, m = e.dim('n', 1), e.dim('m', 1)
    one = e.flag('one value per step')
    h = e.array('h', (n,) if one else (n, m))
    o = TimeHistoryGenerator(TimeHistory(h))
    o.setup()
    e.eq('starts at the first row', o.iter_counter, 0)
    k = e.int('steps taken', 0, 12)
    o.iter_counter = k
    for j in (0, 1):
        t = 10 * (j + 1)
        e.ensure('computes at every step', step(o, t))
        r = e.ite(k + j < n, k + j, n - 1)
        want = e.mk((1,), lambda i, r=r: h[r]) if one else e.mk((m,), lambda i, r=r: h[r, i])
        e.eq('row of the step', o.outputs['output'].value, want)
        e.eq('one step counted', o.iter_counter, k + j + 1)
        e.eq('time stamp', o.outputs['output'].generation_time, t)


@harness('C22', funcs=['lib/utils.py:psd_to_signal'], trials=40)
def psd_signal(e):
    """The inverse transform of a spectrum with the amplitudes of the PSD and seeded random phases."""
    n = e.choice('n', [1, 2, 5])
    psd = e.array('psd', (n,), lo=0, hi=9)
    fs = e.choice('fs', [2, 500])
    seed = e.choice('seed', [1, 8])
    out, im = psd_to_signal(psd, fs, e.np, float, complex, seed=seed)
    df = fs / n / 2
    ph = e.np.random.default_rng(seed).uniform(0, 2 * e.np.pi, 2 * n)
    amp = e.np.zeros(2 * n, dtype=complex)
    amp[1:n + 1] = e.np.sqrt(psd * df)
    amp[n + 1:] = e.np.sqrt(psd[:-1] * df)[::-1]
    spec = e.np.fft.ifft(amp * e.np.exp(1j * ph)) * 2 * n
    e.eq('signal', out, e.np.real(spec), tol=1e-9)
    e.eq('quadrature', im, e.np.imag(spec), tol=1e-9)
    if not e.symbolic:
        power = np.abs(np.fft.fft(out + 1j * im) / (2 * n)) ** 2
        e.eq('power', power[1:n + 1], np.array(psd) * df, tol=1e-6)
        e.eq('total power', float(np.mean(out ** 2 + im ** 2)), float(np.sum(psd) + np.sum(psd[:-1])) * df, tol=1e-6)


@harness('C22', funcs=VG + [PO + 'vibration_generator.py:get_vibrations_time_hist'], trials=60)
def vibration(e):
    """One signal per mode, each from its PSD on its frequencies and its own seed, played sample by sample."""
    nm, rows, two_d, dt, total = e.choice('case', [(1, 1, False, 0.5, 2.0), (2, 3, True, 0.25, 1.25), (2, 2, False, 0.1, 0.3), (2, 2, True, 0.1, 0.7)])
    nf = 3
    zero = e.flag('start from zero')
    psd = e.array('psd', (rows, nf), lo=0, hi=9)
    freq = e.array('freq', (nf, rows) if two_d else (nf,), lo=1, hi=9)
    if not e.symbolic:
        freq = np.sort(freq, axis=0)
    seed = e.choice('seed', [1987, 3])
    steps = round(total / dt)
    half = (steps + 1) // 2
    made = []

    def by_contract(p, fs, xp, dtype, complex_dtype, seed=1):
        """Signals by contract: an arbitrary series of two samples per PSD sample."""
        made.append((p, fs, e.array(f'signal{len(made)}', (2 * half,)), seed))
        return made[-1][2].copy(), None
    e.setattr(m_vib, 'psd_to_signal', by_contract)
    o = VibrationGenerator(SimulParams(pixel_pupil=2, pixel_pitch=1.0, total_time=total, time_step=dt), nmodes=nm, psd=psd,
                           freq=freq, seed=seed, start_from_zero=zero)
    o.setup()
    for i in range(nm):
        p, fs, sig, its = made[i]
        e.eq('seed of the mode', its, seed + i)
        f = freq[:, i] if two_d else freq
        e.eq('sampling frequency', fs, 1 / dt, tol=1e-9)
        e.eq('PSD of the mode', p, e.np.interp(e.np.linspace(f[0], f[-1], half), f, psd[i]), tol=1e-9)
    for k in range(2 * half + 2):
        e.ensure('computes at every step', step(o, k + 1))
        j = min(k, 2 * half - 1)
        want = e.mk((nm,), lambda i, j=j: made[int(i)][2][j] - (made[int(i)][2][0] if zero else 0))
        e.eq('sample of the step', o.outputs['output'].value, want, tol=1e-9)
    e.ensure('the signal lasts the whole simulation', 2 * half >= steps)


@harness('C22', funcs=VG[-2:], trials=3)
def vibration_errors(e):
    sp = SimulParams(pixel_pupil=2, pixel_pitch=1.0, total_time=1.0, time_step=0.5)
    e.raises('PSD of a mode missing', ValueError, lambda: VibrationGenerator(sp, nmodes=2, psd=np.ones((1, 3)), freq=np.array([1., 2, 3])))
    e.raises('frequencies of a mode missing', ValueError,
             lambda: VibrationGenerator(sp, nmodes=2, psd=np.ones((2, 3)), freq=np.ones((3, 1))))


@harness('C22', funcs=BG, trials=3)
def base(e):
    o = BaseGenerator(output_size=2)
    e.eq('size', o.outputs['output'].value, np.zeros(2))
    e.raises('a generator defines its signal', NotImplementedError, lambda: o.trigger_code())
    e.raises('names and arrays', ValueError, lambda: o._validate_array_sizes(np.zeros(2), np.zeros(2), names=['a']))
    e.eq('common length', o._validate_array_sizes(np.zeros(4), np.array(1.0), np.zeros(4)), 4)
    e.eq('scalars only', o._validate_array_sizes(np.array(1.0)), 1)
