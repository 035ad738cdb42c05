"""C08: temporal filters implement their difference equation, delay and gain modulation, mode by mode."""
import numpy as np
from pvc.api import harness
from contracts.common import val, step, wire, raises_iff
from specula.base_value import BaseValue
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.iir_filter_data import IirFilterData
from specula.data_objects.ssr_filter_data import SsrFilterData
from specula.processing_objects.iir_filter import IirFilter
from specula.processing_objects.dynamic_iir_filter import DynamicIirFilter
from specula.processing_objects.integrator import Integrator
from specula.processing_objects.low_pass_filter import LowPassFilter
from specula.processing_objects.ssr_filter import SsrFilter
from specula.processing_objects.multirate_complementary_filter import MultirateComplementaryFilter

BF = 'processing_objects/base_filter.py:BaseFilter.'
IF = 'processing_objects/iir_filter.py:IirFilter.'
BASE = [BF + '__init__', BF + 'prepare_trigger', BF + 'post_trigger', BF + 'reset_states']


class Coeffs:
    """The part of a filter-data object the filter reads: number of modes and coefficient matrices."""
    def __init__(self, num, den):
        self.num, self.den = num, den
        self.nfilter = len(num)


def coeffs(e, n, p, q):
    num = e.array('num', (n, p))
    den = e.array('den', (n, q))
    return num, den, Coeffs(num, den)


def iir(e, data, cls=IirFilter, **k):
    o = cls(SimulParams(time_step=1), data, **k)
    d = val(e.array('x0', data.nfilter))
    wire(o, delta_comm=d)
    return o, d


@harness('C08', funcs=BASE + [IF + '__init__', IF + 'trigger_code'], trials=40)
def iir_step(e):
    """One step from an arbitrary state: difference equation, delay line, published outputs."""
    n, p, q = e.dim('n'), e.dim('p'), e.dim('q', 1)
    num, den, data = coeffs(e, n, p, q)
    e.assume_forall(n, lambda i: den[i, q - 1] != 0)
    d = e.dim('delay', 0)
    integ = e.flag('integration')
    o, x = iir(e, data, delay=d, integration=integ)
    has_gain = e.flag('gain_mod')
    if has_gain:
        g = e.array('g', n)
        wire(o, gain_mod=val(g))
    o.setup()
    xs = e.array('xs', (n, p))      # past inputs, last column the newest
    ys = e.array('ys', (n, q))      # past outputs
    buf = e.array('buf', (n, d + 1))
    e.setattr(o, '_ist', e.snap(xs))
    e.setattr(o, '_ost', e.snap(ys))
    e.setattr(o, 'output_buffer', e.snap(buf))
    u = x.value
    step(o, 1)
    gm = (lambda i: g[i]) if has_gain else (lambda i: 1)

    def y(i):
        a = e.sum(p, lambda j: num[i, j] * (e.ite(j == p - 1, u[i], xs[i, e.ite(j == p - 1, j, j + 1)])) * gm(i))
        b = e.sum(q - 1, lambda j: den[i, j] * ys[i, j + 1]) if integ else 0
        return (a - b) / den[i, q - 1]
    yv = e.snap(o.outputs['out_comm_no_delay'].value)
    e.eq_fn('undelayed output = difference equation', yv, (n,), y)
    if e.case(d == 0):
        e.eq('output', o.outputs['out_comm'].value, yv)
    else:
        e.eq_fn('output = the command of d steps ago', o.outputs['out_comm'].value, (n,), lambda i: buf[i, d - 1])
    e.eq('refreshed', (o.outputs['out_comm'].generation_time, o.outputs['out_comm_no_delay'].generation_time), (1, 1))
    # the state after the step is the shifted history
    e.eq_fn('input history', o._ist, (n, p), lambda i, j: e.ite(j == p - 1, u[i], xs[i, e.ite(j == p - 1, j, j + 1)]))
    e.eq_fn('output history', o._ost, (n, q), lambda i, j: e.ite(j == q - 1, yv[i], ys[i, e.ite(j == q - 1, j, j + 1)]))
    e.eq_fn('delay line', o.output_buffer, (n, d + 1), lambda i, j: e.ite(j == 0, yv[i], buf[i, e.ite(j == 0, j, j - 1)]))


@harness('C08', funcs=BASE + [IF + '__init__', IF + 'trigger_code'], trials=40)
def fractional_delay(e):
    """The published command interpolates linearly between the two commands around the requested delay."""
    n = e.dim('n')
    d = e.real('delay', 0, 4)
    num, den, data = coeffs(e, n, 1, 1)
    e.assume_forall(n, lambda i: den[i, 0] != 0)
    o, x = iir(e, data, delay=d)
    o.setup()
    ys = []
    for t in range(1, 5):
        x.value = e.array(f'x{t}', n)
        x.generation_time = t
        step(o, t)
        u = x.value
        ys.append(lambda i, u=u: num[i, 0] * u[i] / den[i, 0])
        e.eq_fn('undelayed output', o.outputs['out_comm_no_delay'].value, (n,), ys[-1])

        def at(k, i):
            """the command k steps ago (zero before the start)"""
            r = 0
            for s in range(len(ys)):
                r = e.ite(k == s, ys[-1 - s](i), r)
            return r
        c = next(c for c in range(0, 6) if e.case(d <= c))
        fr = d - (c - 1)
        e.eq_fn('output interpolated at the requested delay', o.outputs['out_comm'].value, (n,),
                lambda i: fr * at(c, i) + (1 - fr) * at(c - 1, i) if c > 0 else at(0, i))


@harness('C08', funcs=BASE + [IF + 'trigger_code', IF + 'reset_states'], trials=40)
def iir_history(e):
    """Four steps from rest, every mode on its own, whatever the orders of numerator and denominator."""
    n = e.dim('n')
    p = e.choice('p', [1, 2, 3])
    q = e.choice('q', [1, 2, 3])
    num, den, data = coeffs(e, n, p, q)
    e.assume_forall(n, lambda i: den[i, q - 1] != 0)
    integ = e.flag('integration')
    o, x = iir(e, data, integration=integ)
    o.setup()
    us, ys = [], []

    def run(t):
        x.value = e.array(f'x{t}', n)
        x.generation_time = t
        step(o, t)
        us.append(x.value)
        y = o.outputs['out_comm'].value
        m = len(us) - 1

        def expect(i):
            a = sum([num[i, p - 1 - k] * us[m - k][i] for k in range(min(p, m + 1))], 0)
            b = sum([den[i, q - 1 - k] * ys[m - k][i] for k in range(1, min(q, m + 1))], 0) if integ else 0
            return (a - b) / den[i, q - 1]
        e.eq_fn('difference equation from rest', y, (n,), expect)
        ys.append(e.snap(y))
    for t in range(1, 5):
        run(t)
    o.reset_states()
    us.clear()
    ys.clear()
    for t in range(5, 7):
        run(t)


@harness('C08', funcs=BASE, trials=30)
def sizes(e):
    """A scalar command or gain applies to every mode; any other size mismatch is an error."""
    n = e.dim('n', 2)
    num, den, data = coeffs(e, n, 1, 1)
    e.assume_forall(n, lambda i: den[i, 0] != 0)
    o, x = iir(e, data)
    g = val(e.array('g', n))
    wire(o, gain_mod=g)
    o.setup()
    x.value = e.array('xx', 1)
    x.generation_time = 2
    step(o, 2)
    e.eq_fn('scalar command broadcast', o.outputs['out_comm'].value, (n,), lambda i: num[i, 0] * g.value[i] * x.value[0] / den[i, 0])
    x.value = e.array('x3', n)
    g.value = e.array('g3', 1)
    x.generation_time = 3
    step(o, 3)
    e.eq_fn('scalar gain broadcast', o.outputs['out_comm'].value, (n,), lambda i: num[i, 0] * g.value[0] * x.value[i] / den[i, 0])
    m = e.dim('m', 2)
    e.assume(m != n)
    x.value = e.array('x4', m)
    x.generation_time = 4
    e.raises('wrong command size', ValueError, o.check_ready, 4)
    x.value = e.array('x5', n)
    g.value = e.array('g5', m)
    x.generation_time = 5
    e.raises('wrong gain size', ValueError, o.check_ready, 5)


@harness('C08', funcs=['processing_objects/integrator.py:Integrator.__init__',
                       'data_objects/iir_filter_data.py:IirFilterData.from_gain_and_ff',
                       'data_objects/iir_filter_data.py:IirFilterData.__init__',
                       'data_objects/iir_filter_data.py:IirFilterData.set_num',
                       'data_objects/iir_filter_data.py:IirFilterData.set_den', IF + 'trigger_code'], trials=40)
def integrator(e):
    """y(t) = ff*y(t-1) + gain*x(t), gains repeated over blocks of modes."""
    k = e.choice('blocks', [1, 2, 3])
    g = [e.real(f'g{i}') for i in range(k)]
    has_ff = e.flag('ff')
    f = [e.real(f'f{i}', 0, 1) for i in range(k)] if has_ff else [1] * k
    rep = e.choice('n_modes', [None, 1, 2])
    nm = None if rep is None else [rep + (i % 2) for i in range(k)]
    o = Integrator(SimulParams(time_step=1), list(g), ff=list(f) if has_ff else None, n_modes=nm)
    which = [i for i in range(k) for _ in range(1 if nm is None else nm[i])]
    n = len(which)
    x = val(e.array('x0', n))
    wire(o, delta_comm=x)
    o.setup()
    e.eq('number of modes', np.shape(o.outputs['out_comm'].value)[0], n)
    prev = [0] * n
    for t in range(1, 4):
        x.value = e.array(f'x{t}', n)
        x.generation_time = t
        step(o, t)
        y = o.outputs['out_comm'].value
        cur = [f[which[i]] * prev[i] + g[which[i]] * x.value[i] for i in range(n)]
        for i in range(n):
            e.eq('integrator equation', y[i], cur[i])
        prev = cur


@harness('C08', funcs=['processing_objects/dynamic_iir_filter.py:DynamicIirFilter.__init__',
                       'processing_objects/dynamic_iir_filter.py:DynamicIirFilter.prepare_trigger',
                       'data_objects/iir_filter_data.py:IirFilterData.set_gain'], trials=40)
def dynamic(e):
    """A reset returns the filter to rest at that step; a new gain rescales the numerator from that step on."""
    k = e.choice('modes', [1, 2])
    g = [e.real(f'g{i}') for i in range(k)]
    f = [e.real(f'f{i}', 0, 1) for i in range(k)]
    for i in range(k):
        e.assume(g[i] != 0)
    d = e.choice('delay', [0, 1, 2])
    o = DynamicIirFilter(SimulParams(time_step=1), IirFilterData.from_gain_and_ff(list(g), ff=list(f)), delay=d)
    x, rst, gi = val(e.array('x0', k)), val(0), val(e.array('gi', k))
    rst.generation_time = gi.generation_time = 0
    wire(o, delta_comm=x, reset=rst, int_gain=gi)
    o.setup()
    hist = []
    prev = [0] * k
    for t in range(1, 4):
        x.value = e.array(f'x{t}', k)
        x.generation_time = t
        if t > 1 and e.flag(f'reset{t}'):
            rst.generation_time = t
            prev = [0] * k
            hist = []
        if t > 1 and e.flag(f'gain{t}'):
            gi.value = e.array(f'gi{t}', k)
            gi.generation_time = t
            g = [gi.value[i] for i in range(k)]
        step(o, t)
        prev = [f[i] * prev[i] + g[i] * x.value[i] for i in range(k)]
        hist.append(prev)
        for i in range(k):
            e.eq('filter equation with the current gain, from the last reset', o.outputs['out_comm_no_delay'].value[i], prev[i])
            e.eq('delayed output', o.outputs['out_comm'].value[i], hist[-1 - d][i] if len(hist) > d else 0)


@harness('C08', funcs=['processing_objects/low_pass_filter.py:LowPassFilter.__init__',
                       'data_objects/iir_filter_data.py:IirFilterData.lpf_from_fc',
                       'data_objects/iir_filter_data.py:IirFilterData.lpf_from_fc_and_ampl'], trials=40)
def low_pass(e):
    """A low-pass filter leaves a constant unchanged: its gain at zero frequency is one."""
    ts = e.choice('ts', [1, 0.01, 0.001])
    fc = e.real('fc', 0.01, 0.4) / ts
    kind = e.choice('kind', ['default', 1, 2, 4, 'ampl'])
    k = dict(amplif_fact=e.real('ampl', 0.5, 3)) if kind == 'ampl' else {} if kind == 'default' else dict(n_ord=kind)
    o = LowPassFilter(SimulParams(time_step=ts), fc, **k)
    num, den = o.iir_filter_data.num, o.iir_filter_data.den
    p = num.shape[1]
    q = den.shape[1]
    e.eq('leading denominator coefficient', den[0, q - 1], 1, tol=1e-6)
    e.eq('unit gain at zero frequency', sum([num[0, j] for j in range(p)], 0), sum([den[0, j] for j in range(q)], 0), tol=1e-5)
    e.raises('cut-off above Nyquist', ValueError, LowPassFilter, SimulParams(time_step=ts), 1 / ts, **k)


@harness('C08', funcs=['processing_objects/ssr_filter.py:SsrFilter.__init__', 'processing_objects/ssr_filter.py:SsrFilter.trigger_code',
                       'processing_objects/ssr_filter.py:SsrFilter.reset_states'] + BASE, trials=40)
def state_space(e):
    n, m = e.dim('n'), e.dim('m')
    A, B = e.array('A', (m, m)), e.array('B', (m, n))
    C, D = e.array('C', (n, m)), e.array('D', (n, n))
    new = e.flag('output_uses_new_state')
    o = SsrFilter(SimulParams(time_step=1), SsrFilterData(A, B, C, D), output_uses_new_state=new)
    x = val(e.array('x0', n))
    g = e.array('g', n)
    wire(o, delta_comm=x, gain_mod=val(g))
    o.setup()
    xp = e.xp
    s = xp.zeros(m)

    def run(t, s):
        x.value = e.array(f'x{t}', n)
        x.generation_time = t
        step(o, t)
        u = x.value * g
        s1 = A @ s + B @ u
        e.eq('y = C x + D u', o.outputs['out_comm'].value, C @ (s1 if new else s) + D @ u)
        return s1
    for t in range(1, 4):
        s = run(t, s)
    o.reset_states()
    s = xp.zeros(m)
    for t in range(4, 6):
        s = run(t, s)


@harness('C08', funcs=['data_objects/iir_filter_data.py:IirFilterData.lpf_from_fc'], mode='test', trials=30)
def low_pass_cutoff(e):
    """Half the power is left at the cut-off frequency, for every even order (the first-order filter is not bilinear)."""
    ts = e.real('ts', 0.0005, 0.01)
    fc = e.real('fr', 0.01, 0.4) / ts
    d = LowPassFilter(SimulParams(time_step=ts), fc, n_ord=e.choice('ord', [2, 4, 6])).iir_filter_data
    z = np.exp(2j * np.pi * fc * ts)
    num, den = np.asarray(d.num)[0], np.asarray(d.den)[0]
    h = sum(c * z ** k for k, c in enumerate(num)) / sum(c * z ** k for k, c in enumerate(den))
    e.eq('power at the cut-off', abs(h) ** 2, 0.5, tol=1e-3)


MC = 'processing_objects/multirate_complementary_filter.py:MultirateComplementaryFilter.'
MCF = BASE + [MC + m for m in ('__init__', 'setup', 'prepare_trigger', 'trigger_code')]


def fused(e, vec=False, ns=None):
    """Filter with symbolic weights and coefficients: (object, mixing function of (i, yf, yf_prev, ys, frame))."""
    n = e.dim('n')
    ns = e.choice('slow', [1, 2]) if ns is None else ns
    N = [e.choice(f'N{i}', [1, 2, 3]) for i in range(ns)] if ns == 1 else [2, 3]
    w = [e.real(f'w{i}', 0.1, 3) for i in range(ns + 1)]
    g = e.real('g', 0, 1)
    num, den, data = coeffs(e, n, 1, 1 if vec else 2)
    e.assume_forall(n, lambda i: den[i, den.shape[1] - 1] != 0)
    tot = sum(w[1:], w[0])

    def mix(i, yf, prev, ys, frame):
        r = (1 + g * w[0] / tot) * yf[i] - prev(i)
        for k in range(ns):
            if frame % N[k] == 0:
                r = r + g * w[k + 1] / tot * N[k] * ys[k][i]
        return r
    return n, ns, N, w, g, num, den, data, mix


@harness('C08', funcs=MCF, trials=40, heavy=2)
def multirate_fusion(e):
    """Several steps from rest, slow sensors refreshed at their own frames."""
    n, ns, N, w, g, num, den, data, mix = fused(e, ns=1)
    o = MultirateComplementaryFilter(SimulParams(time_step=1), data, g, list(w), list(N))
    f = val(e.array('f0', n))
    s = [val(e.array(f's0_{k}', n), t=0) for k in range(ns)]
    wire(o, in_yf=f, in_ys=s)
    o.setup()
    prev = lambda i: 0
    yprev = lambda i: 0
    for t in range(1, 4):
        f.value = e.array(f'f{t}', n)
        f.generation_time = t
        for k in range(ns):
            if t % N[k] == 0:
                s[k].value = e.array(f's{t}_{k}', n)
                s[k].generation_time = t
        step(o, t)
        yf, ys = f.value, [x.value for x in s]
        out = e.snap(o.outputs['out_comm'].value)
        e.eq_fn('difference equation of the fused input', out, (n,),
                lambda i, yf=yf, prev=prev, ys=ys, yprev=yprev, t=t:
                (num[i, 0] * mix(i, yf, prev, ys, t) - den[i, 0] * yprev(i)) / den[i, 1])
        e.eq('refreshed', o.outputs['out_comm'].generation_time, t)
        keep = e.snap(yf)
        prev = lambda i, keep=keep: keep[i]
        yprev = lambda i, out=out: out[i]


@harness('C08', funcs=MCF, trials=40, heavy=2)
def multirate_step(e, vec=False):
    """One step at any frame from any previous fast measurement; delayed and modulated as every filter."""
    n, ns, N, w, g, num, den, data, mix = fused(e, vec=True, ns=2)
    d = e.choice('delay', [0, 1])
    kw = {}
    m = n
    if vec:
        n = m = e.choice('m', [1, 2])
        num, den, data = coeffs_small(e, n)
        order = e.choice('order', [0, 1])
        blocks = [list(range(k * n, k * n + n)) for k in range(ns + 1)]
        if order:
            blocks = [b[::-1] for b in blocks[::-1]]
        kw = dict(idx_yf=blocks[0], idx_ys=blocks[1:])
    o = MultirateComplementaryFilter(SimulParams(time_step=1), data, g, list(w), list(N), delay=d, **kw)
    frame = e.choice('frame', [1, 2, 3, 6])
    gm = e.array('gm', n)
    yf, ys = e.array('yf', n), [e.array(f'ys{k}', n) for k in range(ns)]
    prev = e.array('prev', n)
    if vec:
        v = e.np.zeros((ns + 1) * n)
        for b, x in zip(blocks, [yf] + ys):
            for j in range(n):
                v[b[j]] = x[j]
        wire(o, in_vec=val(v, t=9))
    else:
        wire(o, in_yf=val(yf, t=9), in_ys=[val(ys[k], t=9 if frame % N[k] == 0 else 8) for k in range(ns)])
    wire(o, gain_mod=val(gm, t=9))
    o.setup()
    e.setattr(o, '_yf_prev', e.snap(prev))
    o._frame_counter[:] = frame - 1
    e.setattr(o, '_cpu_frame_counter', frame - 1)
    step(o, 9)
    y = e.snap(o.outputs['out_comm_no_delay'].value)
    e.eq_fn('fused command', y, (n,), lambda i: gm[i] * num[i, 0] * mix(i, yf, lambda j: prev[j], ys, frame) / den[i, 0])
    e.eq_fn('previous fast measurement', o._yf_prev, (n,), lambda i: yf[i])
    out = o.outputs['out_comm'].value
    if d == 0:
        e.eq('output', out, y)
    else:
        e.eq_fn('one step late', out, (n,), lambda i: 0)
        step_again = o.check_ready(10)
        e.ensure('not computed without a new input', not step_again)


@harness('C08', funcs=MCF, trials=40, heavy=2)
def multirate_vector(e):
    multirate_step(e, True)


def coeffs_small(e, n):
    num, den = e.array('num2', (n, 1)), e.array('den2', (n, 1))
    for i in range(n):
        e.assume(den[i, 0] != 0)
    return num, den, Coeffs(num, den)


@harness('C08', funcs=MCF, trials=60)
def multirate_errors(e):
    n = e.choice('n', [1, 2])
    num, den, data = coeffs_small(e, n)
    sp = SimulParams(time_step=1)
    e.raises('number of weights', ValueError, lambda: MultirateComplementaryFilter(sp, data, 0.1, [1.0], [2]))
    e.raises('no coefficients', ValueError, lambda: MultirateComplementaryFilter(sp, None, 0.1, [1.0, 1.0], [2]))
    e.raises('no input', ValueError, lambda: MultirateComplementaryFilter(sp, data, 0.1, [1.0, 1.0], [2]).setup())
    f = val(e.array('f', n), t=5)
    s = val(e.array('s', n), t=5)
    e.raises('vector without positions', ValueError,
             lambda: wire(MultirateComplementaryFilter(sp, data, 0.1, [1.0, 1.0], [2]), in_vec=f).setup())
    e.raises('number of sensors', ValueError,
             lambda: wire(MultirateComplementaryFilter(sp, data, 0.1, [1.0, 1.0], [2]), in_yf=f, in_ys=[s, s]).setup())
    # the slow sensor must be refreshed exactly at its frames
    N = e.choice('N', [1, 2, 3])
    frame = e.int('frame', 1, 7)
    fresh = e.flag('fresh')
    check = e.flag('validate')
    s.generation_time = 5 if fresh else 4
    o = wire(MultirateComplementaryFilter(sp, data, 0.1, [1.0, 1.0], [N], validate_sync=check), in_yf=f, in_ys=[s])
    o.setup()
    e.setattr(o, '_cpu_frame_counter', frame - 1)
    raises_iff(e, 'slow sensor refreshed out of its frames', RuntimeError, lambda: o.check_ready(5),
               e.And(check, (frame % N == 0) != fresh))
