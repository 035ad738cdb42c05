"""C09: filter descriptions mean the transfer function they are built from."""
import numpy as np
from pvc.api import harness
from contracts.common import val, step, wire
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.iir_filter_data import IirFilterData
from specula.data_objects.ssr_filter_data import SsrFilterData
from specula.processing_objects.ssr_filter import SsrFilter

D = 'data_objects/iir_filter_data.py:IirFilterData.'
SS = 'data_objects/ssr_filter_data.py:SsrFilterData.'


@harness('C09', funcs=[D + '__init__', D + 'set_num', D + 'set_den'], trials=60)
def alignment(e):
    """Coefficients are kept lowest order first and aligned on the highest order; gain = highest coefficient."""
    w = e.choice('width', [1, 2, 3])
    on = e.choice('ordnum', [1, 2, 3])
    od = e.choice('ordden', [1, 2, 3])
    if on > w or od > w:
        return e.ensure('not a filter', True)
    num, den = e.array('num', (2, w)), e.array('den', (2, w))
    n0, d0 = e.snap(num), e.snap(den)
    tail = e.flag('tail')           # trailing zeros beyond the stated order
    if tail:
        for i in range(2):
            for j in range(w):
                if j >= on:
                    n0[i, j] = 0
                if j >= od:
                    d0[i, j] = 0
    else:
        for i in range(2):
            e.assume(n0[i, w - 1] != 0)
            e.assume(d0[i, w - 1] != 0)
    a, b = e.snap(n0), e.snap(d0)
    f = IirFilterData([on] * 2, [od] * 2, n0, d0)
    e.eq('filters', f.nfilter, 2)
    for i in range(2):
        for j in range(w):
            e.eq('numerator', f.num[i, j], (0 if j < w - on else a[i, j - (w - on)]) if tail else a[i, j])
            e.eq('denominator', f.den[i, j], (0 if j < w - od else b[i, j - (w - od)]) if tail else b[i, j])
        e.eq('gain', f.gain[i], a[i, on - 1] if tail else a[i, w - 1])
    e.eq('the arguments are not modified', (n0, d0), (a, b))


@harness('C09', funcs=[D + '__init__'], trials=60)
def repetition(e):
    """n_modes repeats each filter for that many consecutive modes."""
    k = e.choice('blocks', [1, 2, 3])
    m = [e.choice(f'm{i}', [1, 2, 3] if i < 2 else [1]) for i in range(k)]
    num, den = e.array('num', (k, 2)), e.array('den', (k, 2))
    for i in range(k):
        e.assume(num[i, 1] != 0)
        e.assume(den[i, 1] != 0)
    f = IirFilterData([2] * k, [2] * k, num, den, n_modes=list(m))
    which = [i for i in range(k) for _ in range(m[i])]
    e.eq('filters', f.nfilter, len(which))
    for r, i in enumerate(which):
        e.eq('repeated coefficients', (f.num[r, 0], f.num[r, 1], f.den[r, 0], f.den[r, 1]),
             (num[i, 0], num[i, 1], den[i, 0], den[i, 1]))
        e.eq('orders', (f.ordnum[r], f.ordden[r]), (2, 2))
    e.raises('wrong length', ValueError, IirFilterData, [2] * k, [2] * k, num, den, list(m) + [1])


@harness('C09', funcs=[D + 'set_gain'], trials=60)
def gain(e):
    """set_gain replaces the gain of the filters it is given and nothing else."""
    n, w = e.choice('n', [1, 3]), e.choice('w', [1, 2, 3])
    num, den = e.array('num', (n, w)), e.array('den', (n, w))
    for i in range(n):
        e.assume(num[i, w - 1] != 0)
        e.assume(den[i, w - 1] != 0)
    f = IirFilterData([w] * n, [w] * n, num, den)
    cur = [num[i, w - 1] for i in range(n)]
    for s in range(2):
        kind = e.choice(f'kind{s}', ['scalar', 'vector', 'partial'])
        if kind == 'scalar':
            g = e.real(f'g{s}')
            cur = [g] * n
            f.set_gain(g)
        else:
            m = n if kind == 'vector' else max(1, n - 1)
            g = e.array(f'g{s}', m)
            cur = [g[i] for i in range(m)] + cur[m:]
            f.set_gain(g)
        for i in range(n):
            e.eq('gain', f.gain[i], cur[i])
            for j in range(w):
                e.eq('numerator scaled to the gain', f.num[i, j] * num[i, w - 1], num[i, j] * cur[i])
                e.eq('denominator', f.den[i, j], den[i, j])


@harness('C09', funcs=[D + 'from_gain_and_ff'], trials=60)
def gain_and_ff(e):
    """H(z) = gain * z / (z - ff)."""
    n = e.choice('n', [1, 2, 3])
    g = [e.real(f'g{i}') for i in range(n)]
    kind = e.choice('ff', ['none', 'single', 'all'])
    f = [1] * n if kind == 'none' else [e.real('f0')] * n if kind == 'single' else [e.real(f'f{i}') for i in range(n)]
    d = IirFilterData.from_gain_and_ff(list(g), None if kind == 'none' else f[:1] if kind == 'single' else list(f))
    e.eq('shape', d.num.shape, (n, 2))
    for i in range(n):
        e.eq('H(z) = gain z / (z - ff)', (d.num[i, 0], d.num[i, 1], d.den[i, 0], d.den[i, 1]), (0, g[i], -f[i], 1))


@harness('C09', funcs=[D + 'discrete_delay_tf'], trials=60)
def delay_tf(e):
    """A delay d is the linear interpolation between the two whole delays around it."""
    d = e.real('d', 0, 5)
    f = IirFilterData.from_gain_and_ff([1.0])
    num, den = f.discrete_delay_tf(d)
    c = next(c for c in range(0, 6) if e.case(d <= c))
    e.eq('sizes', (len(num), len(den)), (c + 1, c + 1))
    for j in range(c + 1):
        e.eq('denominator z^ceil(d)', den[j], 1 if j == c else 0)
        # coefficient of z^(j - c), i.e. delay c - j
        e.eq('delay weights', num[j], (1 if c == 0 else e.ite(d == c, 1, d - (c - 1))) if j == 0
             else e.ite(d == c, 0, c - d) if j == 1 else 0)


@harness('C09', funcs=[D + 'closed_loop_denominator'], trials=60)
def closed_loop(e):
    """Denominator of 1/(1+CP): den_C den_P + num_C num_P."""
    nc, np_, dp = e.choice('nc', [1, 2, 3]), e.choice('np', [1, 2]), e.choice('dp', [1, 2, 3])
    cn, cd, pn, pd = e.array('cn', nc), e.array('cd', nc), e.array('pn', np_), e.array('pd', dp)
    f = IirFilterData.from_gain_and_ff([1.0])
    r = f.closed_loop_denominator(cn, cd, pn, pd)
    m = nc + max(np_, dp) - 1
    e.eq('size', len(r), m)
    for k in range(m):
        e.eq('den_C den_P + num_C num_P', r[k],
             sum([cn[i] * pn[k - i] for i in range(nc) if 0 <= k - i < np_], 0) +
             sum([cd[i] * pd[k - i] for i in range(nc) if 0 <= k - i < dp], 0))


def poly(c, z):
    r = 0
    for x in reversed([c[i] for i in range(len(c))]):
        r = r * z + x
    return r


@harness('C09', funcs=[D + 'frequency_response'], trials=60)
def response(e):
    """H(z) at z = exp(2 pi i f / fs), coefficients lowest order first."""
    n = e.choice('n', [1, 2, 3])
    num, den = e.array('num', n), e.array('den', n)
    fs = e.real('fs', 10, 1000)
    fr = e.array('fr', 1, lo=0.1, hi=5)
    f = IirFilterData.from_gain_and_ff([1.0])
    h = f.frequency_response(num, den, fs, freq=fr)
    xp = e.np
    for k in range(1):
        z = xp.exp(1j * (fr[k] / (fs / 2) * np.pi))
        d = poly(den, z)
        for i in range(n):
            e.assume(abs(poly(den[i:], z)) > 1e-6)
        e.eq('H(z) den(z) = num(z)', h[k] * d, poly(num, z))


@harness('C09', funcs=[D + 'RTF', D + 'NTF'], trials=60)
def transfer(e):
    """Rejection 1/(1+CP) and noise CP/(1+CP) transfer functions are those of the loop."""
    w = e.choice('w', [1, 2])
    num, den = e.array('num', (2, w)), e.array('den', (2, w))
    for i in range(2):
        e.assume(num[i, w - 1] != 0)
        e.assume(den[i, w - 1] != 0)
    f = IirFilterData([w] * 2, [w] * 2, num, den)
    mode = e.choice('mode', [0, 1])
    fs = e.real('fs', 10, 1000)
    fr = e.array('fr', 1, lo=0.1, hi=5)
    seen = []
    e.setattr(f, 'frequency_response', lambda n, d, s, freq=None: seen.append((n, d, s, freq)) or e.np.ones(1))
    plant = e.choice('plant', ['unit', 'full'])
    if plant == 'full':
        dm, nw, dw = e.array('dm', 2), e.array('nw', e.choice('ln', [1, 2])), e.array('dw', 2)
        f.RTF(mode, fs, freq=fr, dm=dm, nw=nw, dw=dw, plot=False)
        f.NTF(mode, fs, freq=fr, dm=dm, nw=nw, dw=dw, plot=False)
        pn = [nw[i] for i in range(len(nw))]
        pd = [sum([dm[i] * dw[k - i] for i in range(2) if 0 <= k - i < 2], 0) for k in range(3)]
    else:
        f.RTF(mode, fs, freq=fr, plot=False)
        f.NTF(mode, fs, freq=fr, plot=False)
        pn, pd = [1], [1]

    def conv(a, b, k):
        return sum([a[i] * b[k - i] for i in range(w) if 0 <= k - i < len(b)], 0)
    m = w + max(len(pn), len(pd)) - 1
    (n1, d1, s1, f1), (n2, d2, s2, f2) = seen
    e.eq('sizes', (len(n1), len(d1), len(n2), len(d2)), (m,) * 4)
    for k in range(m):
        cp_n, cp_d = conv(num[mode], pn, k), conv(den[mode], pd, k)
        e.eq('rejection = den / (den + num)', (n1[k], d1[k]), (cp_d, cp_d + cp_n))
        e.eq('noise = num / (den + num)', (n2[k], d2[k]), (cp_n, cp_d + cp_n))
    e.eq('frequencies', (s1, s2, f1[0], f2[0]), (fs, fs, fr[0], fr[0]))


@harness('C09', funcs=[SS + '__init__', SS + '_ensure_matrix_list', SS + '_build_block_diagonal', SS + '_expand_with_n_modes'],
         trials=60)
def blocks(e):
    """Several state-space filters become one block-diagonal system, filter i driven by input i only."""
    k = e.choice('filters', [1, 2, 3])
    s = [e.choice(f's{i}', [1, 2]) for i in range(k)]
    A = [e.array(f'A{i}', (s[i], s[i])) for i in range(k)]
    B = [e.array(f'B{i}', (s[i], 1)) for i in range(k)]
    C = [e.array(f'C{i}', (1, s[i])) for i in range(k)]
    Dm = [e.array(f'D{i}', (1, 1)) for i in range(k)]
    rep = None if not e.flag('repeat') else [e.choice(f'r{i}', [1, 2] if i == 0 else [1]) for i in range(k)]
    d = SsrFilterData(list(A), list(B), list(C), list(Dm), n_modes=rep)
    which = [i for i in range(k) for _ in range(1 if rep is None else rep[i])]
    off = [sum(s[i] for i in which[:r]) for r in range(len(which) + 1)]
    e.eq('sizes', (d.nfilter, d.total_states), (len(which), off[-1]))
    e.eq('shapes', (d.A.shape, d.B.shape, d.C.shape, d.D.shape),
         ((off[-1],) * 2, (off[-1], len(which)), (len(which), off[-1]), (len(which),) * 2))
    for r, i in enumerate(which):
        for q, j in enumerate(which):
            e.eq('feed-through', d.D[r, q], Dm[i][0, 0] if r == q else 0)
            for a in range(s[i]):
                e.eq('input matrix', d.B[off[r] + a, q], B[i][a, 0] if r == q else 0)
                e.eq('output matrix', d.C[q, off[r] + a], C[i][0, a] if r == q else 0)
                for b in range(s[j]):
                    e.eq('state matrix', d.A[off[r] + a, off[q] + b], A[i][a, b] if r == q else 0)


@harness('C09', funcs=[SS + 'from_gain', SS + 'from_integrator'], trials=60)
def simple_ssr(e):
    n = e.choice('n', [1, 2, 3])
    g = [e.real(f'g{i}') for i in range(n)]
    d = SsrFilterData.from_gain(list(g))
    for i in range(n):
        for j in range(n):
            e.eq('pure gain', (d.D[i, j], d.C[i, j]), (g[i] if i == j else 0, 0))
    kind = e.choice('ff', ['none', 'single', 'all'])
    f = [1] * n if kind == 'none' else [e.real('f0')] * n if kind == 'single' else [e.real(f'f{i}') for i in range(n)]
    d = SsrFilterData.from_integrator(list(g), None if kind == 'none' else f[:1] if kind == 'single' else list(f))
    for i in range(n):
        for j in range(n):
            e.eq('integrator', (d.A[i, j], d.B[i, j], d.C[i, j], d.D[i, j]),
                 (f[i], g[i], 1, 0) if i == j else (0, 0, 0, 0))
    e.raises('wrong ff length', ValueError, SsrFilterData.from_integrator, list(g) + [1.0], [0.5] * (n + 2))


@harness('C09', funcs=[SS + '_validate_dimensions', SS + '_validate_individual_matrices'], trials=60)
def validation(e):
    """Matrices of inconsistent sizes are rejected."""
    s, n = e.choice('s', [1, 2, 3]), e.choice('n', [1, 2])
    sh = dict(A=(s, s), B=(s, n), C=(n, s), D=(n, n))
    which = e.choice('which', ['A', 'B', 'C', 'D'])
    ax = e.choice('axis', [0, 1])
    bad = list(sh[which])
    bad[ax] += 1
    if which == 'B' and ax == 1:
        pass        # one more input: C and D do not match any more
    m = {k: e.array(k, tuple(bad) if k == which else v) for k, v in sh.items()}
    e.raises('inconsistent sizes', ValueError, SsrFilterData, m['A'], m['B'], m['C'], m['D'])


@harness('C09', funcs=[D + 'is_stable', D + 'max_stable_gain', D + '_compute_max_stable_gain_internal'], mode='test', trials=20)
def stability(e):
    """A loop reported stable decays, one reported unstable does not; the maximum gain separates the two."""
    g, ff, d = e.real('g', 0.05, 1.5), e.real('ff', 0.8, 1), e.choice('d', [0, 1, 2, 3])
    f = IirFilterData.from_gain_and_ff([g], [ff])
    nw, dw = f.discrete_delay_tf(d)

    def spectral(g):
        # y(t) = ff y(t-1) - g y(t-d): companion matrix
        m = max(d, 1)
        M = np.zeros((m + 1, m + 1))
        a = 1 + (g if d == 0 else 0)
        M[0, 0] = ff / a
        if d > 0:
            M[0, d - 1] -= g
        for i in range(m):
            M[i + 1, i] = 1
        return max(abs(np.linalg.eigvals(M)))
    r = spectral(g)
    if abs(r - 1) > 1e-3:
        e.eq('stability', bool(f.is_stable(0, dm=np.array([1.0]), nw=nw, dw=dw)), bool(r < 1))
    if d >= 1:
        mg = f.max_stable_gain(mode=0, delay=d, n_gain=400, max_gain=4.0)
        e.ensure('gain below the maximum is stable', spectral(mg * 0.99) < 1)
        e.ensure('gain above the maximum is not', spectral(mg * 1.01 + 0.02) >= 1 - 1e-6)


@harness('C09', funcs=[D + 'from_control_tf', D + 'to_control_tf'], mode='test', trials=30)
def control_conversion(e):
    """Conversion from and to the control library keeps the transfer function."""
    import control
    k = e.choice('filters', [1, 2, 3])
    tfs = []
    for i in range(k):
        q = e.choice(f'q{i}', [1, 2, 3])
        p = e.choice(f'p{i}', [1, 2, 3])
        p = min(p, q)
        num = np.array([e.real(f'n{i}{j}', 0.1, 1) for j in range(p)])
        den = np.array([1.0] + [e.real(f'd{i}{j}', -0.5, 0.5) for j in range(q - 1)])
        tfs.append(control.TransferFunction(num, den, dt=1))
    d = IirFilterData.from_control_tf(tfs if k > 1 else tfs[0])
    z = np.exp(0.7j)
    for i, t in enumerate(tfs):
        e.eq('same transfer function', poly(np.asarray(d.num)[i], z) / poly(np.asarray(d.den)[i], z), complex(t(z)), tol=1e-9)
        e.eq('converted back', complex(d.to_control_tf(i, dt=1)(z)), complex(t(z)), tol=1e-9)
