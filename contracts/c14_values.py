"""C14: vector-processing blocks compute their documented formula element by element."""
import numpy as np
from pvc.api import harness
from contracts.common import val, step, wire, run1
from specula.base_value import BaseValue
from specula.processing_objects.base_operation import BaseOperation
from specula.processing_objects.base_slicer import BaseSlicer
from specula.processing_objects.base_inserter import BaseInserter
from specula.processing_objects.windowed_integration import WindowedIntegration
from specula.processing_objects.mvm import MVM
from specula.processing_objects.linear_combination import LinearCombination
from specula.processing_objects.mirror_commands_combinator import MirrorCommandsCombinator
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.recmat import Recmat

BO = 'processing_objects/base_operation.py:BaseOperation.'


@harness('C14', funcs=[BO + '__init__', BO + 'setup', BO + 'trigger_code'])
def operation_constant(e):
    n = e.dim('n')
    a = e.array('a', n)
    a0 = e.snap(a)
    vec = e.flag('vector_constant')
    op = e.choice('op', ['mul', 'div', 'sum', 'sub'])
    if vec:
        c = e.array('c', n, lo=1, hi=9) if op == 'div' else e.array('c', n)
        cc = c if op != 'div' else c
        ck = lambda i: c[i]
    else:
        c = e.real('c', 1, 9) if op == 'div' else e.real('c')
        ck = lambda i: c
    o = BaseOperation(**{'constant_' + op: c})
    vin = val(a)
    run1(o, in_value1=vin)
    out = o.outputs['out_value']
    f = {'mul': lambda i: a0[i] * ck(i), 'div': lambda i: a0[i] / ck(i),
         'sum': lambda i: a0[i] + ck(i), 'sub': lambda i: a0[i] - ck(i)}[op]
    e.eq_fn('out = in (op) constant', out.value, (n,), f)
    e.eq('input unchanged', vin.value, a0)
    e.eq('output refreshed', out.generation_time, 1)
    # a second step with new data does not depend on the first
    b = e.array('b', n)
    b0 = e.snap(b)
    vin.value = b
    vin.generation_time = 2
    step(o, 2)
    f2 = {'mul': lambda i: b0[i] * ck(i), 'div': lambda i: b0[i] / ck(i),
          'sum': lambda i: b0[i] + ck(i), 'sub': lambda i: b0[i] - ck(i)}[op]
    e.eq_fn('second step', out.value, (n,), f2)
    e.eq('second step refreshed', out.generation_time, 2)


@harness('C14', funcs=[BO + '__init__', BO + 'setup', BO + 'trigger_code'])
def operation_minmax(e):
    n = e.dim('n')
    a = e.array('a', n)
    c = e.real('c')
    op = e.choice('op', ['max', 'min'])
    o = run1(BaseOperation(**{'constant_' + op: c}), in_value1=val(a))
    out = o.outputs['out_value'].value
    if op == 'max':
        e.eq_fn('elementwise maximum', out, (n,), lambda i: e.ite(a[i] > c, a[i], c))
    else:
        e.eq_fn('elementwise minimum', out, (n,), lambda i: e.ite(a[i] < c, a[i], c))


@harness('C14', funcs=[BO + 'setup', BO + 'trigger_code'])
def operation_two(e):
    n = e.dim('n')
    a = e.array('a', n)
    b = e.array('b', n, lo=1, hi=5)
    a2 = e.array('a2', n)
    b2 = e.array('b2', n, lo=1, hi=5)
    op = e.choice('op', ['mul', 'div', 'sum', 'sub'])
    o = BaseOperation(**{op: True})
    v1, v2 = val(a), val(b)
    run1(o, in_value1=v1, in_value2=v2)
    f = {'mul': lambda x, y: x * y, 'div': lambda x, y: x / y, 'sum': lambda x, y: x + y, 'sub': lambda x, y: x - y}[op]
    out = o.outputs['out_value']
    e.eq_fn('out = in1 (op) in2', out.value, (n,), lambda i: f(a[i], b[i]))
    e.eq('in1 unchanged', v1.value, a)
    e.eq('in2 unchanged', v2.value, b)
    v1.value, v2.value = e.snap(a2), e.snap(b2)
    v1.generation_time = v2.generation_time = 2
    step(o, 2)
    e.eq_fn('second step', out.value, (n,), lambda i: f(a2[i], b2[i]))


@harness('C14', funcs=[BO + 'setup', BO + 'trigger_code'])
def operation_short(e):
    m = e.dim('m')
    k = e.dim('k', 0)
    n = m + k
    a = e.array('a', n)
    b = e.array('b', m, lo=1, hi=5)
    op = e.choice('op', ['mul', 'div', 'sum', 'sub'])
    o = BaseOperation(value2_is_shorter=True, **{op: True})
    v1, v2 = val(a), val(b)
    run1(o, in_value1=v1, in_value2=v2)
    f = {'mul': lambda x, y: x * y, 'div': lambda x, y: x / y, 'sum': lambda x, y: x + y, 'sub': lambda x, y: x - y}[op]
    pad = {'mul': 0, 'div': 1, 'sum': 0, 'sub': 0}[op]
    e.eq_fn('missing entries of the second operand are neutral (zero, or one for a division)',
            o.outputs['out_value'].value, (n,), lambda i: f(a[i], b[i]) if e.case(i < m) else f(a[i], pad))


@harness('C14', funcs=[BO + 'setup', BO + 'trigger_code'])
def operation_remap(e):
    n = e.dim('n', 3)
    a = e.array('a', n)
    b = e.array('b', 2)
    p = e.int('p', 0, n - 1)
    q = e.int('q', 0, n - 1)
    e.assume(p != q)
    op = e.choice('op', ['sum', 'sub'])
    o = BaseOperation(value2_remap=[p, q], **{op: True})
    v1, v2 = val(a), val(b)
    run1(o, in_value1=v1, in_value2=v2)
    s = 1 if op == 'sum' else -1
    e.eq_fn('second operand scattered to the remapped positions', o.outputs['out_value'].value, (n,),
            lambda i: a[i] + s * b[0] if e.case(i == p) else (a[i] + s * b[1] if e.case(i == q) else a[i]))


@harness('C14', funcs=[BO + 'setup', BO + 'trigger_code'])
def operation_concat(e):
    n = e.dim('n')
    m = e.dim('m')
    a = e.array('a', n)
    b = e.array('b', m)
    o = run1(BaseOperation(concat=True), in_value1=val(a), in_value2=val(b))
    e.eq_fn('concatenation', o.outputs['out_value'].value, (n + m,),
            lambda i: a[i] if e.case(i < n) else b[i - n])


@harness('C14', funcs=[BO + 'setup'])
def operation_missing(e):
    op = e.choice('op', ['mul', 'div', 'sum', 'sub', 'concat'])
    a = e.array('a', 3)
    o = BaseOperation(**{op: True})
    wire(o, in_value1=val(a))
    e.raises('a two-operand operation without the second operand is refused', ValueError, o.setup)


@harness('C14', funcs=['processing_objects/base_slicer.py:BaseSlicer.trigger_code'])
def slicer(e):
    n = e.dim('n', 4)
    a = e.array('a', n)
    kind = e.choice('kind', ['none', 'one', 'list', 'slice2', 'slice3'])
    if kind == 'none':
        o = BaseSlicer()
        m, f = n, (lambda i: a[i])
    elif kind == 'one':
        p = e.int('p', 0, n - 1)
        o = BaseSlicer(indices=[p])
        m, f = 1, (lambda i: a[p])
    elif kind == 'list':
        p, q, r = e.int('p', 0, n - 1), e.int('q', 0, n - 1), e.int('r', 0, n - 1)
        o = BaseSlicer(indices=[p, q, r])
        m, f = 3, (lambda i: e.ite(i == 0, a[p], e.ite(i == 1, a[q], a[r])))
    else:
        s = e.int('s', 0, n - 2)
        t = e.int('t', 1, n)
        e.assume(s < t)
        st = 1 if kind == 'slice2' else 2
        o = BaseSlicer(slice_args=[s, t] if st == 1 else [s, t, st])
        m, f = (t - s + st - 1) // st, (lambda i: a[s + st * i])
    v = val(a)
    run1(o, in_value=v)
    out = o.outputs['out_value']
    e.eq_fn('selected elements in order', out.value, (m,), f)
    e.eq('refreshed', out.generation_time, 1)
    a2 = e.array('a2', n)
    keep = e.snap(out.value)
    v.value = a2
    v.generation_time = 2
    if kind == 'none':
        e.eq('a full copy is not an alias', out.value, keep)
    step(o, 2)
    e.eq('follows the input', out.value[0], a2[0] if kind == 'none' else (a2[p] if kind in ('one', 'list') else a2[s]))


@harness('C14', funcs=['processing_objects/base_slicer.py:BaseSlicer.__init__',
                       'processing_objects/base_inserter.py:BaseInserter.__init__'])
def slicer_errors(e):
    e.raises('slicer: both selectors', ValueError, BaseSlicer, indices=[0], slice_args=[0, 1])
    e.raises('inserter: both selectors', ValueError, BaseInserter, 4, indices=[[0], [1]], slice_args=[[0, 1], [0, 1]])
    e.raises('inserter: no selector', ValueError, BaseInserter, 4)


@harness('C14', funcs=['processing_objects/base_inserter.py:BaseInserter.__init__',
                       'processing_objects/base_inserter.py:BaseInserter.trigger_code'])
def inserter(e):
    N = e.dim('N', 6)
    n = e.dim('n', 4)
    a = e.array('a', n)
    kind = e.choice('kind', ['idx', 'idx2', 'slice', 'slice2'])
    if kind == 'idx':
        s0, s1 = e.int('s0', 0, n - 1), e.int('s1', 0, n - 1)
        d0, d1 = e.int('d0', 0, N - 1), e.int('d1', 0, N - 1)
        e.assume(d0 != d1)
        o = BaseInserter(N, indices=[[s0, s1], [d0, d1]])
        f = lambda i: a[s0] if e.case(i == d0) else (a[s1] if e.case(i == d1) else 0)
    elif kind == 'idx2':
        s0, s1 = e.int('s0', 0, n - 1), e.int('s1', 0, n - 1)
        d0, d1 = e.int('d0', 0, N - 1), e.int('d1', 0, N - 1)
        e.assume(d0 != d1)
        o = BaseInserter(N, indices=[[[s0], [d0]], [[s1], [d1]]])
        f = lambda i: a[s0] if e.case(i == d0) else (a[s1] if e.case(i == d1) else 0)
    elif kind == 'slice':
        L = e.int('L', 1, n)
        s = e.int('s', 0, n)
        d = e.int('d', 0, N)
        e.assume(e.And(s + L <= n, d + L <= N))
        o = BaseInserter(N, slice_args=[[s, s + L], [d, d + L]])
        f = lambda i: a[s + i - d] if e.case(e.And(i >= d, i < d + L)) else 0
    else:
        d = e.int('d', 2, N - 2)
        o = BaseInserter(N, slice_args=[[[0, 2], [0, 2]], [[2, 4], [d, d + 2]]])
        f = lambda i: a[i] if e.case(i < 2) else (a[2 + i - d] if e.case(e.And(i >= d, i < d + 2)) else 0)
    v = val(a)
    run1(o, in_value=v)
    out = o.outputs['out_value']
    e.eq_fn('inserted elements, zero elsewhere', out.value, (N,), f)
    e.eq('refreshed', out.generation_time, 1)


@harness('C14', funcs=['processing_objects/mvm.py:MVM.setup', 'processing_objects/mvm.py:MVM.trigger_code'])
def mvm(e):
    n = e.dim('n')
    m = e.dim('m')
    A = e.array('A', (m, n))
    x = e.array('x', n)
    o = MVM(recmat=Recmat(recmat=A))
    v = val(x)
    run1(o, in_vector=v)
    e.eq_fn('matrix times vector', o.outputs['out_vector'].value, (m,),
            lambda i: e.sum(n, lambda k: A[i, k] * x[k]))
    e.eq('refreshed', o.outputs['out_vector'].generation_time, 1)
    e.eq('input unchanged', v.value, x)
    k = e.dim('k')
    e.assume(k != n)
    y = e.array('y', k)
    e.raises('size mismatch refused', ValueError, run1, MVM(recmat=Recmat(recmat=A)), in_vector=val(y))


WI = 'processing_objects/windowed_integration.py:WindowedIntegration.'


@harness('C14', funcs=[WI + '__init__', WI + 'trigger_code'])
def window_errors(e):
    L = e.int('loop_ns', 1, 10**7)
    k = e.int('k', 0, 5)
    r = e.int('r', 0, 10**7)
    e.assume(r < L)
    D = k * L + r
    sp = SimulParams(pixel_pupil=4, pixel_pitch=1.0, time_step=L / 1e9)
    if e.case(D == 0) or e.case(r != 0):
        e.raises('window must be a positive multiple of the step', ValueError, WindowedIntegration, sp, 3, dt=D / 1e9)
    else:
        WindowedIntegration(sp, 3, dt=D / 1e9)
        e.ensure('accepted', True)


@harness('C14', funcs=[WI + '__init__', WI + 'trigger_code'])
def window_step(e):
    """One step from an arbitrary accumulator state (inductive step)."""
    n = e.dim('n')
    L = e.int('loop_ns', 1, 10**7)
    k = e.int('k', 1, 50)
    s = e.int('start_steps', 0, 5)
    i = e.int('step', 0, 200)
    upd = e.flag('update_time_on_dt')
    sp = SimulParams(pixel_pupil=4, pixel_pitch=1.0, time_step=L / 1e9)
    o = WindowedIntegration(sp, n, dt=k * L / 1e9, start_time=s * L / 1e9, update_time_on_dt=upd)
    acc = e.array('acc', n)
    x = e.array('x', n)
    t = i * L
    vin = val(x, t)
    wire(o, input=vin)
    o.setup()
    e.setattr(o, 'integrated_value', e.snap(acc))
    old = e.array('old', n)
    o.outputs['output'].value[:] = old
    e.setattr(o.outputs['output'], 'generation_time', -1)
    step(o, t)
    out = o.outputs['output']
    if e.case(i < s):
        e.eq('before the start: accumulator untouched', o.integrated_value, acc)
    else:
        closes = (i + 1 - s - k) % k == 0
        if e.case(closes):
            e.eq_fn('window closed: mean of the window', out.value, (n,), lambda j: acc[j] + x[j] / k)
            e.eq_fn('accumulator restarted', o.integrated_value, (n,), lambda j: 0)
            e.eq('refreshed', out.generation_time, t)
        else:
            e.eq_fn('window open: zero output', out.value, (n,), lambda j: 0)
            e.eq_fn('accumulated', o.integrated_value, (n,), lambda j: acc[j] + x[j] / k)
            if upd:
                e.eq('not refreshed', out.generation_time, -1)
    if not upd:
        e.eq('always refreshed', out.generation_time, t)


@harness('C14', funcs=[WI + 'trigger_code'])
def window_history(e):
    """Black-box history over two and a bit windows."""
    n = e.dim('n', 1, 3)
    k = e.choice('k', [1, 2, 3])
    s = e.choice('s', [0, 1, 2])
    upd = e.flag('update_time_on_dt')
    L = 1000000
    sp = SimulParams(pixel_pupil=4, pixel_pitch=1.0, time_step=0.001)
    o = WindowedIntegration(sp, n, dt=k * L / 1e9, start_time=s * L / 1e9, update_time_on_dt=upd)
    xs = [e.array(f'x{i}', n) for i in range(s + 2 * k + 1)]
    v = val(xs[0] * 0, 0)
    wire(o, input=v)
    o.setup()
    out = o.outputs['output']
    for i in range(s + 2 * k + 1):
        v.value = xs[i]
        v.generation_time = i * L
        step(o, i * L)
        w = i - s
        if w >= 0 and (w + 1) % k == 0:
            e.eq_fn(f'window mean', out.value, (n,), lambda j: sum([xs[q][j] for q in range(i - k + 1, i + 1)]) / k)
            e.eq('refreshed at the window end', out.generation_time, i * L)
        elif w >= 0:
            e.eq_fn('zero inside the window', out.value, (n,), lambda j: 0)


@harness('C14', funcs=['processing_objects/linear_combination.py:LinearCombination.setup',
                       'processing_objects/linear_combination.py:LinearCombination.trigger_code'])
def linear_combination(e):
    n = e.dim('n', 5)
    nl = e.dim('nl', 1)
    f_ = e.flag('no_focus')
    l_ = e.flag('no_lift')
    ps = e.flag('plate_scale')
    lgs = e.array('lgs', n)
    ngs = e.array('ngs', 5)
    foc = e.array('foc', 1)
    lift = e.array('lift', nl)
    p = e.int('p', 2, n - 3) if ps else None
    sp = SimulParams(pixel_pupil=4, pixel_pitch=1.0)
    o = LinearCombination(sp, no_focus=f_, no_lift=l_, plate_scale_idx=p)
    lst = [val(lgs)] + ([] if f_ else [val(foc)]) + ([] if l_ else [val(lift)]) + [val(ngs)]
    run1(o, in_vectors_list=lst)
    out = o.outputs['out_vector']

    def base(i):
        if ps and e.case(e.And(i >= p, i < p + 3)):
            return ngs[2 + i - p]
        if e.case(i < 2):
            return ngs[i]
        if (not f_) and e.case(i == 2):
            return foc[0]
        return lgs[i]
    N = n if l_ else n + nl
    e.eq_fn('tip/tilt from NGS, focus, plate scale and lift in place', out.value, (N,),
            lambda i: base(i) if (l_ or e.case(i < n)) else lift[i - n])
    e.eq('refreshed', out.generation_time, 1)
    e.eq('first input unchanged', lst[0].value, lgs)


@harness('C14', funcs=['processing_objects/linear_combination.py:LinearCombination.setup'])
def linear_combination_errors(e):
    f_ = e.flag('no_focus')
    l_ = e.flag('no_lift')
    k = e.choice('k', [1, 2, 3, 4, 5])
    sp = SimulParams(pixel_pupil=4, pixel_pitch=1.0)
    o = LinearCombination(sp, no_focus=f_, no_lift=l_)
    wire(o, in_vectors_list=[val(e.array(f'v{i}', 5)) for i in range(k)])
    want = 2 + (0 if f_ else 1) + (0 if l_ else 1)
    if k != want:
        e.raises('inconsistent number of inputs refused', ValueError, o.setup)
    else:
        o.setup()
        e.ensure('accepted', True)


@harness('C14', funcs=['processing_objects/mirror_commands_combinator.py:MirrorCommandsCombinator.trigger_code'])
def commands_combinator(e):
    lo = e.choice('lo', [[2, 0, 3], [2, 0, 2], [1, 0, 1]])
    o1 = e.dim('o1', 8)
    o2 = e.dim('o2', 1)
    o3 = e.dim('o3', 5)
    P = e.choice('P', [0, 3])
    nHO = (o1 - lo[0] - 1) + (o2 - lo[1]) + (o3 - lo[2])
    HO = e.array('HO', nHO)
    LO = e.array('LO', sum(lo))
    F = e.array('F', 1)
    k = e.array('k', lo[2])
    Pv = e.array('Pv', 3)
    A = e.array('A', (o1, 3))
    c = MirrorCommandsCombinator(k, Recmat(recmat=A), dims_LO=lo, dims_P=P, dims_F=1, out_dims=[o1, o2, o3])
    run1(c, in_commandsHO=val(HO), in_commandsLO=val(LO), in_commandsF=val(F), in_commandsP=val(Pv))
    a, b = lo[0], lo[2]

    def y1(i):
        if e.case(i < a):
            r = LO[i]
        elif e.case(i == a):
            r = F[0]
        else:
            r = HO[i - a - 1]
        if e.case(e.And(i >= a, i < a + b)):
            r = r + k[i - a] * LO[a + i - a]
        if P > 0:
            r = r + A[i, 0] * Pv[0] + A[i, 1] * Pv[1] + A[i, 2] * Pv[2]
        return r
    h1 = o1 - a - 1
    e.eq_fn('first mirror', c.outputs['out_result_commands1'].value, (o1,), y1)
    e.eq_fn('second mirror', c.outputs['out_result_commands2'].value, (o2,), lambda i: HO[h1 + i])
    e.eq_fn('third mirror', c.outputs['out_result_commands3'].value, (o3,),
            lambda i: LO[a + i] if e.case(i < b) else HO[h1 + o2 + i - b])
    for q in (1, 2, 3):
        e.eq('refreshed', c.outputs[f'out_result_commands{q}'].generation_time, 1)
