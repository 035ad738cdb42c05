"""C15: modal reconstruction: modes from slopes, pseudo-open-loop control, multirate selection, modal analysis."""
import numpy as np
from pvc.api import harness
from contracts.common import step, wire, run1, raises_iff
from contracts.c11_fields import field
from specula.base_value import BaseValue
from specula.data_objects.slopes import Slopes
from specula.data_objects.intmat import Intmat
from specula.data_objects.recmat import Recmat
from specula.data_objects.ifunc import IFunc
from specula.data_objects.ifunc_inv import IFuncInv
from specula.processing_objects.modalrec import Modalrec
from specula.processing_objects.modalrec_implicit_polc import ModalrecImplicitPolc
from specula.processing_objects.modalrec_multirate import ModalrecMultirate
from specula.processing_objects.modal_analysis import ModalAnalysis

MR = 'processing_objects/modalrec.py:Modalrec.'
MI = 'processing_objects/modalrec_implicit_polc.py:ModalrecImplicitPolc.'
MM = 'processing_objects/modalrec_multirate.py:ModalrecMultirate.'
MA = 'processing_objects/modal_analysis.py:ModalAnalysis.'


def slp(e, name, n, t=1):
    v = e.array(name, n)
    s = Slopes(slopes=v)
    s.generation_time = t
    return s, e.snap(v)


def cmd(e, name, n, t=1):
    v = e.array(name, n)
    b = BaseValue(value=v)
    b.generation_time = t
    return b, e.snap(v)


def dot(e, m, v, n):
    """i-th element of the product of a matrix (given by elements) and a vector."""
    return lambda i: e.sum(n, lambda k: m(i, k) * v(k))


def joined(e, parts, sizes):
    """Element access of consecutive vectors."""
    def at(k):
        if len(parts) == 1:
            return parts[0][k]
        first = k < sizes[0]
        return e.ite(first, parts[0][e.ite(first, k, 0)], parts[1][e.ite(first, 0, k - sizes[0])])
    return at


@harness('C15', funcs=[MR + '__init__', MR + 'setup', MR + 'prepare_trigger', MR + 'trigger_code'])
def plain(e):
    nm, n1 = e.dim('nm'), e.dim('n1')
    two = e.flag('list')
    s1, v1 = slp(e, 's1', n1)
    n = n1
    parts, sizes = [v1], [n1]
    if two:
        n2 = e.dim('n2')
        s2, v2 = slp(e, 's2', n2)
        n = n1 + n2
        parts, sizes = [v1, v2], [n1, n2]
    r = e.array('R', (nm, n))
    o = Modalrec(recmat=Recmat(r))
    R = e.snap(r)
    ins = dict(in_slopes_list=[s1, s2]) if two else dict(in_slopes=s1)
    e.eq_fn('no modes before the first step', o.outputs['out_modes'].value, (nm,), lambda i: 0)
    run1(o, **ins)
    s = joined(e, parts, sizes)
    m1 = o.outputs['out_modes'].value
    e.eq_fn('modes are the reconstruction matrix times the slopes', m1, (nm,), lambda i: e.sum(n, lambda k: R[i, k] * s(k)))
    e.eq('refreshed', o.outputs['out_modes'].generation_time, 1)
    keep = e.snap(m1)
    w = e.array('w', n1)
    s1.set_value(w)
    s1.generation_time = 2
    step(o, 2)
    s = joined(e, [w] + parts[1:], sizes)
    e.eq_fn('next step: of the new slopes', o.outputs['out_modes'].value, (nm,), lambda i: e.sum(n, lambda k: R[i, k] * s(k)))
    e.eq('refreshed again', o.outputs['out_modes'].generation_time, 2)


@harness('C15', funcs=[MR + '__init__'])
def plain_variants(e):
    how = e.choice('how', ['identity', 'cut', 'filter', 'filter_cut'])
    n = e.dim('n')
    s1, v = slp(e, 's', n)
    if how == 'identity':
        e.raises('identity without a size', ValueError, lambda: Modalrec(identity=True))
        k = e.choice('k', [1, 2, 4])
        s1, v = slp(e, 'sk', k)
        o = run1(Modalrec(identity=True, nmodes=k), in_slopes=s1)
        e.eq('identity', o.outputs['out_modes'].value, v)
        return
    nm = e.dim('nm')
    r = e.array('R', (nm, n))
    R = e.snap(r)
    c = 0
    kw = {}
    if 'cut' in how:
        c = e.int('cut', 1)
        e.assume(c < nm)
        kw['ncutmodes'] = c
    if 'filter' in how:
        F = e.array('F', (n, n))
        kw['filtmat'] = F
    o = run1(Modalrec(recmat=Recmat(r), **kw), in_slopes=s1)
    M = (lambda i, k: e.sum(n, lambda j: R[i, j] * F[j, k])) if 'filter' in how else (lambda i, k: R[i, k])
    e.eq_fn('last modes cut, slopes filtered first', o.outputs['out_modes'].value, (nm - c,),
            lambda i: e.sum(n, lambda k: M(i, k) * v[k]))


@harness('C15', funcs=[MR + '__init__', MR + 'setup', MR + 'prepare_trigger'], trials=30)
def errors(e):
    n, nm = e.choice('n', [2, 3]), e.choice('nm', [2, 3])
    r, d = e.array('R', (nm, n)), e.array('D', (n, nm))
    e.raises('POLC with identity', ValueError, lambda: Modalrec(polc=True, identity=True, recmat=Recmat(r), intmat=Intmat(d)))
    e.raises('POLC with cut modes', ValueError, lambda: Modalrec(polc=True, ncutmodes=1, recmat=Recmat(r), intmat=Intmat(d)))
    e.raises('POLC without an interaction matrix', ValueError, lambda: Modalrec(polc=True, recmat=Recmat(r), projmat=Recmat(r)))
    e.raises('no slopes', ValueError, lambda: Modalrec(recmat=Recmat(r)).setup())
    s, v = slp(e, 's', n)
    p = e.array('P', (nm, nm))
    mk = lambda: wire(Modalrec(polc=True, recmat=Recmat(r), projmat=Recmat(p), intmat=Intmat(d)), in_slopes=s)
    e.raises('POLC without commands', ValueError, lambda: mk().setup())
    bad, _ = slp(e, 'bad', n + 1)
    c, _ = cmd(e, 'c', nm)
    o = wire(Modalrec(polc=True, recmat=Recmat(r), projmat=Recmat(p), intmat=Intmat(d)), in_slopes=bad, in_commands=c)
    o.setup()
    e.raises('POLC with slopes of another size', ValueError, lambda: o.check_ready(1))


@harness('C15', funcs=[MR + '__init__', MR + 'setup', MR + 'prepare_trigger', MR + 'trigger_code'], heavy=1)
def polc(e):
    nl, nc, n = e.dim('nl'), e.dim('nc'), e.dim('n')
    proj = e.flag('projection')
    if not proj:
        e.assume(nl == nc)
        nl = nc
    r, d = e.array('R', (nl, n)), e.array('D', (n, nc))
    p = e.array('P', (nc, nl))
    s, v = slp(e, 's', n)
    kw = dict(projmat=Recmat(p)) if proj else {}
    o = Modalrec(polc=True, recmat=Recmat(r), intmat=Intmat(d), **kw)
    how = e.choice('commands', ['one', 'list', 'none_yet'])
    if how == 'list':
        n1 = e.dim('n1')
        e.assume(n1 < nc)
        c1, w1 = cmd(e, 'c1', n1)
        c2, w2 = cmd(e, 'c2', nc - n1)
        c = joined(e, [w1, w2], [n1, nc - n1])
        run1(o, in_slopes=s, in_commands_list=[c1, c2])
    elif how == 'one':
        c1, w = cmd(e, 'c', nc)
        c = lambda k: w[k]
        run1(o, in_slopes=s, in_commands=c1)
    else:
        c1 = BaseValue()
        c = lambda k: 0
        run1(o, in_slopes=s, in_commands=c1)
    pol = o.outputs['out_pseudo_ol_modes'].value
    open_loop = lambda j: e.sum(n, lambda k: r[j, k] * (v[k] + e.sum(nc, lambda q: d[k, q] * c(q))))
    e.eq_fn('pseudo-open-loop modes: slopes plus those of the commands', pol, (nl,), open_loop)
    if proj:
        e.eq_fn('output: projected modes minus the commands', o.outputs['out_modes'].value, (nc,),
                lambda i: e.sum(nl, lambda j: p[i, j] * pol[j]) - c(i))
    else:
        e.eq_fn('output: modes minus the commands', o.outputs['out_modes'].value, (nc,), lambda i: pol[i] - c(i))
    e.eq('refreshed', (o.outputs['out_modes'].generation_time, o.outputs['out_pseudo_ol_modes'].generation_time), (1, 1))
    # only commands are new: nothing is computed
    before, bp = e.snap(o.outputs['out_modes'].value), e.snap(pol)
    if how == 'one':
        x = e.array('x', nc)
        c1.value[:] = x
        c1.generation_time = 2
        ok = o.check_ready(2)
        if ok:
            o.trigger()
            o.post_trigger()
        e.eq('no output without new slopes', o.outputs['out_modes'].value, before)
        e.eq('no output without new slopes', o.outputs['out_pseudo_ol_modes'].value, bp)
        e.eq('not refreshed without new slopes', o.outputs['out_modes'].generation_time, 1)


@harness('C15', funcs=[MI + '__init__', MI + 'prepare_trigger', MI + 'trigger_code'])
def implicit(e):
    nl, nc, n = e.dim('nl'), e.dim('nc'), e.dim('n')
    r, d, p = e.array('R', (nl, n)), e.array('D', (n, nc)), e.array('P', (nc, nl))
    s, v = slp(e, 's', n)
    o = ModalrecImplicitPolc(recmat=Recmat(r), projmat=Recmat(p), intmat=Intmat(d))
    how = e.choice('commands', ['one', 'none_yet'])
    if how == 'one':
        c1, w = cmd(e, 'c', nc)
        c = lambda k: w[k]
    else:
        c1 = BaseValue()
        c = lambda k: 0
    C = e.snap(o.comm_mat.recmat)
    e.eq_fn('command matrix is projection times reconstruction', C, (nc, n), lambda i, k: e.sum(nl, lambda j: p[i, j] * r[j, k]))
    H = e.snap(o.h_mat.recmat)
    e.eq_fn('feedback matrix is identity minus command times interaction matrix', H, (nc, nc),
            lambda i, q: e.ite(i == q, 1, 0) - e.sum(n, lambda k: C[i, k] * d[k, q]))
    run1(o, in_slopes=s, in_commands=c1)
    e.eq_fn('output', o.outputs['out_modes'].value, (nc,),
            lambda i: e.sum(n, lambda k: C[i, k] * v[k]) - e.sum(nc, lambda q: H[i, q] * c(q)))
    e.eq('refreshed', o.outputs['out_modes'].generation_time, 1)


@harness('C15', funcs=[MI + '__init__', MI + 'prepare_trigger', MI + 'trigger_code', MR + 'trigger_code'], mode='bounded')
def implicit_is_explicit(e):
    nl, nc, n = e.choice('nl', [1, 2]), e.choice('nc', [1, 2]), e.choice('n', [1, 2])
    r, d, p = e.array('R', (nl, n)), e.array('D', (n, nc)), e.array('P', (nc, nl))
    s, v = slp(e, 's', n)
    c1, w = cmd(e, 'c', nc)
    ins = dict(in_slopes=s, in_commands=c1)
    if nc == 2 and e.flag('list'):
        a, b = BaseValue(value=w[:1]), BaseValue(value=w[1:])
        a.generation_time = b.generation_time = 1
        ins = dict(in_slopes=s, in_commands_list=[a, b])
    a = run1(Modalrec(polc=True, recmat=Recmat(r), projmat=Recmat(p), intmat=Intmat(d)), **ins)
    b = run1(ModalrecImplicitPolc(recmat=Recmat(r), projmat=Recmat(p), intmat=Intmat(d)), **ins)
    e.eq('implicit and explicit POLC agree', a.outputs['out_modes'].value, b.outputs['out_modes'].value)


@harness('C15', funcs=[MM + '__init__', MM + 'setup', MM + 'trigger_code'], trials=60)
def multirate(e):
    ns = e.choice('sensors', [1, 2, 3])
    nm = e.dim('nm')
    sizes = [e.dim(f'n{i}') for i in range(ns)]
    tot = sum(sizes)
    fresh = [e.flag(f'new{i}') for i in range(ns)]
    # one matrix for each combination of new sensors
    masks = [[bool(b >> i & 1) for i in range(ns)] for b in range(1, 2 ** ns)]
    if e.flag('reversed'):
        masks = masks[::-1]
    mats = [e.array(f'M{k}', (nm, tot)) for k in range(len(masks))]
    sl = [slp(e, f's{i}', sizes[i], 2 if fresh[i] else 1) for i in range(ns)]
    o = ModalrecMultirate([Recmat(m) for m in mats], masks, nm)
    wire(o, in_slopes_list=[s for s, _ in sl])
    o.setup()
    old = [e.array(f'old{i}', nm) for i in range(ns)]
    for i in range(ns):
        o.outputs[f'out_modes_{i}'].value[:] = old[i]
    if o.check_ready(2):
        o.trigger()
        o.post_trigger()
    else:
        o.prepare_trigger(2)
        o.trigger_code()
    off = 0
    for i in range(ns):
        out = o.outputs[f'out_modes_{i}']
        if fresh[i]:
            m = mats[masks.index(fresh)]
            e.eq_fn('columns of the sensor in the matrix of this combination', out.value, (nm,),
                    lambda j, off=off, m=m, i=i: e.sum(sizes[i], lambda k: m[j, off + k] * sl[i][1][k]))
        else:
            e.eq_fn('zero for a sensor without new slopes', out.value, (nm,), lambda j: 0)
        e.eq('refreshed', out.generation_time, 2)
        off = off + sizes[i]
    for i in range(ns):
        for j in range(i):
            e.ensure('one vector for each sensor', o.outputs[f'out_modes_{i}'].value is not o.outputs[f'out_modes_{j}'].value)


@harness('C15', funcs=[MM + '__init__', MM + 'setup', MM + 'trigger_code'], trials=30)
def multirate_errors(e):
    nm, n = 2, 3
    R = lambda name, a, b: Recmat(e.array(name, (a, b)))
    m = R('m', nm, n)
    e.raises('no matrix', ValueError, lambda: ModalrecMultirate([], [[True]], nm))
    e.raises('no mask', ValueError, lambda: ModalrecMultirate([m], [], nm))
    e.raises('no size', ValueError, lambda: ModalrecMultirate([m], [[True]], None))
    e.raises('unequal numbers', ValueError, lambda: ModalrecMultirate([m], [[True], [False]], nm))
    e.raises('same mask twice', ValueError, lambda: ModalrecMultirate([m, m], [[True], [True]], nm))
    e.raises('masks of different length', ValueError, lambda: ModalrecMultirate([m, m], [[True], [True, False]], nm))
    e.raises('wrong number of modes', ValueError, lambda: ModalrecMultirate([R('q', nm + 1, n)], [[True]], nm))
    s1, _ = slp(e, 's1', n, 1)
    s2, _ = slp(e, 's2', n, 1)
    o = wire(ModalrecMultirate([m], [[True]], nm), in_slopes_list=[s1, s2])
    e.raises('wrong number of sensors', ValueError, o.setup)
    k = e.int('k', 1, 9)
    s3, _ = slp(e, 's3', k, 1)
    o = wire(ModalrecMultirate([m], [[True]], nm), in_slopes_list=[s3])
    raises_iff(e, 'wrong number of slopes', ValueError, o.setup, k != n)
    o = wire(ModalrecMultirate([R('z', nm, 2 * n)], [[True, True]], nm), in_slopes_list=[s1, s2])
    o.setup()
    s1.generation_time = 2
    o.check_ready(2)
    e.raises('no matrix for this combination', KeyError, o.trigger_code)


def basis(e, ny, nx, nm):
    mask = e.array('mask', (ny, nx), kind='b')
    rows, cols = e.np.where(mask)
    npx = rows.shape[0]
    return mask, rows, cols, npx


@harness('C15', funcs=[MA + '__init__', MA + 'prepare_trigger', MA + 'trigger_code', MA + 'setup'])
def analysis(e):
    ny, nx, nm = e.dim('ny'), e.dim('nx'), e.dim('nm')
    mask, rows, cols, npx = basis(e, ny, nx, nm)
    e.assume(npx > 0)
    inv = e.array('inv', (npx, nm))
    two = e.flag('list')
    f1, a1, p1 = field(e, 'f', ny, nx)
    fields = [(f1, p1)]
    o = ModalAnalysis(ifunc_inv=IFuncInv(inv, mask), n_inputs=2 if two else 1)
    if two:
        f2, a2, p2 = field(e, 'g', ny, nx)
        fields.append((f2, p2))
        run1(o, in_ef_list=[f1, f2])
    else:
        run1(o, in_ef=f1)
    for i, (f, p) in enumerate(fields):
        ph = p[rows, cols]
        out = o.outputs['out_modes_list'][i] if two else o.outputs['out_modes']
        e.eq_fn('modes: inverse influence functions applied to the phase inside the mask', out.value, (nm,),
                lambda k, ph=ph: e.sum(npx, lambda q: ph[q] * inv[q, k]))
        e.eq('refreshed', out.generation_time, 1)


@harness('C15', funcs=[MA + '__init__', MA + 'trigger_code'], mode='test', trials=40)
def analysis_rms(e):
    n, nm = 4, 2
    mask = e.array('mask', (n, n), kind='b')
    mask[0, 0] = True
    npx = int(mask.sum())
    inv = e.array('inv', (npx, nm))
    f1, a1, p1 = field(e, 'f', n, n)
    wl = e.choice('wavelength', [0.0, 500.0])
    o = ModalAnalysis(ifunc_inv=IFuncInv(inv, mask), dorms=True, wavelengthInNm=wl)
    run1(o, in_ef=f1)
    if wl == 0:
        e.eq('rms of the phase inside the mask', o.outputs['rms'].value[0], np.std(p1[np.where(mask)]), tol=1e-9)


def unwrapped(e, flat_edges):
    """Phase whose neighbouring pixels differ by less than half a wavelength: recovered, wrapped or not."""
    rows, cols = e.choice('rows', [2, 3, 5]), e.choice('cols', [2, 4, 7])
    f2, _, p2 = field(e, 'g', rows, cols)
    noise = np.asarray(e.array('noise', (rows, cols), lo=-40.0, hi=40.0)).copy()
    sy, sx = e.choice('slope y', [0.0, 150.0, -90.0]), e.choice('slope x', [0.0, 160.0, 70.0])
    if flat_edges:
        noise[:, 0] = noise[0, 0]
        noise[:, -1] = noise[0, -1]
        sy = 0.0
    true = noise + sy * np.arange(rows)[:, None] + sx * np.arange(cols)[None, :]
    f2.field[1][:] = np.mod(true + 250.0, 500.0) - 250.0
    q = ModalAnalysis(ifunc_inv=IFuncInv(np.eye(rows * cols), np.ones((rows, cols))), wavelengthInNm=500.0)
    run1(q, in_ef=f2)
    d = q.outputs['out_modes'].value - true.ravel()
    return np.ptp(d)


@harness('C15', funcs=[MA + 'unwrap_ls', MA + 'unwrap_2d', MA + 'trigger_code'], mode='test', trials=60)
def unwrap(e):
    e.ensure('wrapped phase recovered up to a constant', unwrapped(e, True) < 1e-6)


@harness('C15', funcs=[MA + 'unwrap_ls'], mode='test', trials=60)
def unwrap_edges(e):
    e.ensure('wrapped phase recovered also where it varies along the first and last column', unwrapped(e, False) < 1e-6)


@harness('C15', funcs=[MA + '__init__', MA + 'setup'])
def analysis_set_up(e):
    nm, npx, k = e.dim('nm'), e.dim('npx'), e.dim('k')
    e.assume(k <= nm)
    e.assume(k != npx)
    inv = e.array('inv', (npx, nm))
    ff = e.array('ff', (nm, npx))
    mask = np.ones((1, 1))
    o = ModalAnalysis(ifunc_inv=IFuncInv(inv, mask), nmodes=k)
    e.eq_fn('first modes of the inverse', o.phase2modes.ifunc_inv, (npx, k), lambda i, j: inv[i, j])
    e.eq('number of modes', o.outputs['out_modes'].value.shape[0], k)
    o = ModalAnalysis(ifunc=IFunc(ff, mask=mask), nmodes=k)
    e.eq('inverse of the first modes', o.phase2modes.ifunc_inv, e.np.linalg.pinv(ff[:k, :]), tol=1e-6)
    o = ModalAnalysis(ifunc=IFunc(ff, mask=mask), ifunc_inv=IFuncInv(inv, mask))
    e.eq('given inverse is used', o.phase2modes.ifunc_inv, inv)
    e.raises('nothing given', ValueError, lambda: ModalAnalysis())
    e.raises('no size', ValueError, lambda: ModalAnalysis(type_str='zernike', nmodes=3))
    e.raises('unknown type', ValueError, lambda: ModalAnalysis(type_str='x', nmodes=3, npixels=8))
    f, _, _ = field(e, 'f', 1, 1)
    o = wire(ModalAnalysis(ifunc_inv=IFuncInv(inv, mask), n_inputs=2), in_ef_list=[f])
    e.raises('wrong number of inputs', ValueError, o.setup)
