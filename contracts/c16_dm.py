"""C16: deformable mirrors: the layer published is the commanded combination of influence functions."""
import numpy as np
from pvc.api import harness
from contracts.common import step, wire, run1
from specula.base_value import BaseValue
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.ifunc import IFunc
from specula.data_objects.m2c import M2C
from specula.data_objects.pupilstop import Pupilstop
from specula.processing_objects.dm import DM

DM_ = 'processing_objects/dm.py:DM.'


def cmd(e, name, n, t=1):
    v = e.array(name, n)
    b = BaseValue(value=v)
    b.generation_time = t
    return b, e.snap(v)


def at(e, v, k, n):
    """Command k, missing commands count as zero."""
    return v[k] if n is None else e.ite(k < n, v[e.ite(k < n, k, 0)], 0)


def basis(e, nm, name=''):
    ny, nx = e.dim('ny' + name), e.dim('nx' + name)
    mask = e.array('mask' + name, (ny, nx), kind='b')
    rows, cols = e.np.where(mask)
    npx = rows.shape[0]
    e.assume(npx > 0)
    F = e.array('F' + name, (nm, npx))
    return ny, nx, mask, rows, cols, npx, F


def params(e):
    p = e.real('pitch', 0.01, 1)
    n = e.int('pup', 1)
    return SimulParams(pixel_pupil=n, pixel_pitch=p), p


def window(e, nm):
    """Selection of modes: (kwargs, first, number)."""
    start, stop = 0, nm
    kw = {}
    if e.flag('start'):
        start = e.int('start_mode', 0)
        e.assume(start < nm)
        kw['start_mode'] = start
    if e.flag('count'):
        stop = e.int('nmodes', 1)
        e.assume(stop <= nm)
        e.assume(start < stop)
        kw['nmodes'] = stop
    return kw, start, stop - start


@harness('C16', funcs=[DM_ + '__init__', DM_ + 'trigger_code'])
def zonal(e):
    nm = e.dim('nm')
    ny, nx, mask, rows, cols, npx, F = basis(e, nm)
    kw, start, nv = window(e, nm)
    sp, pitch = params(e)
    height = e.real('height', 0, 20000)
    sign = -1
    if e.flag('sign'):
        sign = e.choice('sgn', [1, 2])
        kw['sign'] = sign
    o = DM(sp, height, ifunc=IFunc(F, mask=mask), **kw)
    lay = o.outputs['out_layer']
    e.eq('shape of the layer', lay.phaseInNm.shape, (ny, nx))
    e.eq_fn('amplitude is the mask', lay.A, (ny, nx), lambda y, x: e.ite(mask[y, x], 1, 0))
    e.eq('height and sampling', (lay.height, lay.pixel_pitch), (height, pitch))
    nc = nv
    how = e.choice('commands', ['all', 'more', 'fewer'])
    if how == 'more':
        nc = nv + e.int('extra', 1)
    elif how == 'fewer':
        nc = e.dim('nc')
        e.assume(nc < nv)
    c, v = cmd(e, 'c', nc)
    run1(o, in_command=c)
    fewer = how == 'fewer'

    def surface(v):
        return lambda q: e.sum(nv, lambda k: F[start + k, q] * (sign * at(e, v, k, nc if fewer else None)))
    ph = lay.phaseInNm
    e.eq_fn('phase in the mask: command times the selected modes, with the sign of the mirror', ph[rows, cols], (npx,), surface(v))
    e.forall('no phase outside the mask', (ny, nx), lambda y, x: e.Or(mask[y, x], ph[y, x] == 0))
    e.eq('refreshed', lay.generation_time, 1)
    # the next command replaces the first one
    w = e.array('w', nc)
    c.value = w
    c.generation_time = 2
    step(o, 2)
    e.eq_fn('second step: of the new command only', lay.phaseInNm[rows, cols], (npx,), surface(w))
    e.eq('refreshed again', lay.generation_time, 2)


@harness('C16', funcs=[DM_ + '__init__', DM_ + 'trigger_code'])
def modal(e):
    """With a modes-to-commands matrix the commands are modes of that matrix."""
    na, nm = e.dim('na'), e.dim('nm')
    e.assume(nm <= na)
    ny, nx, mask, rows, cols, npx, F = basis(e, na)
    kw, start, nv = window(e, nm)
    M = e.array('M', (na, nm))
    sp, pitch = params(e)
    sign = e.choice('sgn', [1, -1])
    o = DM(sp, 0.0, ifunc=IFunc(F, mask=mask), m2c=M2C(M), sign=sign, **kw)
    nc = nv
    fewer = e.flag('fewer')
    if fewer:
        nc = e.dim('nc')
        e.assume(nc < nv)
    c, v = cmd(e, 'c', nc)
    run1(o, in_command=c)
    ph = o.outputs['out_layer'].phaseInNm
    e.eq_fn('phase in the mask: actuators of the commanded modes', ph[rows, cols], (npx,),
            lambda q: e.sum(na, lambda a: sign * e.sum(nv, lambda k: M[a, start + k] * at(e, v, k, nc if fewer else None)) * F[a, q]))
    e.forall('no phase outside the mask', (ny, nx), lambda y, x: e.Or(mask[y, x], ph[y, x] == 0))


@harness('C16', funcs=[DM_ + '__init__', DM_ + 'trigger_code'])
def selected(e):
    nm = e.dim('nm')
    ny, nx, mask, rows, cols, npx, F = basis(e, nm)
    k = e.choice('k', [1, 2, 3])
    idx = [e.int(f'i{j}', 0) for j in range(k)]
    for j in range(k):
        e.assume(idx[j] < nm)
        for i in range(j):
            e.assume(idx[i] != idx[j])
    sp, pitch = params(e)
    o = DM(sp, 0.0, ifunc=IFunc(F, mask=mask), idx_modes=list(idx))
    c, v = cmd(e, 'c', k)
    run1(o, in_command=c)
    ph = o.outputs['out_layer'].phaseInNm
    e.eq_fn('phase in the mask: listed modes in their order', ph[rows, cols], (npx,),
            lambda q: -sum([v[j] * F[idx[j], q] for j in range(k)], 0))
    e.forall('no phase outside the mask', (ny, nx), lambda y, x: e.Or(mask[y, x], ph[y, x] == 0))


@harness('C16', funcs=[DM_ + '__init__', DM_ + 'trigger_code'], mode='bounded')
def selected_modal(e):
    na, nm = 3, 2
    mask = np.array([[True, False], [True, True]])
    F = e.array('F', (na, 3))
    M = e.array('M', (na, nm))
    idx = e.choice('idx', [[0], [1], [1, 0], [0, 1]])
    sp, pitch = params(e)
    o = DM(sp, 0.0, ifunc=IFunc(F, mask=mask), m2c=M2C(M), idx_modes=idx)
    c, v = cmd(e, 'c', len(idx))
    run1(o, in_command=c)
    ph = o.outputs['out_layer'].phaseInNm
    for q, (y, x) in enumerate([(0, 0), (1, 0), (1, 1)]):
        e.eq('listed modes of the matrix', ph[y, x],
             -sum(v[j] * M[a, idx[j]] * F[a, q] for j in range(len(idx)) for a in range(na)))
    e.eq('outside', ph[0, 1], 0)


@harness('C16', funcs=[DM_ + '__init__'], trials=30)
def errors(e):
    n = e.choice('n', [2, 3])
    sp, pitch = params(e)
    mask = np.ones((n, n))
    F = e.array('F', (2, n * n))
    e.raises('list and start', ValueError, lambda: DM(sp, 0.0, ifunc=IFunc(F, mask=mask), idx_modes=[0], start_mode=0))
    e.raises('list and count', ValueError, lambda: DM(sp, 0.0, ifunc=IFunc(F, mask=mask), idx_modes=[0], nmodes=1))
    e.raises('size of the basis', ValueError, lambda: DM(sp, 0.0, ifunc=IFunc(F, mask=mask), npixels=n + 1))
    stop = Pupilstop(SimulParams(pixel_pupil=n, pixel_pitch=0.1), input_mask=np.ones((n, n)))
    e.raises('size of the stop', ValueError, lambda: DM(sp, 0.0, type_str='zernike', nmodes=2, npixels=n + 1, pupilstop=stop))


@harness('C16', funcs=[DM_ + '__init__', DM_ + 'trigger_code'], mode='test', trials=12)
def zernike(e):
    """A mirror described by a type and a number of modes has the modes of that basis."""
    n = e.choice('npix', [8, 12])
    nm = e.choice('nm', [3, 6])
    kw, start, nv = window(e, nm)
    kw.setdefault('nmodes', nm)
    nv = kw['nmodes'] - start
    sp = SimulParams(pixel_pupil=n, pixel_pitch=0.1)
    obs = e.choice('obs', [None, 0.2])
    full = IFunc(type_str='zernike', npixels=n, nmodes=nm, obsratio=obs)
    use = {} if e.flag('default size') else dict(npixels=n)
    o = DM(sp, 0.0, type_str='zernike', obsratio=obs, **use, **kw)
    c, v = cmd(e, 'c', nv)
    run1(o, in_command=c)
    want = np.zeros((n, n))
    want[full.idx_inf_func] = -v @ full.influence_function[start:start + nv]
    e.eq('surface', o.outputs['out_layer'].phaseInNm, want, tol=1e-6)
