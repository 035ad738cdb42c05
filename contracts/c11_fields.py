"""C11: electric fields and the blocks that combine them (amplitude multiplies, phase adds)."""
import numpy as np
from pvc.api import harness
from contracts.common import step, wire, run1, raises_iff
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.layer import Layer
from specula.data_objects.pupilstop import Pupilstop
from specula.data_objects.simul_params import SimulParams
from specula.processing_objects.electric_field_combinator import ElectricFieldCombinator
from specula.processing_objects.electric_field_reflection import ElectricFieldReflection
from specula.processing_objects.phase_flattening import PhaseFlattening

EF = 'data_objects/electric_field.py:ElectricField.'
CO = 'processing_objects/electric_field_combinator.py:ElectricFieldCombinator.'
RE = 'processing_objects/electric_field_reflection.py:ElectricFieldReflection.'
PF = 'processing_objects/phase_flattening.py:PhaseFlattening.'
PS = 'data_objects/pupilstop.py:Pupilstop.'
LA = 'data_objects/layer.py:Layer.'


def field(e, name, ny, nx, pitch=None, S0=None, t=1, cls=ElectricField, **k):
    """An arbitrary field of ny rows and nx columns."""
    p = e.real(name + '_pitch', 0.01, 3) if pitch is None else pitch
    s = e.real(name + '_S0', 0, 100) if S0 is None else S0
    ef = cls(nx, ny, p, S0=s, **k)
    a = e.array(name + '_A', (ny, nx))
    f = e.array(name + '_P', (ny, nx))
    ef.A = a
    ef.phaseInNm = f
    ef.generation_time = t
    return ef, e.snap(a), e.snap(f)


@harness('C11', funcs=[EF + '__init__', EF + 'A', EF + 'phaseInNm', EF + 'size', EF + 'reset', EF + 'area'])
def new_field(e):
    ny, nx = e.dim('ny'), e.dim('nx')
    p, s = e.real('pitch', 0.01, 3), e.real('S0', 0, 100)
    ef = ElectricField(nx, ny, p, S0=s)
    e.eq_fn('new field: unit amplitude', ef.A, (ny, nx), lambda i, j: 1)
    e.eq_fn('new field: zero phase', ef.phaseInNm, (ny, nx), lambda i, j: 0)
    e.eq('size is (rows, columns)', tuple(ef.size), (ny, nx))
    e.eq('flux density', ef.S0, s)
    e.eq('pitch', ef.pixel_pitch, p)
    e.eq('geometric area', ef.area(), ny * nx * p * p)
    f2, a, f = field(e, 'f', ny, nx)
    e.eq('amplitude assigned', f2.A, a)
    e.eq('phase assigned', f2.phaseInNm, f)
    e.eq('value is the (amplitude, phase) pair', f2.get_value()[0], a)
    e.eq('value is the (amplitude, phase) pair', f2.get_value()[1], f)
    f2.reset()
    e.eq_fn('reset: unit amplitude', f2.A, (ny, nx), lambda i, j: 1)
    e.eq_fn('reset: zero phase', f2.phaseInNm, (ny, nx), lambda i, j: 0)


@harness('C11', funcs=[EF + 'resize', EF + 'set_value', EF + 'get_value'])
def resize_and_set(e):
    ny, nx, my, mx = e.dim('ny'), e.dim('nx'), e.dim('my'), e.dim('mx')
    ef, a, f = field(e, 'f', ny, nx)
    s, p0 = ef.S0, ef.pixel_pitch
    q = e.real('q', 0.01, 3)
    given = e.flag('pitch_given')
    ef.resize(mx, my, pitch=q) if given else ef.resize(mx, my)
    e.eq('resize: size', tuple(ef.size), (my, mx))
    e.eq_fn('resize: unit amplitude', ef.A, (my, mx), lambda i, j: 1)
    e.eq_fn('resize: zero phase', ef.phaseInNm, (my, mx), lambda i, j: 0)
    e.eq('resize: pitch', ef.pixel_pitch, q if given else p0)
    e.eq('resize keeps S0', ef.S0, s)
    v = e.array('v', (2, my, mx))
    v0 = e.snap(v)
    held = ef.field
    ef.set_value(v)
    e.eq('set_value', ef.field, v0)
    e.ensure('set_value keeps the array', ef.field is held)
    v[:] = v * 0 + 3
    e.eq('set_value copies the data', ef.field, v0)


@harness('C11', funcs=[EF + 'set_value'], trials=30)
def set_value_wrong_shape(e):
    ny, nx, my, mx = e.dim('ny'), e.dim('nx'), e.dim('my'), e.dim('mx')
    ef, a, f = field(e, 'f', ny, nx)
    v = e.array('v', (2, my, mx))
    bad = e.case(e.Or(my != ny, mx != nx))
    raises_iff(e, 'a value of another shape is refused', AssertionError, lambda: ef.set_value(v), bad)
    if bad:
        e.eq('and leaves the field alone', ef.A, a)
        e.eq('and leaves the field alone', ef.phaseInNm, f)


@harness('C11', funcs=[EF + 'phi_at_lambda', EF + 'ef_at_lambda', EF + 'square_modulus', EF + 'masked_area'])
def at_wavelength(e):
    ny, nx = e.dim('ny'), e.dim('nx')
    ef, a, f = field(e, 'f', ny, nx)
    lam = e.real('lambda', 300, 3000)
    pi = e.np.pi
    e.eq_fn('phase at lambda = 2 pi OPD / lambda', ef.phi_at_lambda(lam), (ny, nx), lambda i, j: 2 * pi * f[i, j] / lam)
    out = ef.ef_at_lambda(lam)
    e.eq_fn('complex field, real part', out.real, (ny, nx), lambda i, j: a[i, j] * e.np.cos(f[i, j] * (2 * pi / lam)))
    e.eq_fn('complex field, imaginary part', out.imag, (ny, nx), lambda i, j: a[i, j] * e.np.sin(f[i, j] * (2 * pi / lam)))
    e.eq_fn('intensity does not depend on the phase', ef.square_modulus(lam), (ny, nx), lambda i, j: a[i, j] * a[i, j])
    e.eq('lit area', ef.masked_area(),
         ef.pixel_pitch * ef.pixel_pitch * e.sum(ny, lambda i: e.sum(nx, lambda j: a[i, j])))
    e.eq('field untouched', ef.A, a)
    e.eq('field untouched', ef.phaseInNm, f)


@harness('C11', funcs=[EF + 'phi_at_lambda', EF + 'ef_at_lambda'])
def at_wavelength_slices(e):
    ny, nx = e.dim('ny'), e.dim('nx')
    ef, a, f = field(e, 'f', ny, nx)
    lam = e.real('lambda', 300, 3000)
    y0, y1 = e.int('y0', 0, 8), e.int('y1', 0, 8)
    x0, x1 = e.int('x0', 0, 8), e.int('x1', 0, 8)
    e.assume(e.And(y0 <= y1, y1 <= ny, x0 <= x1, x1 <= nx))
    pi = e.np.pi
    sy, sx = slice(y0, y1), slice(x0, x1)
    e.eq_fn('phase of a region', ef.phi_at_lambda(lam, slicey=sy, slicex=sx), (y1 - y0, x1 - x0),
            lambda i, j: 2 * pi * f[y0 + i, x0 + j] / lam)
    e.eq_fn('phase of some rows', ef.phi_at_lambda(lam, slicey=sy), (y1 - y0, nx),
            lambda i, j: 2 * pi * f[y0 + i, j] / lam)
    e.eq_fn('phase of some columns', ef.phi_at_lambda(lam, slicex=sx), (ny, x1 - x0),
            lambda i, j: 2 * pi * f[i, x0 + j] / lam)
    out = ef.ef_at_lambda(lam, slicey=sy, slicex=sx)
    e.eq_fn('complex field of a region, real part', out.real, (y1 - y0, x1 - x0),
            lambda i, j: a[y0 + i, x0 + j] * e.np.cos(f[y0 + i, x0 + j] * (2 * pi / lam)))
    e.eq_fn('complex field of a region, imaginary part', out.imag, (y1 - y0, x1 - x0),
            lambda i, j: a[y0 + i, x0 + j] * e.np.sin(f[y0 + i, x0 + j] * (2 * pi / lam)))


@harness('C11', funcs=[EF + 'ef_at_lambda'])
def at_wavelength_out(e):
    """The result written in a given array."""
    ny, nx = e.dim('ny'), e.dim('nx')
    ef, a, f = field(e, 'f', ny, nx)
    lam = e.real('lambda', 300, 3000)
    buf = e.np.zeros((ny, nx), dtype=ef.complex_dtype)
    r = ef.ef_at_lambda(lam, out=buf)
    e.ensure('returned array is the given one', r is buf)
    e.eq_fn('real part', buf.real, (ny, nx), lambda i, j: a[i, j] * e.np.cos(f[i, j] * (2 * e.np.pi / lam)))
    e.eq_fn('imaginary part', buf.imag, (ny, nx), lambda i, j: a[i, j] * e.np.sin(f[i, j] * (2 * e.np.pi / lam)))


@harness('C11', funcs=[EF + 'product'])
def product(e):
    ny, nx, dy, dx = e.dim('ny'), e.dim('nx'), e.dim('dy', 0), e.dim('dx', 0)
    ef, a, f = field(e, 'f', ny, nx)
    sub = e.flag('subrect')
    if sub:
        oy, ox = e.int('oy', 0, 4), e.int('ox', 0, 4)
        e.assume(e.And(oy <= dy, ox <= dx))
        g, b, h = field(e, 'g', ny + dy, nx + dx)
        ef.product(g, subrect=[oy, ox])
    else:
        oy = ox = 0
        g, b, h = field(e, 'g', ny, nx)
        ef.product(g)
    e.eq_fn('amplitudes multiply', ef.A, (ny, nx), lambda i, j: a[i, j] * b[oy + i, ox + j])
    e.eq_fn('phases add', ef.phaseInNm, (ny, nx), lambda i, j: f[i, j] + h[oy + i, ox + j])
    e.eq('other field untouched', g.A, b)
    e.eq('other field untouched', g.phaseInNm, h)


@harness('C11', funcs=[EF + 'sub_ef'])
def region(e):
    ny, nx = e.dim('ny'), e.dim('nx')
    ef, a, f = field(e, 'f', ny, nx)
    x0, x1 = e.int('x0', 0, 8), e.int('x1', 0, 8)
    y0, y1 = e.int('y0', 0, 8), e.int('y1', 0, 8)
    e.assume(e.And(x0 < x1, x1 <= ny, y0 < y1, y1 <= nx))
    s = ef.sub_ef(x0, x1, y0, y1)
    e.eq_fn('amplitude of the region', s.A, (x1 - x0, y1 - y0), lambda i, j: a[x0 + i, y0 + j])
    e.eq_fn('phase of the region', s.phaseInNm, (x1 - x0, y1 - y0), lambda i, j: f[x0 + i, y0 + j])
    e.eq('flux density', s.S0, ef.S0)
    e.eq('pitch', s.pixel_pitch, ef.pixel_pitch)
    s.reset()
    e.eq('the region is a copy', ef.A, a)
    e.eq('the region is a copy', ef.phaseInNm, f)


@harness('C11', funcs=[EF + 'checkOther'], trials=30)
def size_check(e):
    ny, nx, my, mx = e.dim('ny'), e.dim('nx'), e.dim('my'), e.dim('mx')
    a = ElectricField(nx, ny, 1.0)
    b = ElectricField(mx, my, 1.0)
    sub = e.flag('subrect')
    oy, ox = (e.int('oy', 0, 3), e.int('ox', 0, 3)) if sub else (0, 0)
    bad = e.Or(my != ny - oy, mx != nx - ox)
    if sub:
        raises_iff(e, 'a field of another size is refused', ValueError, lambda: a.checkOther(b, subrect=[oy, ox]), bad)
    else:
        raises_iff(e, 'a field of another size is refused', ValueError, lambda: a.checkOther(b), bad)
    e.raises('only fields are accepted', ValueError, lambda: a.checkOther(SimulParams()))


@harness('C11', funcs=[CO + '__init__', CO + 'setup', CO + 'trigger'])
def combine_pair(e):
    ny, nx = e.dim('ny'), e.dim('nx')
    p = e.real('pitch', 0.01, 3)
    f1, a1, p1 = field(e, 'f', ny, nx, pitch=p)
    f2, a2, p2 = field(e, 'g', ny, nx, pitch=p)
    o = run1(ElectricFieldCombinator(), in_ef1=f1, in_ef2=f2)
    out = o.outputs['out_ef']
    e.eq_fn('amplitudes multiply', out.A, (ny, nx), lambda i, j: a1[i, j] * a2[i, j])
    e.eq_fn('phases add', out.phaseInNm, (ny, nx), lambda i, j: p1[i, j] + p2[i, j])
    e.eq('flux densities add', out.S0, f1.S0 + f2.S0)
    e.eq('pitch', out.pixel_pitch, p)
    e.eq('refreshed', out.generation_time, 1)
    b1, q1 = e.array('f2_A', (ny, nx)), e.array('f2_P', (ny, nx))
    f1.A = b1
    f1.phaseInNm = q1
    f1.S0 = e.real('f2_S0', 0, 100)
    f1.generation_time = 2
    step(o, 2)
    e.eq_fn('second step: amplitudes', out.A, (ny, nx), lambda i, j: b1[i, j] * a2[i, j])
    e.eq_fn('second step: phases', out.phaseInNm, (ny, nx), lambda i, j: q1[i, j] + p2[i, j])
    e.eq('second step: flux densities', out.S0, f1.S0 + f2.S0)
    e.eq('second step: refreshed', out.generation_time, 2)


@harness('C11', funcs=[CO + 'setup', CO + 'trigger'])
def combine_list(e):
    ny, nx = e.dim('ny'), e.dim('nx')
    p = e.real('pitch', 0.01, 3)
    n = e.choice('n', [1, 2, 3, 4])
    fs = [field(e, f'f{k}', ny, nx, pitch=p) for k in range(n)]
    o = run1(ElectricFieldCombinator(), in_ef_list=[f[0] for f in fs])
    out = o.outputs['out_ef']

    def amp(i, j):
        r = 1
        for f in fs:
            r = r * f[1][i, j]
        return r
    e.eq_fn('amplitudes multiply', out.A, (ny, nx), amp)
    e.eq_fn('phases add', out.phaseInNm, (ny, nx), lambda i, j: sum(f[2][i, j] for f in fs))
    e.eq('flux densities add', out.S0, sum(f[0].S0 for f in fs))
    e.eq('refreshed', out.generation_time, 1)


@harness('C11', funcs=[CO + 'setup'], trials=40)
def combine_errors(e):
    """Fields of different shape or sampling are refused, whichever of the list they are."""
    ny, nx, my, mx = e.dim('ny'), e.dim('nx'), e.dim('my'), e.dim('mx')
    p, q = e.real('p', 0.01, 3), e.real('q', 0.01, 3)
    f1 = ElectricField(nx, ny, p)
    f2 = ElectricField(mx, my, q)
    f3 = ElectricField(nx, ny, p)
    bad = e.Or(my != ny, mx != nx, p != q)
    k = e.choice('form', ['pair', 'second', 'last'])
    o = ElectricFieldCombinator()
    if k == 'pair':
        wire(o, in_ef1=f1, in_ef2=f2)
    elif k == 'second':
        wire(o, in_ef_list=[f1, f2, f3])
    else:
        wire(o, in_ef_list=[f1, f3, f2])
    raises_iff(e, 'incompatible fields are refused', ValueError, o.setup, bad)


@harness('C11', funcs=[CO + 'setup'], trials=16)
def combine_inputs(e):
    """Exactly one of the two ways of connecting the inputs is accepted."""
    f = [ElectricField(2, 3, 1.0) for _ in range(3)]
    a, b, c = e.flag('ef1'), e.flag('ef2'), e.flag('list')
    o = ElectricFieldCombinator()
    if a:
        wire(o, in_ef1=f[0])
    if b:
        wire(o, in_ef2=f[1])
    if c:
        wire(o, in_ef_list=[f[2]])
    raises_iff(e, 'either the list or both fields', ValueError, o.setup, (a and b) == c)


@harness('C11', funcs=[RE + '__init__', RE + 'setup', RE + 'trigger'])
def reflection(e):
    ny, nx = e.dim('ny'), e.dim('nx')
    f1, a, p = field(e, 'f', ny, nx)
    o = run1(ElectricFieldReflection(), in_ef=f1)
    out = o.outputs['out_ef']
    e.eq('amplitude', out.A, a)
    e.eq_fn('phase changes sign', out.phaseInNm, (ny, nx), lambda i, j: -p[i, j])
    e.eq('flux density', out.S0, f1.S0)
    e.eq('pitch', out.pixel_pitch, f1.pixel_pitch)
    e.eq('refreshed', out.generation_time, 1)


@harness('C11', funcs=[PF + '__init__', PF + 'setup', PF + 'trigger_code'])
def flattening(e):
    ny, nx = e.dim('ny'), e.dim('nx')
    f1, a, p = field(e, 'f', ny, nx)
    dark = e.flag('dark')
    if dark:
        a = e.array('dark_A', (ny, nx), lo=-1, hi=0)
        f1.A = a
        a = e.snap(a)
    cnt = e.sum(ny, lambda i: e.sum(nx, lambda j: e.ite(a[i, j] > 0, 1, 0)))
    tot = e.sum(ny, lambda i: e.sum(nx, lambda j: e.ite(a[i, j] > 0, p[i, j], 0)))
    if not dark:
        e.assume(cnt > 0)
    o = run1(PhaseFlattening(), in_ef=f1)
    out = o.outputs['out_ef']
    e.eq('amplitude', out.A, a)
    if dark:
        e.eq('no lit pixel: phase unchanged', out.phaseInNm, p)
    else:
        e.eq_fn('mean of the lit pixels removed from them only', out.phaseInNm, (ny, nx),
                lambda i, j: e.ite(a[i, j] > 0, p[i, j] - tot / cnt, p[i, j]))
    e.eq('flux density', out.S0, f1.S0)
    e.eq('pitch', out.pixel_pitch, f1.pixel_pitch)
    e.eq('refreshed', out.generation_time, 1)


@harness('C11', funcs=[LA + '__init__', PS + '__init__', PS + 'set_value', PS + 'get_value'])
def pupil_stop(e):
    n = e.dim('n', 2)
    p = e.real('pitch', 0.01, 3)
    m = e.array('mask', (n, n))
    m0 = e.snap(m)
    sh = (e.real('sx'), e.real('sy'))
    rot, mag = e.real('rot'), e.real('mag', 0.5, 2)
    o = Pupilstop(SimulParams(pixel_pupil=n, pixel_pitch=p), input_mask=m, shiftXYinPixel=sh, rotInDeg=rot, magnification=mag)
    e.eq('given mask is the amplitude', o.A, m0)
    e.eq_fn('no phase', o.phaseInNm, (n, n), lambda i, j: 0)
    e.eq('value is the amplitude', o.get_value(), m0)
    e.eq('geometry', (o.pixel_pitch, o.height, o.rotInDeg, o.magnification), (p, 0, rot, mag))
    e.eq('shift', (o.shiftXYinPixel[0], o.shiftXYinPixel[1]), sh)
    e.eq('valid from the first step', o.generation_time, 0)
    v = e.array('v', (n, n))
    o.set_value(v)
    e.eq('set_value replaces the amplitude', o.A, v)
    e.eq_fn('set_value leaves the phase', o.phaseInNm, (n, n), lambda i, j: 0)


@harness('C11', funcs=[PS + '__init__', 'lib/make_mask.py:make_mask'], trials=30)
def pupil_stop_made(e):
    """Default mask: the annulus of the given diameters centred on the array."""
    n = e.dim('n', 2)
    p = e.real('pitch', 0.01, 3)
    obs = e.choice('obs', [None, 0.0, 0.3])
    dia = e.choice('dia', [1.0, 0.7])
    o = Pupilstop(SimulParams(pixel_pupil=n, pixel_pitch=p), mask_diam=dia, obs_diam=obs)
    ob = obs or 0.0

    def inside(i, j):
        x, y = (2 * j - (n - 1)) / n, (2 * i - (n - 1)) / n
        r2 = x * x + y * y
        return e.ite(e.And(r2 < dia ** 2, r2 >= (dia * ob) ** 2), 1, 0)
    e.eq_fn('annular mask', o.A, (n, n), inside)
    e.eq_fn('no phase', o.phaseInNm, (n, n), lambda i, j: 0)
