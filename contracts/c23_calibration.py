"""C23: calibration: interaction matrices, reconstructors, slope nulls, subapertures, pyramid pupils, dark frames."""
import os
import numpy as np
from pvc.api import harness
from contracts.common import step, wire, val
from specula.base_value import BaseValue
from specula.data_objects.intensity import Intensity
from specula.data_objects.intmat import Intmat
from specula.data_objects.pixels import Pixels
from specula.data_objects.pupdata import PupData
from specula.data_objects.recmat import Recmat
from specula.data_objects.slopes import Slopes
from specula.data_objects.subap_data import SubapData
from specula.processing_objects.dynamic_dark_calibrator import DynamicDarkCalibrator
from specula.processing_objects.dynamic_pyr_pupdata_calibrator import DynamicPyrPupdataCalibrator
from specula.processing_objects.im_calibrator import ImCalibrator
from specula.processing_objects.multi_im_calibrator import MultiImCalibrator
from specula.processing_objects.multi_rec_calibrator import MultiRecCalibrator
from specula.processing_objects.pyr_pupdata_calibrator import PyrPupdataCalibrator
from specula.processing_objects.rec_calibrator import RecCalibrator
from specula.processing_objects.sh_subap_calibrator import ShSubapCalibrator
from specula.processing_objects.sn_calibrator import SnCalibrator
import specula.processing_objects.rec_calibrator as m_rec

PO = 'processing_objects/'
IC = [PO + 'im_calibrator.py:ImCalibrator.' + f for f in ('__init__', 'trigger_code', 'finalize')]
MI = [PO + 'multi_im_calibrator.py:MultiImCalibrator.' + f for f in ('__init__', 'trigger_code', 'finalize', 'setup')]
MR = [PO + 'multi_rec_calibrator.py:MultiRecCalibrator.' + f for f in ('__init__', 'tag_filename', 'rec_path', 'full_rec_path', 'finalize', 'setup')]
RC = [PO + 'rec_calibrator.py:RecCalibrator.' + f for f in ('__init__', 'finalize')]
SN = [PO + 'sn_calibrator.py:SnCalibrator.' + f for f in ('__init__', 'trigger_code', 'finalize')]
SH = [PO + 'sh_subap_calibrator.py:ShSubapCalibrator.' + f for f in ('__init__', 'setup', 'trigger_code', 'finalize', '_detect_subaps')]
PY = [PO + 'pyr_pupdata_calibrator.py:PyrPupdataCalibrator.' + f for f in (
    '__init__', 'setup', 'trigger_code', '_analyze_pupils', '_analyze_single_pupil', '_detect_obstruction', '_radial_profile',
    '_generate_indices', '_save', 'finalize')]
DP = [PO + 'dynamic_pyr_pupdata_calibrator.py:DynamicPyrPupdataCalibrator.' + f for f in ('__init__', 'prepare_trigger', 'trigger_code', 'post_trigger')]
DD = [PO + 'dynamic_dark_calibrator.py:DynamicDarkCalibrator.' + f for f in ('__init__', 'setup', 'trigger_code', 'prepare_trigger', 'post_trigger', 'save')]


def measured(e, name, n, t):
    s = Slopes(n)
    s.slopes = e.array(name, (n,))
    s.generation_time = t
    return s


def request(v):
    b = BaseValue()
    b.value = v
    return b


def poke(e, name, n, where):
    """A command vector with one mode poked (none if where is None)."""
    a = e.real(name, 0.5, 9)
    if e.flag(name + ' negative'):
        a = -a
    return e.mk((n,), lambda i: a if where is not None and i == where else 0.0), a


@harness('C23', funcs=IC, trials=60)
def interaction_matrix(e):
    """Column of a mode: mean over its pokes of the slopes divided by the poke; untouched modes stay at zero."""
    nm, first, seq = e.choice('case', [
        (2, 0, [0, 1, 0]), (3, 0, [1, None, 1]), (2, 1, [1, 0, 2]), (2, 1, [2, 3, 2]), (1, 2, [1, 2, 2]), (2, 0, ['stale', 0, 'stale'])])
    n = e.dim('nslopes', 1)
    d = e.tmpfile('calib')
    o = ImCalibrator(nmodes=nm, data_dir=d, im_tag='im', first_mode=first)
    slopes, commands = Slopes(n), val(np.zeros(4))
    wire(o, in_slopes=slopes, in_commands=commands)
    o.setup()
    sums, counts = [0.0] * nm, [0] * nm
    for k, where in enumerate(seq):
        t = k + 1
        stale = where == 'stale'
        c, a = poke(e, f'poke{k}', 4, 0 if stale else where)
        commands.value = c
        commands.generation_time = t
        if not stale:
            slopes.slopes = e.array(f's{k}', (n,))
            slopes.single_mask, slopes.display_map = f'mask{k}', f'map{k}'
            slopes.generation_time = t
        step(o, t)
        m = None if where is None or stale else where - first
        if m is not None and 0 <= m < nm:
            sums[m] = sums[m] + slopes.slopes / a
            counts[m] += 1
        if stale:
            continue
        im = o.outputs['out_intmat']
        e.eq('shape', im.intmat.shape, (n, nm))
        e.eq('display', (im.single_mask, im.display_map), (f'mask{k}', f'map{k}'))
        e.eq('refreshed', im.generation_time, t)
        for j in range(nm):
            want = sums[j] if counts[j] else e.np.zeros(n)
            e.eq('accumulated', im.intmat[:, j], want)
            e.eq('one matrix per mode', o.outputs['out_single_im'][j].intmat[:, 0], want)
            e.eq('refreshed', o.outputs['out_single_im'][j].generation_time, t)
    o.finalize()
    saved = Intmat.restore(os.path.join(d, 'im.fits'))
    for j in range(nm):
        want = sums[j] / counts[j] if counts[j] else e.np.zeros(n)
        e.eq('mean over the pokes', o.outputs['out_intmat'].intmat[:, j], want)
        e.eq('saved matrix', saved.intmat[:, j], want)


@harness('C23', funcs=MI, trials=60)
def several_matrices(e):
    """The same pokes give one matrix per sensor and their stack."""
    nm = 2
    n = [e.dim('n0', 1), e.dim('n1', 1)]
    d = e.tmpfile('calib')
    if not e.symbolic:
        d = os.path.relpath(d)
    ncmd, seq = e.choice('case', [(1, [0, 1]), (1, [1, 2]), (2, [0, 1]), (2, [None, 0])])
    o = MultiImCalibrator(nmodes=nm, n_inputs=2, data_dir=d, im_tag=['a', 'b'], full_im_tag='full')
    ss, cc = [Slopes(n[0]), Slopes(n[1])], [val(np.zeros(3)) for _ in range(ncmd)]
    wire(o, in_slopes_list=ss, in_commands_list=cc)
    o.setup()
    sums, counts = [[0.0] * nm, [0.0] * nm], [0] * nm
    for k, where in enumerate(seq):
        t = k + 1
        amps = []
        for i in range(ncmd):
            c, a = poke(e, f'poke{k}{i}', 3, where if i == 0 else 1)
            cc[i].value, cc[i].generation_time = c, t
            amps.append((where if i == 0 else 1, a))
        for i in range(2):
            ss[i].slopes, ss[i].generation_time = e.array(f's{k}{i}', (n[i],)), t
        step(o, t)
        for m, a in amps:
            if m is not None and m < nm:
                counts[m] += 1
                for i in range(2):
                    sums[i][m] = sums[i][m] + ss[i].slopes / a
        for i in range(2):
            e.eq('refreshed', o.outputs['out_intmat_list'][i].generation_time, t)
    o.finalize()
    ims = o.outputs['out_intmat_list']
    for i in range(2):
        saved = Intmat.restore(os.path.join(d, 'ab'[i] + '.fits'))
        for m in range(nm):
            want = sums[i][m] / counts[m] if counts[m] else e.np.zeros(n[i])
            e.eq('mean over the pokes', ims[i].intmat[:, m], want)
            e.eq('saved matrix', saved.intmat[:, m], want)
    full = o.outputs['out_intmat_full']
    e.eq('stack of the sensors', full.intmat, e.np.concatenate([ims[0].intmat, ims[1].intmat], axis=0))
    e.eq('saved stack', Intmat.restore(os.path.join(d, 'full.fits')).intmat, full.intmat)
    e.eq('refreshed', full.generation_time, len(seq))


@harness('C23', funcs=MI + MR + IC[:1] + RC[:1] + SN[:1] + SH[:2] + PY[:2] + DD[:1], mode='test', trials=6)
def errors(e):
    d = e.tmpfile('calib')
    os.makedirs(d, exist_ok=True)
    for f in ('there.fits', 'rec0.fits'):
        open(os.path.join(d, f), 'w').close()
    wrong = {
        'existing matrix': lambda w: ImCalibrator(1, d, 'there', overwrite=w),
        'existing matrices': lambda w: MultiImCalibrator(1, 1, d, ['there'], 'full', overwrite=w),
        'existing stack': lambda w: MultiImCalibrator(1, 1, d, ['new'], 'there', overwrite=w),
        'existing reconstructor': lambda w: RecCalibrator(1, d, 'there', overwrite=w),
        'existing full reconstructor': lambda w: MultiRecCalibrator(1, d, full_rec_tag='there', overwrite=w),
        'existing slope null': lambda w: SnCalibrator(d, 'there', overwrite=w)}
    for k, f in wrong.items():
        e.raises(k + ' refused', FileExistsError, lambda: f(False))
        f(True)
    m = MultiRecCalibrator(1, d, rec_tag='rec')
    wire(m, intmat_list=[Intmat(nmodes=1, nslopes=2)], full_intmat=Intmat(nmodes=1, nslopes=2))
    e.raises('existing reconstructors refused', FileExistsError, m.setup)
    e.raises('automatic tag without template', ValueError, lambda: MultiRecCalibrator(1, d, rec_tag='auto'))
    e.raises('automatic tag without template', ValueError, lambda: RecCalibrator(1, d, 'auto'))
    e.raises('automatic tag without template', ValueError, lambda: SnCalibrator(d, 'auto'))
    e.raises('automatic tag without template', ValueError, lambda: ShSubapCalibrator(2, d, 0.1, 'auto'))
    e.raises('noise covariance missing', ValueError, lambda: RecCalibrator(1, d, 'x', mmse=True))
    e.raises('integration time', ValueError, lambda: PyrPupdataCalibrator(d, dt=0))
    e.raises('integration time', ValueError, lambda: PyrPupdataCalibrator(d, dt=-1))
    e.raises('number of frames', ValueError, lambda: DynamicDarkCalibrator(d, 0))
    e.raises('no input', ValueError, lambda: PyrPupdataCalibrator(d).setup())
    e.raises('no input', ValueError, lambda: ShSubapCalibrator(2, d, 0.1, 'x').setup())
    s = ShSubapCalibrator(2, d, 0.1, 'x')
    wire(s, in_i=Intensity(4, 4), in_pixels=Pixels(4, 4))
    e.raises('two inputs', ValueError, s.setup)
    c = MultiImCalibrator(1, 2, d, ['p', 'q'], 'r')
    wire(c, in_slopes_list=[Slopes(2)], in_commands_list=[val(np.zeros(1))])
    e.raises('one slope vector per sensor', ValueError, c.setup)


@harness('C23', funcs=RC + ['data_objects/intmat.py:Intmat.generate_rec', 'data_objects/intmat.py:Intmat.pseudo_invert'], trials=40)
def reconstructor(e):
    """The saved reconstructor is the pseudoinverse of the first nmodes columns."""
    n, m = e.dim('nslopes', 1, 5), e.dim('nmodes in the matrix', 1, 4)
    k = e.choice('nmodes', [1, 2, None, 5])
    d = e.tmpfile('calib')
    if not e.symbolic:
        d = os.path.relpath(d)
    im = Intmat(e.array('im', (n, m)))
    im.generation_time = 1
    o = RecCalibrator(nmodes=k, data_dir=d, rec_tag=e.choice('tag', ['rec', 'rec.fits']))
    wire(o, in_intmat=im)
    o.setup()
    step(o, 1)
    o.finalize()
    rec = Recmat.restore(os.path.join(d, 'rec.fits'))
    want = e.np.linalg.pinv(im.intmat if k is None else im.intmat[:, :k])
    e.eq('reconstructor', rec.recmat, want)
    if not e.symbolic:
        A = np.array(im.intmat if k is None else im.intmat[:, :k], float)
        e.eq('least squares', A @ rec.recmat @ A, A, tol=1e-6)
        e.eq('least squares', (rec.recmat @ A).T, rec.recmat @ A, tol=1e-6)


@harness('C23', funcs=RC + ['data_objects/intmat.py:Intmat.generate_rec_mmse'], trials=40)
def mmse_reconstructor(e):
    """The block hands over turbulence, geometry, modes and noise; the reconstructor it receives is saved."""
    got = {}

    class Mirror:
        pixel_pitch, pixel_pupil = 0.5, 16
        ifunc, mask, m2c = np.ones((2, 3)), np.ones((2, 2)), None

    class Matrix(Intmat):
        def generate_rec_mmse(self, *a, **k):
            got['args'] = (a, k)
            return Recmat(rec)
    rec = e.array('rec', (2, 4))
    d = e.tmpfile('calib')
    noise = e.choice('noise', [0.25, 'vector', 'list'])
    c = {'vector': np.ones(4), 'list': [np.ones(2), np.ones(2)]}.get(noise, noise)
    dm = Mirror()
    if e.flag('with modes to commands'):
        dm.m2c = np.eye(2)
    r0, L0 = e.real('r0', 0.05, 1), e.real('L0', 1, 50)
    o = RecCalibrator(nmodes=2, data_dir=d, rec_tag='auto', tag_template='t', mmse=True, r0=r0, L0=L0, dm=dm, noise_cov=c)
    im = Matrix(np.ones((4, 3)))
    wire(o, in_intmat=im)
    o.setup()
    o.finalize()
    a, k = got['args']
    e.eq('turbulence', a[:2], (r0, L0))
    e.eq('diameter', a[2], 8.0)
    e.eq('influence functions', a[3].influence_function, dm.ifunc)
    e.eq('pupil', a[3].mask_inf_func, dm.mask)
    if noise == 'list':
        e.eq('noise', len(a[4]), 2)
        for x in a[4]:
            e.eq('noise', x, np.ones(2))
    else:
        e.eq('noise', a[4], c)
    e.eq('modes', k['nmodes'], 2)
    e.eq('modes to commands', None if k['m2c'] is None else k['m2c'].m2c, dm.m2c)
    e.eq('saved reconstructor', Recmat.restore(os.path.join(d, 't.fits')).recmat, rec)


@harness('C23', funcs=MR, trials=40)
def several_reconstructors(e):
    """One reconstructor per matrix, and one for the full matrix, where asked for."""
    d = e.tmpfile('calib')
    if not e.symbolic:
        d = os.path.relpath(d)
    one, full = e.choice('saved', [('rec', None), (None, 'full'), ('rec', 'full'), ('auto', 'auto'), (None, None)])
    n = [e.dim('n0', 1), e.dim('n1', 1)]
    m, k = e.dim('m', 2), 2
    ims = [Intmat(e.array(f'im{i}', (n[i], m))) for i in range(2)]
    tot = Intmat(e.array('im full', (n[0] + n[1], m)))
    o = MultiRecCalibrator(nmodes=k, data_dir=d, rec_tag=one, full_rec_tag=full, rec_tag_template='each', full_rec_tag_template='all')
    for x in ims + [tot]:
        x.generation_time = 1
    wire(o, intmat_list=ims, full_intmat=tot)
    o.setup()
    step(o, 1)
    o.finalize()
    name = {'auto': 'each'}.get(one, one)
    for i in range(2):
        if name:
            e.eq('reconstructor of a sensor', Recmat.restore(os.path.join(d, f'{name}{i}.fits')).recmat, e.np.linalg.pinv(ims[i].intmat[:, :k]))
    name = {'auto': 'all'}.get(full, full)
    if name:
        e.eq('full reconstructor', Recmat.restore(os.path.join(d, f'{name}.fits')).recmat, e.np.linalg.pinv(tot.intmat[:, :k]))


@harness('C23', funcs=SN, trials=40)
def slope_null(e):
    """The saved slope null is the mean of the slopes of all steps."""
    n = e.dim('n', 1)
    d = e.tmpfile('calib')
    steps = e.choice('steps', [1, 2, 4])
    tag, template = e.choice('tag', [('sn', None), ('auto', 'sn'), (None, 'sn.fits')])
    o = SnCalibrator(d, output_tag=tag, tag_template=template)
    s = Slopes(n)
    wire(o, in_slopes=s)
    o.setup()
    tot = 0.0
    for k in range(steps):
        s.slopes = e.array(f's{k}', (n,))
        s.generation_time = k + 1
        step(o, k + 1)
        tot = tot + s.slopes
    o.finalize()
    e.eq('mean slopes', Slopes.restore(os.path.join(d, 'sn.fits')).slopes, tot / steps)


@harness('C23', funcs=SH, mode='bounded', trials=60)
def subapertures(e):
    """Selected: the subapertures whose flux exceeds the threshold times the largest; each keeps its own pixels and place."""
    ns, size = e.choice('case', [(2, 4), (2, 2), (1, 3)] if e.symbolic else [(2, 4), (2, 6), (3, 9), (4, 8), (5, 20), (1, 3)])
    th = e.choice('threshold', [0.5, 0.125])
    image = e.array('image', (size, size), lo=0.1, hi=1)
    dark = None
    if not e.symbolic:
        image = np.array(image, float)
        dark = np.random.default_rng(size * 7 + ns).random((ns, ns)) < 0.4
        image *= np.where(np.kron(dark, np.ones((size // ns, size // ns))) > 0, 0.05, 1)
    d = e.tmpfile('calib')
    o = ShSubapCalibrator(ns, d, th, output_tag=e.choice('tag', ['sub', 'sub.fits']))
    if e.flag('pixels'):
        src = Pixels(size, size)
        src.pixels = image
        wire(o, in_pixels=src)
    else:
        src = Intensity(size, size)
        src.i = image
        wire(o, in_i=src)
    src.generation_time = 1
    o.setup()
    step(o, 1)
    p = size // ns
    flux = [[e.np.sum(image[r * p:(r + 1) * p, c * p:(c + 1) * p]) for c in range(ns)] for r in range(ns)]
    top = flux[0][0]
    for r in range(ns):
        for c in range(ns):
            top = e.ite(flux[r][c] > top, flux[r][c], top)
    want = {}
    for c in range(ns):
        for r in range(ns):
            if e.case(flux[r][c] > th * top):
                want[r * ns + c] = [(r * p + i) * size + c * p + j for i in range(p) for j in range(p)]
    s = o.subaps
    got = {int(s.display_map[k]): [int(x) for x in s.idxs[k]] for k in range(s.idxs.shape[0])}
    e.eq('selected subapertures and their pixels', got, want)
    e.eq('each selected once', s.idxs.shape[0], len(want))
    e.eq('grid', (s.nx, s.ny), (ns, ns))
    o.finalize()
    back = SubapData.restore(os.path.join(d, 'sub.fits'))
    e.eq('saved pixels', back.idxs, s.idxs)
    e.eq('saved map', back.display_map, s.display_map)


def pupils(rng, size, radius, obs, four):
    """A detector frame with four discs: image, centres (x, y) in reading order."""
    y, x = np.mgrid[0:size, 0:size]
    img, h = np.zeros((size, size)), size // 2
    for (cx, cy), flux in zip(four, 1 + 0.2 * rng.random(4)):
        r = np.hypot(x - cx, y - cy)
        img[(r <= radius) & (r >= radius * obs)] += flux
    return img + 0.01 * rng.random((size, size))


@harness('C23', funcs=PY, mode='test', trials=60)
def pyramid_pupils(e):
    """Centre, radius and pixels of the four pupils of a frame, in the order expected by the slope computer."""
    rng = np.random.default_rng(e.choice('seed', list(range(6))))
    size = e.choice('size', [40, 48])
    q = size // 4
    inten = e.flag('slopes from intensity')
    four = [(q + dx + rng.uniform(-2, 2), q + dy + rng.uniform(-2, 2)) for dy in (0, 2 * q) for dx in (0, 2 * q)]
    obs = e.choice('obstruction', [0.0, 0.4])
    img = pupils(rng, size, q - 4, obs, four)
    d = e.tmpfile('calib')
    o = PyrPupdataCalibrator(d, slopes_from_intensity=inten, output_tag='pup', auto_detect_obstruction=obs > 0)
    src = Intensity(size, size)
    src.i = img
    src.generation_time = 1
    wire(o, in_i=src)
    o.setup()
    step(o, 1)
    p = o.outputs['out_pupdata']
    y, x = np.mgrid[0:size, 0:size]
    h = size // 2
    cen, rad = [], []
    for k in range(4):
        r0, c0 = h * (k // 2), h * (k % 2)
        sub = img[r0:r0 + h, c0:c0 + h]
        th = np.where(sub < sub.min() + (sub.max() - sub.min()) * 0.1, 0, sub)
        m = th >= th[th > 0].mean() * 0.25
        rr, cc = np.nonzero(m)
        cen.append((cc.mean() + c0, rr.mean() + r0))
        rad.append(np.sqrt(m.sum() / np.pi))
    order = [1, 0, 2, 3]
    e.eq('x of the pupils', p.cx, np.array([cen[k][0] for k in order]), tol=1e-9)
    e.eq('y of the pupils', p.cy, np.array([cen[k][1] for k in order]), tol=1e-9)
    e.eq('radius of the pupils', p.radius, np.array([rad[k] for k in order]), tol=1e-9)
    e.eq('frame', tuple(p.framesize), (size, size))
    e.eq('refreshed', p.generation_time, 1)
    ratio = o.central_obstruction_ratio
    e.ensure('obstruction found', (0.05 <= ratio <= 0.5) if obs else ratio == 0)
    for j, k in enumerate(order):
        if inten:
            r = np.hypot(x - cen[k][0], y - cen[k][1])
            want = np.flatnonzero((r <= rad[k]) & ((r >= rad[k] * ratio) if ratio > 0 else True))
        else:
            r = np.hypot(x - cen[0][0], y - cen[0][1])
            sel = np.argwhere((r <= max(rad)) & ((r >= max(rad) * ratio) if ratio > 0 else True))
            sx, sy = round(cen[k][0] - cen[0][0]), round(cen[k][1] - cen[0][1])
            want = np.array([(a + sy) * size + b + sx for a, b in sel if 0 <= a + sy < size and 0 <= b + sx < size])
        got = np.asarray(p.ind_pup[:, j])
        e.eq('pixels of the pupil', got[got >= 0], want)
        e.eq('padding', got[len(want):], np.full(len(got) - len(want), -1))
    o.finalize()
    e.eq('saved pupils', PupData.restore(os.path.join(d, 'pup.fits')).ind_pup, p.ind_pup)


@harness('C23', funcs=PY[:3], trials=40)
def pyramid_integration(e):
    """Frames are summed and analysed at the multiples of the integration time only, then the sum restarts."""
    k = e.choice('frames', [None, 1, 2, 3])
    seen = []
    o = PyrPupdataCalibrator(e.tmpfile('calib'), dt=None if k is None else 1e-9 * k * 10, auto_detect_obstruction=False, save_on_exit=False)

    def analyse(image):
        seen.append(image.copy())
        return np.array([[2.0, 2], [6, 2], [2, 6], [6, 6]]), np.array([1.0, 1, 1, 1])
    o._analyze_pupils = analyse
    o._generate_indices = lambda *a: np.zeros((1, 4), dtype=int)
    n = e.dim('size', 2, 8)
    src = Pixels(2, 2)
    src.pixels = e.np.zeros((n, n))
    wire(o, in_pixels=src)
    o.setup()
    acc, want, stamp = 0.0, [], -1
    for j in range(1, 8):
        src.pixels = e.array(f'frame{j}', (n, n))
        src.generation_time = 10 * j
        step(o, 10 * j)
        acc = acc + src.pixels
        if k is None or (10 * j) % (10 * k) == 0:
            want.append(acc)
            acc, stamp = 0.0, 10 * j
        e.eq('time stamp', o.outputs['out_pupdata'].generation_time, stamp)
    e.eq('analyses', len(seen), len(want))
    for a, b in zip(seen, want):
        e.eq('sum of the frames', a, b)


@harness('C23', funcs=DP, mode='test', trials=30)
def interactive_pupils(e):
    """Parameters follow the interactive inputs; a failed measurement is signalled and the simulation goes on."""
    dt = e.choice('dt', [None, 1e-8])
    d = e.tmpfile('calib')
    o = DynamicPyrPupdataCalibrator(d, dt=dt, save_on_exit=False, auto_detect_obstruction=False)
    src = Intensity(24, 24)
    four = [(6, 6), (18, 6), (6, 18), (18, 18)]
    src.i = pupils(np.random.default_rng(1), 24, 3, 0, four)
    src.generation_time = 10
    ins = {k: request(v) for k, v in dict(in_dt=2e-8, in_thr1='0.2', in_thr2=0.3, in_output_tag='mine', in_save='one').items()}
    wire(o, in_i=src, **ins)
    o.setup()
    step(o, 10, hold=False)
    par = o.outputs['out_params']
    e.eq('parameters', par.value, {'dt': dt, 'thr1': 0.1, 'thr2': 0.25, 'status': 'OK'})
    e.eq('refreshed', (par.generation_time, o.outputs['out_pupdata'].generation_time), (10, 10))
    for v in ins.values():
        v.generation_time = 20
    src.generation_time = 20
    step(o, 20, hold=False)
    e.eq('parameters', par.value, {'dt': 2e-8, 'thr1': 0.2, 'thr2': 0.3, 'status': 'OK'})
    e.eq('saved on request', PupData.restore(os.path.join(d, 'one.fits')).ind_pup, o.outputs['out_pupdata'].ind_pup)
    e.eq('output tag', o.filename, 'mine')
    for k in ('in_dt', 'in_thr1', 'in_thr2'):
        ins[k].value = 'not a number'
        ins[k].generation_time = 40
    src.i = np.zeros((24, 24))
    src.generation_time = 40
    o.integrated_pixels *= 0
    step(o, 40, hold=False)
    e.eq('wrong values are ignored', {k: par.value[k] for k in ('dt', 'thr1', 'thr2')}, {'dt': 2e-8, 'thr1': 0.2, 'thr2': 0.3})
    e.ensure('failure signalled', par.value['status'] != 'OK')
    e.eq('the pupils are not refreshed', o.outputs['out_pupdata'].generation_time, 20)
    o.save_on_exit = True
    o.finalize()
    e.ensure('saved under the new tag', os.path.exists(os.path.join(d, 'mine.fits')))


@harness('C23', funcs=DD, trials=80)
def dark_frame(e):
    """Any mix of frames and commands: every frame is published minus the current dark frame, which
    becomes the mean of the frames acquired after the last trigger once all of them have arrived."""
    ny, nx = e.dim('ny', 1), e.dim('nx', 1)
    nf, plan = e.choice('case', [
        (2, ['T', '', '', 'R', '']), (1, ['', 'T', 'T', '', '']), (3, ['T', 'n', '', '', '']), (2, ['nT', '', '', '', '']),
        (2, ['T', 'T', '', '', '']), (3, ['T', '-', '', '', '']), (2, ['T', '', 'T-', '', ''])])
    o = DynamicDarkCalibrator(e.tmpfile('calib'), nframes=nf)
    px = Pixels(2, 2)
    px.pixels = e.np.zeros((ny, nx))
    ins = {k: BaseValue(value=1) for k in ('in_trigger', 'in_nframes', 'in_reset')}
    wire(o, in_pixels=px, **ins)
    o.setup()
    dark, left, total, acq, stamp = e.np.zeros((ny, nx)), 0, 0.0, nf, -1
    e.eq('size', o.outputs['out_darkframe'].pixels.shape, (ny, nx))
    for k, what in enumerate(plan):
        t = k + 1
        if '-' not in what:
            px.pixels = e.array(f'frame{k}', (ny, nx))
            px.generation_time = t
        else:
            ins['in_nframes'].value = nf         # a command alone: the block is triggered without a new frame
            ins['in_nframes'].generation_time = t
        if 'T' in what:
            ins['in_trigger'].generation_time = t
            left, total, acq = nf, 0.0, nf
        if 'R' in what:
            ins['in_reset'].generation_time = t
            dark = e.np.zeros((ny, nx))
        if 'n' in what:
            nf = 5
            ins['in_nframes'].value = e.choice('new number', [5, '5', 5.0])
            ins['in_nframes'].generation_time = t
        step(o, t, hold=False)
        e.eq('frame minus dark', o.outputs['out_subtracted_pixels'].pixels, px.pixels - dark)
        e.eq('time stamp', o.outputs['out_subtracted_pixels'].generation_time, t)
        if left and '-' not in what:
            total = total + px.pixels
            left -= 1
            if left == 0:
                dark, stamp = total / acq, t
        e.eq('dark frame', o.outputs['out_darkframe'].pixels, dark)
        e.eq('time stamp of the dark frame', o.outputs['out_darkframe'].generation_time, stamp)
        e.eq('number of frames', o.nframes, nf)


@harness('C23', funcs=DD, trials=20)
def dark_files(e):
    """The dark frame is saved and loaded on request; wrong requests leave everything as it was."""
    d = e.tmpfile('calib')
    o = DynamicDarkCalibrator(d, nframes=1, overwrite=True)
    px = Pixels(3, 2)
    ins = {k: request(v) for k, v in dict(in_trigger=1, in_nframes=1, in_load='one', in_save='one').items()}
    wire(o, in_pixels=px, **ins)
    o.setup()
    a, b = e.array('a', (2, 3)), e.array('b', (2, 3))
    dark = o.outputs['out_darkframe']

    def go(t, frame, *names):
        px.pixels, px.generation_time = frame, t
        for n in names:
            ins[n].generation_time = t
        step(o, t, hold=False)
    go(1, a, 'in_trigger', 'in_save')
    e.eq('saved', Pixels.restore(os.path.join(d, 'one.fits')).pixels, a)
    go(2, b, 'in_trigger')
    e.eq('dark frame', dark.pixels, b)
    go(3, b, 'in_load')
    e.eq('loaded', dark.pixels, a)
    e.eq('frame minus loaded dark', o.outputs['out_subtracted_pixels'].pixels, np.array(b) - a)
    e.eq('time stamp', dark.generation_time, 3)
    ins['in_load'].value, ins['in_nframes'].value = 'missing', e.choice('wrong', ['many', 0, -3, None])
    go(4, b, 'in_load', 'in_nframes')
    e.eq('wrong requests are ignored', (o.nframes, dark.generation_time), (1, 3))
    e.eq('dark frame kept', dark.pixels, a)
