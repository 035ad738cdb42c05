SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


S = 'specula/'
PO = S + 'processing_objects/'
DO = S + 'data_objects/'

seed('c01-t0', 'C01', [(S + 'loop_control.py', 'while self.run_time < 0 or self.t < self.t0 + self.run_time:',
                        'while self.run_time < 0 or self.t < self.run_time:')],
     '''
from specula.loop_control import LoopControl
from specula.base_processing_obj import BaseProcessingObj
times = []
class B(BaseProcessingObj):
    def trigger_code(self):
        times.append(self.current_time)
for t0 in (0, 0.5):
    times.clear()
    loop = LoopControl()
    loop.add(B(), 0)
    loop.run(run_time=1.0, dt=0.25, t0=t0)
    assert times == [int((t0 + 0.25 * i) * 1e9) for i in range(4)], times
''', 'a run that does not start at time zero', 'the run stops at T instead of t0+T: instants are missing')

seed('c02-list', 'C02', [(S + 'simul.py', 'maxdelay = max([self.output_delay(x) for x in output_name])',
                          'maxdelay = self.output_delay(output_name[0])')],
     '''
from specula.simul import Simul
s = Simul('x.yml')
p = {'a': {'class': 'A', 'inputs': {'in_x': 'b.out'}, 'outputs': ['out']},
     'b': {'class': 'B', 'outputs': ['out']},
     'c': {'class': 'C', 'inputs': {'in_list': ['d.out:-1', 'a.out']}, 'outputs': ['out']},
     'd': {'class': 'D', 'inputs': {'in_x': 'c.out'}, 'outputs': ['out']}}
order, idx = s.build_trigger_order(p)
where = dict(zip(order, idx))
assert where['b'] < where['a'] < where['c'] < where['d'], where
''', 'a list input whose first member is delayed and another one is not',
     'the block is placed before the producer of the current member and uses stale data')

seed('c04-flatlist', 'C04', [(S + 'connections.py',
                              '            for v in item:\n                self.append(v, remote_rank, tag)\n            return\n',
                              '            for v in sorted(set(item), key=item.index):\n                self.append(v, remote_rank, tag)\n            return\n')],
     '''
from specula.base_value import BaseValue
from specula.connections import InputList
a, b = BaseValue(value=1), BaseValue(value=2)
i = InputList(type=BaseValue)
i.set([a, b, a])
assert i.get(-1) == [a, b, a]
''', 'the same object connected twice to one list input', 'one of the connections is lost')

seed('c06-override-tag', 'C06', [(S + 'simul.py',
      "                    for output in objlist:\n                        owner = self.output_owner(output)\n"
      "                        if owner not in build_order:\n                            add_to_build_order(owner)\n",
      "                    for output in objlist:\n                        owner = self.output_owner(output)\n"
      "                        if owner not in build_order and list(params).index(owner) > list(params).index(key):\n"
      "                            add_to_build_order(owner)\n")],
     '''
from specula.simul import Simul
s = Simul('x.yml')
p = {'main': {'class': 'SimulParams'}, 'b': {'class': 'B', 'c_ref': 'c'},  'a': {'class': 'A'}, 'c': {'class': 'C', 'a_ref': 'd'},
     'd': {'class': 'D', 'b_ref': 'e'}, 'e': {'class': 'E', 'c_ref': 'a'}}
o = s.build_order(p)
for k, v in p.items():
    for n, r in v.items():
        if n.endswith('_ref'):
            assert o.index(r) < o.index(k), o
''', 'a chain of references in which a later object refers back to one that precedes it in the file but is not built yet',
     'an object is built before one it refers to')

seed('c07-chunk', 'C07', [(PO + 'data_buffer.py', "self.storage[k][self.step_counter] = v.copy()",
                           "self.storage[k][self.step_counter] = v.copy() if self.step_counter else v")],
     '''
from specula.processing_objects.data_buffer import DataBuffer
from specula.connections import InputValue
from specula.base_value import BaseValue
d = DataBuffer(buffer_size=3)
v = BaseValue(value=np.zeros(2))
d.inputs['x'] = InputValue(type=BaseValue)
d.inputs['x'].set(v)
d.setOutputs()
d.setup()
for t in range(1, 4):
    v.value[:] = t
    v.generation_time = t
    d.check_ready(t); d.trigger(); d.post_trigger()
assert np.all(d.outputs['x_buffered'].value == np.array([[1, 1], [2, 2], [3, 3]])), d.outputs['x_buffered'].value
''', 'a producer that updates its output in place', 'the first sample of a block changes after it was recorded')



seed('c14-max-inplace', 'C14', [(PO + 'base_operation.py', "self.xp.maximum(value1,self.constant_max)", "self.xp.maximum(value1,self.constant_max,out=value1)")],
     '''
from specula.processing_objects.base_operation import BaseOperation
from specula.base_value import BaseValue
o = BaseOperation(constant_max=1.0)
v = BaseValue(value=np.array([0., 2.]))
o.inputs['in_value1'].set(v)
o.setup()
v.generation_time = 1
o.check_ready(1); o.trigger(); o.post_trigger()
assert np.all(o.outputs['out_value'].value == [1, 2])
assert np.all(v.value == [0, 2]), v.value
''', 'another block reading the same vector after this one', 'the input vector is modified in place')

seed('c03-listmiddle', 'C03', [(S + 'base_processing_obj.py',
                              '            tt_list = [x.generation_time for x in input_obj if x is not None]\n',
                              '            tt_list = [x.generation_time for x in input_obj if x is not None]\n'
                              '            tt_list = tt_list[:1] + tt_list[-1:]\n')],
     '''
from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue
from specula.connections import InputList
class B(BaseProcessingObj):
    def __init__(self):
        super().__init__()
        self.inputs['b'] = InputList(type=BaseValue)
b = B()
vs = [BaseValue(value=float(i)) for i in range(3)]
b.inputs['b'].set(vs)
b.setup()
for i in range(3):
    vs[i].generation_time = 3 + i
    assert b.check_ready(3 + i), i
''', 'a list input of three members of which only the middle one is new',
     'the block does not compute although a new value reached it')

seed('c05-prefix', 'C05', [(S + 'simul.py',
      "                        owner = self.output_owner(output_name)\n                        if owner == obj_to_remove:\n"
      "                            del obj_inputs_copy[input_name]",
      "                        owner = self.output_owner(output_name)\n                        if owner[:len(obj_to_remove)] == obj_to_remove:\n"
      "                            del obj_inputs_copy[input_name]")],
     '''
from specula.simul import Simul
s = Simul('x.yml')
p = {'main': {'class': 'SimulParams'}, 'a': {'class': 'A', 'outputs': ['out']}, 'a1': {'class': 'B', 'outputs': ['out']},
     'c': {'class': 'C', 'inputs': {'x': 'a.out', 'y': 'a1.out'}}}
s.combine_params(p, {'remove': ['a']})
assert p['c']['inputs'] == {'y': 'a1.out'}, p
''', 'removing a block whose name is a prefix of another block\'s name', 'connections of the other block are removed too')

FILT = '''
from specula.base_value import BaseValue
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.iir_filter_data import IirFilterData
def step(o, t):
    if o.check_ready(t):
        o.trigger()
        o.post_trigger()
def drive(o, xs, t0=1):
    v = BaseValue(value=np.array(xs[0], float))
    o.inputs['delta_comm'].set(v)
    o.setup()
    out = []
    for i, x in enumerate(xs):
        v.value = np.array(x, float)
        v.generation_time = t0 + i
        step(o, t0 + i)
        out.append(np.array(o.outputs['out_comm'].value))
    return np.array(out)
'''

seed('c08-denrow', 'C08', [(PO + 'iir_filter.py', 'factor = 1 / self.iir_filter_data.den[:, no - 1]',
                            'factor = 1 / self.iir_filter_data.den[0, no - 1]')],
     FILT + '''
from specula.processing_objects.iir_filter import IirFilter
d = IirFilterData([2, 2], [2, 2], np.array([[0., 1.], [0., 1.]]), np.array([[-1., 1.], [-1., 2.]]))
y = drive(IirFilter(SimulParams(time_step=0.001), d), [[1., 1.], [0., 0.]])
assert np.allclose(y, [[1, 0.5], [1, 0.25]]), y
''', 'several filters in one block whose highest denominator coefficients differ', 'all filters are normalised as the first one')

seed('c08-ssrdelay', 'C08', [(PO + 'base_filter.py', 'remainder_delay * self.output_buffer[:, delay_idx] +',
                              'remainder_delay * self.output_buffer[:, min(delay_idx, 2)] +')],
     FILT + '''
from specula.processing_objects.iir_filter import IirFilter
d = IirFilterData([1], [1], np.array([[1.]]), np.array([[1.]]))
y = drive(IirFilter(SimulParams(time_step=0.001), d, delay=3.25), [[v] for v in (1., 2., 4., 8., 16., 32.)])
assert np.allclose(y[:, 0], [0, 0, 0, 0.75, 0.25 + 1.5, 0.5 + 3]), y
''', 'a fractional delay above three frames and a changing input', 'the late part of the interpolation comes from a too recent sample')

seed('c08-reset', 'C08', [(PO + 'iir_filter.py', '        super().reset_states()\n        self._ist[:] = 0\n',
                           '        super().reset_states()\n        self._ist[:, -1] = 0\n')],
     FILT + '''
from specula.processing_objects.iir_filter import IirFilter
num, den = np.array([[1., 1., 1.]]), np.array([[0., 0., 1.]])
o = IirFilter(SimulParams(time_step=0.001), IirFilterData([3], [3], num, den))
drive(o, [[5.], [7.], [11.]])
o.reset_states()
y = drive(o, [[1.], [0.]], t0=10)
assert np.allclose(y[:, 0], [1, 1]), y
''', 'a reset after several steps of a filter with three or more input taps', 'old inputs survive the reset')

seed('c09-ff', 'C09', [(DO + 'iir_filter_data.py', '            ff = np.full(n, ff)\n', '            ff = np.full(n, np.ravel(ff)[-1])\n'),
                       (DO + 'iir_filter_data.py', '        elif len(ff) != n:\n', '        elif len(ff) < n or len(set(map(float, gain))) == 1:\n')],
     '''
from specula.data_objects.iir_filter_data import IirFilterData
f = IirFilterData.from_gain_and_ff([0.5, 0.5], ff=[0.9, 0.99])
assert np.allclose(f.den[:, 0], [-0.9, -0.99]), f.den
''', 'equal gains with different forgetting factors', 'all modes get the last forgetting factor')

seed('c09-plant', 'C09', [(DO + 'iir_filter_data.py', '        rtf_num = Cp_den\n', '        rtf_num = np.convolve(c_den, p_den)[:max_len] if len(p_den) < 2 else np.pad(c_den, (0, max_len - len(c_den)), mode=\'constant\')\n')],
     '''
from specula.data_objects.iir_filter_data import IirFilterData
f = IirFilterData.from_gain_and_ff([0.5])
freq = np.array([10., 50., 200.])
dm, nw, dw = np.array([0., 1.]), np.array([1., 0.]), np.array([0.5, 1.])
r = f.RTF(0, 1000., freq=freq, dm=dm, nw=nw, dw=dw, plot=False)
n = f.NTF(0, 1000., freq=freq, dm=dm, nw=nw, dw=dw, plot=False)
z = np.exp(2j * np.pi * freq / 1000)
ev = lambda c: sum(x * z ** k for k, x in enumerate(c))
c_num, c_den, p_den = [0., 0.5], [-1., 1.], np.convolve(dm, dw)
cn, cd = np.convolve(c_num, np.pad(nw, (0, len(p_den) - len(nw)))), np.convolve(c_den, p_den)
m = max(len(cn), len(cd))
cn, cd = np.pad(cn, (0, m - len(cn))), np.pad(cd, (0, m - len(cd)))
assert np.allclose(r, abs(ev(cd) / ev(cd + cn))), (r, abs(ev(cd) / ev(cd + cn)))
''', 'a plant with a denominator of its own', 'the plant denominator is missing in the numerator of the rejection')

seed('c11-flatmask', 'C11', [(PO + 'phase_flattening.py', 'mean_phase = self.xp.mean(phase[valid_mask])',
                              'mean_phase = self.xp.sum(phase * self._out_ef.A) / self.xp.sum(self._out_ef.A)')],
     '''
from specula.data_objects.electric_field import ElectricField
from specula.processing_objects.phase_flattening import PhaseFlattening
f = ElectricField(2, 2, 0.1)
f.A[:] = [[1, 1], [0.5, 0]]
f.phaseInNm[:] = [[10, 20], [90, 7]]
f.generation_time = 1
o = PhaseFlattening()
o.inputs['in_ef'].set(f)
o.setup(); o.check_ready(1); o.trigger(); o.post_trigger()
assert np.allclose(o.outputs['out_ef'].phaseInNm, [[-30, -20], [50, 7]]), o.outputs['out_ef'].phaseInNm
''', 'an amplitude that is not uniform inside the pupil', 'the mean is weighted with the amplitude and not the mean over the lit pixels')

seed('c12-intmat', 'C12', [(DO + 'slopes.py', '            slopes = Slopes(length=length, interleave=interleave, target_device_idx=target_device_idx)\n        else:',
                            '            slopes = Slopes(length=length, interleave=interleave and length % 4 == 0, target_device_idx=target_device_idx)\n        else:')],
     '''
import tempfile
from specula.data_objects.slopes import Slopes
with tempfile.TemporaryDirectory() as d:
    for n in (8, 6):
        s = Slopes(slopes=np.arange(float(n)), interleave=True)
        s.save(d + '/s.fits')
        r = Slopes.restore(d + '/s.fits')
        assert np.allclose(r.xslopes, s.xslopes), (r.xslopes, s.xslopes)
''', 'interleaved slopes of particular lengths', 'x and y slopes are exchanged after restoring')

seed('c13-rotate', 'C13', [(DO + 'slopes.py', '        self.xslopes = self.xp.cos(alpha) * modulus * signx\n        self.yslopes = self.xp.sin(alpha) * modulus * signy\n',
                            '        self.xslopes = self.xp.cos(alpha * signx) * modulus * signx\n        self.yslopes = self.xp.sin(alpha * signx) * modulus * signy\n')],
     '''
from specula.data_objects.slopes import Slopes
x, y = np.array([1., 2., -1.]), np.array([0.5, -3., 2.])
s = Slopes(slopes=np.concatenate([x, y]))
a = np.radians(30)
s.rotate(30, flipx=True)
assert np.allclose(s.xslopes, -(x * np.cos(a) - y * np.sin(a)))
assert np.allclose(s.yslopes, x * np.sin(a) + y * np.cos(a)), s.yslopes
''', 'rotation combined with a flip of x', 'y slopes change sign as well')

seed('c13-build', 'C13', [(DO + 'intmat.py', '            mode = np.where(amp)[0][0]\n', '            mode = np.where(amp > 0)[0][0] if np.any(amp > 0) else int(np.argmin(np.abs(amp)))\n')],
     '''
from specula.data_objects.intmat import Intmat
s = {1: np.array([2., 4.]), 2: np.array([-3., -6.])}
d = {1: np.array([1., 0.]), 2: np.array([0., -3.])}
m = Intmat.build_from_slopes(s, d)
assert np.allclose(m.intmat, [[2, 1], [4, 2]]), m.intmat
''', 'push-pull measurements: a negative amplitude', 'negative pokes are assigned to a mode that was not moved')

seed('c15-analysis', 'C15', [(PO + 'modal_analysis.py', '                ph = current_ef.phaseInNm[self.phase2modes.idx_inf_func]\n',
                              '                ph = (current_ef if li < 2 else ef_list[1]).phaseInNm[self.phase2modes.idx_inf_func]\n')] if False else
     [(PO + 'modal_analysis.py', '            output_list[li].value[:] = m\n            output_list[li].generation_time = self.current_time\n',
       '            if current_ef.generation_time != self.current_time:\n                continue\n            output_list[li].value[:] = m if li == 0 else output_list[li - 1].value * 0 + m * (current_ef.S0 != 0)\n            output_list[li].generation_time = self.current_time\n')],
     '''
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.ifunc_inv import IFuncInv
from specula.processing_objects.modal_analysis import ModalAnalysis
fs = []
for k in range(3):
    f = ElectricField(2, 2, 0.1, S0=float(k % 2 == 0))
    f.phaseInNm[:] = k + np.arange(4).reshape(2, 2)
    f.generation_time = 1
    fs.append(f)
o = ModalAnalysis(ifunc_inv=IFuncInv(np.eye(4), np.ones((2, 2))), n_inputs=3)
o.inputs['in_ef_list'].set(fs)
o.setup(); o.check_ready(1); o.trigger(); o.post_trigger()
for k in range(3):
    assert np.allclose(o.outputs['out_modes_list'][k].value, k + np.arange(4)), k
''', 'a list of fields one of which has no flux', 'its modes are zero')

seed('c15-multi', 'C15', [(PO + 'modalrec_multirate.py', '                # Sensor is inactive, output M zeros\n                self.out_modes_list[i].value[:] = 0\n',
                            '                # Sensor is inactive, output M zeros\n                if i > 0 or not validity[-1]:\n                    self.out_modes_list[i].value[:] = 0\n')],
     '''
from specula.data_objects.slopes import Slopes
from specula.data_objects.recmat import Recmat
from specula.processing_objects.modalrec_multirate import ModalrecMultirate
m = np.ones((2, 4))
o = ModalrecMultirate([Recmat(m), Recmat(m), Recmat(m)], [[True, False], [False, True], [True, True]], 2)
a, b = Slopes(slopes=np.array([1., 2.])), Slopes(slopes=np.array([3., 4.]))
o.inputs['in_slopes_list'].set([a, b])
o.setup()
for t, (x, y) in enumerate([(1, 0), (0, 1)], 1):
    if x: a.generation_time = t
    if y: b.generation_time = t
    o.check_ready(t); o.trigger(); o.post_trigger()
    assert np.allclose(o.outputs['out_modes_0'].value, 3 * x), t
    assert np.allclose(o.outputs['out_modes_1'].value, 7 * y), t
''', 'a step where the first sensor has no new slopes and the last one has', 'the first output keeps its previous modes instead of zero')

seed('c12-lens', 'C12', [(DO + 'lenslet.py', None, None)], '', '', '') if False else None

seed('c16-stale', 'C16', [(PO + 'dm.py', '            cmd = self.m2c[:, self._valid_modes] @ self.m2c_commands\n',
                           '            cmd = self.m2c[:, self._valid_modes][:, :len(input_commands)] @ self.m2c_commands[:self.n_valid_modes][:len(input_commands)] if len(input_commands) > 1 else self.m2c[:, :1] @ self.m2c_commands[:1]\n')],
     '''
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.ifunc import IFunc
from specula.data_objects.m2c import M2C
from specula.base_value import BaseValue
from specula.processing_objects.dm import DM
F = np.arange(1, 13).reshape(3, 4) * 1.0
M = np.array([[1., 2, 3], [0, 1, 5], [2, 0, 7]])
dm = DM(SimulParams(pixel_pupil=2, pixel_pitch=0.1), 0.0, ifunc=IFunc(F, mask=np.ones((2, 2))), m2c=M2C(M), start_mode=2)
v = BaseValue(value=np.array([1.0]))
v.generation_time = 1
dm.inputs['in_command'].set(v)
dm.setup()
dm.check_ready(1)
dm.prepare_trigger(1)
dm.trigger()
dm.post_trigger()
want = -(M[:, 2] @ F)
assert np.allclose(dm.outputs['out_layer'].phaseInNm.ravel(), want), (dm.outputs['out_layer'].phaseInNm, want)
''', 'a modal mirror with a first mode and a single command', 'the command is applied to mode zero of the matrix')

CCD_RUN = '''
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.intensity import Intensity
from specula.processing_objects.ccd import CCD
def run(ccd, frames, dt_ms=1):
    """Pixels after each step."""
    out = []
    i = Intensity(*frames[0].shape[::-1])
    ccd.inputs['in_i'].set(i)
    ccd.setup()
    for k, f in enumerate(frames):
        t = k * dt_ms * 10**6
        i.i[:] = f
        i.generation_time = t
        ccd.check_ready(t)
        ccd.prepare_trigger(t)
        ccd.trigger()
        ccd.post_trigger()
        out.append((ccd.outputs['out_pixels'].generation_time, ccd.outputs['out_pixels'].pixels.copy()))
    return out
'''

seed('c17-start', 'C17', [(PO + 'ccd.py', 'if (self.current_time + self.loop_dt - self.dt - self.start_time) % self.dt == 0:',
                           'if (self.current_time + self.loop_dt - self.dt) % self.dt == 0:')],
     CCD_RUN + '''
o = CCD(SimulParams(time_step=0.001), [2, 2], 0.002, 1000.0, start_time=0.001)
r = run(o, [np.full((2, 2), x) for x in (1.0, 2.0, 4.0, 8.0, 16.0)])
assert [t for t, _ in r][2] == 2 * 10**6, r
assert np.allclose(r[2][1], 6.0) and np.allclose(r[4][1], 24.0), r
''', 'an exposure of several steps with a start time that is not a multiple of it', 'the exposures end at the wrong step and the first is too short')

seed('c17-gain', 'C17', [(PO + 'ccd.py', """        if self._pixelGains is not None:
            pixels *= self._pixelGains

        if self._photon_noise:
            pixels[:]""", """        if self._pixelGains is not None and not self._excess_noise:
            pixels *= self._pixelGains

        if self._photon_noise:
            pixels[:]"""),
                         (PO + 'ccd.py', """                pixels /= self._emccd_gain
""", """                pixels /= self._emccd_gain
                if self._pixelGains is not None:
                    pixels *= self._pixelGains
""")],
     CCD_RUN + '''
g = np.array([[0.5, 1.0], [1.5, 2.0]])
k = dict(photon_noise=True, excess_noise=True)
a = run(CCD(SimulParams(time_step=0.001), [2, 2], 0.001, 1000.0, pixelGains=g, **k), [np.full((2, 2), 30.0)])[0][1]
x = np.random.default_rng(1).poisson(np.full((2, 2), 30.0)) * 1.0
x = np.random.default_rng(3).gamma(shape=x, scale=400.0)
want = (np.maximum(np.round(x * g / 20) + 400, 0) - 400) * 20 / 400
assert np.allclose(a, want), (a, want)
''', 'pixel gains together with multiplication and photon noise', 'the gain is applied after the conversion to counts')

seed('c21-clamp', 'C21', [(S + 'lib/interp2d.py', 'yy[np.where(yy > input_shape[0] - 1)] = input_shape[0] - 1',
                           'yy[np.where(yy > input_shape[0] - 1)] = input_shape[0] - 1 - (rowShiftInPixels > 1.5)')],
     '''
from specula.lib.interp2d import Interp2D
a = np.arange(20.0).reshape(5, 4)
yy, xx = np.mgrid[0:5, 0:4] * 1.0
o = Interp2D((5, 4), (5, 4), rowShiftInPixels=2.0, yy=yy, xx=xx, dtype=np.float64)
want = a[np.minimum(np.arange(5) + 2, 4)]
assert np.allclose(o.interpolate(a), want), o.interpolate(a)
''', 'a shift that pushes rows more than 1.5 pixels beyond the end', 'rows beyond the end take the last but one row')

seed('c21-lcm', 'C21', [(S + 'lib/toccd.py', '    temp = rebin2d(temp, (newshape[0], mcmy), sample=True, xp=xp)\n',
                         '    temp = rebin2d(temp, (newshape[0], mcmy), sample=True, xp=xp)\n    if mcmy > 2 * mcmx:\n        temp = xp.roll(temp, 1, axis=1)\n')],
     '''
from specula.lib.toccd import toccd
a = np.arange(1.0, 13.0).reshape(2, 6)
r = toccd(a, (2, 4), xp=np)
w = np.zeros((4, 6))
for i in range(4):
    for k in range(6):
        w[i, k] = max(0, min((i + 1) * 6, (k + 1) * 4) - max(i * 6, k * 4))
o = a @ w.T
assert np.allclose(r, o / o.sum() * a.sum()), r
''', 'columns resampled by a larger common multiple than rows', 'columns are displaced')


SLOPES = '''
import specula; specula.init(-1, precision=0)
import numpy as np
from specula.data_objects.pixels import Pixels
from specula.data_objects.slopes import Slopes
from specula.data_objects.pupdata import PupData
from specula.data_objects.subap_data import SubapData
from specula.processing_objects.pyr_slopec import PyrSlopec
from specula.processing_objects.sh_slopec import ShSlopec
def run(o, frames, dt=1):
    p = Pixels(frames[0].shape[1], frames[0].shape[0])
    o.inputs['in_pixels'].set(p)
    out = []
    for k, f in enumerate(frames):
        p.pixels[:] = f
        p.generation_time = (k + 1) * dt
        if k == 0:
            o.setup()
        o.check_ready((k + 1) * dt); o.trigger(); o.post_trigger()
        out.append(np.array(o.outputs['out_slopes'].slopes))
    return out
'''
seed('c18-filter', 'C18', [(PO + 'slopec.py', """            m = self.xp.dot(self.slopes.slopes, self.recmat.recmat)
""", """            m = self.xp.dot(self.recmat.recmat, self.slopes.slopes)
""")], SLOPES + '''
from specula.data_objects.recmat import Recmat
sub = SubapData(idxs=np.arange(8).reshape(2, 4), display_map=np.arange(2), nx=2, ny=1)
R = np.arange(16.0).reshape(4, 4)
f = np.arange(1.0, 9).reshape(4, 2)
a = run(ShSlopec(sub), [f])[0]
o = ShSlopec(sub); o.recmat = Recmat(R)
assert np.allclose(run(o, [f])[0], a @ R)
''', 'a slope matrix that is not symmetric', 'the transposed matrix is applied')
seed('c18-negpix', 'C18', [(PO + 'pyr_slopec.py', """        clamp_generic_less(0,0,self.flat_pixels, xp=self.xp)
""", """        if self.threshold:
            clamp_generic_less(0,0,self.flat_pixels, xp=self.xp)
""")], SLOPES + '''
pup = PupData(ind_pup=np.array([[0, 3, 8, 11], [1, 2, 9, 10]]), framesize=[4, 4])
f = np.arange(1.0, 17).reshape(4, 4)
g = f.copy(); f[0, 1] = -6; g[0, 1] = 0
assert np.allclose(run(PyrSlopec(pup), [f])[0], run(PyrSlopec(pup), [g])[0])
''', 'a frame with negative pixels (read-out noise) and no threshold', 'negative pixels enter slopes and flux')
seed('c18-period', 'C18', [(PO + 'slopec.py', "            self.do_reset_accumulation = True\n\n    def trigger_code", "            self.do_reset_accumulation = t <= self.weight_int_pixel_dt\n\n    def trigger_code")],
     SLOPES + '''
sub = SubapData(idxs=np.arange(4).reshape(1, 4), display_map=np.arange(1), nx=1, ny=1)
fr = [np.array(v, float) for v in ([[9, 1], [1, 1]], [[9, 1], [1, 1]], [[1, 9], [1, 1]], [[1, 9], [1, 1]], [[1, 1], [9, 1]], [[1, 1], [9, 1]])]
o = ShSlopec(sub, weight_int_pixel_dt=2)
run(o, fr, 10**9)
assert np.allclose(np.ravel(o.int_pixels_weight), [0, 0, 1, 0]), o.int_pixels_weight
''', 'weights learned from the frames, third period or later', 'the weights mix earlier periods')

ATMO = '''
import tempfile, numpy as np
import specula
specula.init(-1, precision=0)
from specula.base_value import BaseValue
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.source import Source
from specula.data_objects.layer import Layer
from specula.processing_objects.atmo_evolution import AtmoEvolution
from specula.processing_objects.atmo_infinite_evolution import AtmoInfiniteEvolution
from specula.processing_objects.atmo_propagation import AtmoPropagation
def val(v):
    return BaseValue(value=np.array(v, float))
def go(o, t, ins):
    for v in ins:
        v.generation_time = t
    o.check_ready(t); o.prepare_trigger(t); o.trigger(); o.post_trigger()
'''
seed('c19-cycle', 'C19', [(PO + 'atmo_evolution.py', '                new_position + extra_offset + self.pixel_layer >= self.phasescreens_sizes_array,',
                           '                new_position + self.pixel_layer >= self.phasescreens_sizes_array,')],
     ATMO + '''
with tempfile.TemporaryDirectory() as d:
    o = AtmoEvolution(SimulParams(pixel_pupil=4, pixel_pitch=0.5), L0=[10.0], heights=[0.0], Cn2=[1.0], pixel_phasescreens=16, data_dir=d,
                      seed=1, extra_delta_time=2.0)
    ins = [val([1.0]), val([0.5]), val([0.0])]
    for k, v in zip(('seeing', 'wind_speed', 'wind_direction'), ins):
        o.inputs[k].set(v)
    o.setup()
    for k in range(1, 14):
        go(o, k * 10**9, ins)
        assert o.outputs['layer_list'][0].phaseInNm.std() > 0
''', 'a time offset and a run long enough to reach the end of the screen', 'the layer is read beyond the end of the screen instead of starting again')
seed('c19-cone', 'C19', [(PO + 'atmo_propagation.py', 'pixel_position = (sky_pixel_position - pupil_pixel_position) * layer.height / source.height + pupil_pixel_position',
                          'pixel_position = sky_pixel_position * layer.height / source.height + pupil_pixel_position')],
     ATMO + '''
n, m, pitch, H, h = 4, 40, 0.5, 1000.0, 500.0
l = Layer(m, m, pitch, h)
l.A[:] = 1
l.phaseInNm[:] = np.arange(m)[None, :]
s = Source([0.0, 0.0], 5, 600, height=H)
o = AtmoPropagation(SimulParams(pixel_pupil=n, pixel_pitch=pitch), {'s': s}, pupil_position=[4.0, 0.0])
o.inputs['atmo_layer_list'].set([l])
o.inputs['common_layer_list'].set([])
o.setup()
go(o, 10**9, [l])
got = o.outputs['out_s_ef'].phaseInNm.mean()
assert abs(got - ((m - 1) / 2 + 8.0 * (1 - h / H))) < 1e-3, got
''', 'a source at finite height and a pupil away from the axis', 'the beam does not converge to the source')
seed('c19-carry', 'C19', [(PO + 'atmo_infinite_evolution.py', '            acc_cols[ii] = frac_cols\n', '            acc_cols[ii] = frac_cols if cols_to_add == 0 else 0.0\n')],
     ATMO + '''
np.random.seed(0)
def make():
    o = AtmoInfiniteEvolution(SimulParams(pixel_pupil=8, pixel_pitch=0.5), L0=[10.0], heights=[0.0], Cn2=[1.0], seed=1)
    ins = [val([1.0]), val([0.75]), val([90.0])]
    for k, v in zip(('seeing', 'wind_speed', 'wind_direction'), ins):
        o.inputs[k].set(v)
    o.setup()
    return o, ins
a, ia = make()
b, ib = make()
for k in (1, 2):
    go(a, k * 10**9, ia)         # 1.5 pixels at a time
go(b, 2 * 10**9, ib)             # 3 pixels
x, y = a.outputs['layer_list'][0].phaseInNm, b.outputs['layer_list'][0].phaseInNm
assert np.allclose(x, y, atol=1e-6), abs(x - y).max()
''', 'wind along the columns with more than one pixel and a fraction per step', 'the fraction of a pixel left over is forgotten')

IMG = '''
import numpy as np
import specula
specula.init(-1, precision=0)
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.electric_field import ElectricField
from specula.processing_objects.psf import PSF
from specula.processing_objects.psf_coronagraph import PsfCoronagraph
from specula.processing_objects.four_quadrant_coronagraph import FourQuadrantCoronagraph
def go(o, f, t):
    f.generation_time = t
    o.check_ready(t); o.trigger(); o.post_trigger()
f = ElectricField(8, 8, 0.1)
f.generation_time = 10**9
'''
seed('c20-start', 'C20', [(PO + 'psf_coronagraph.py', '        if self.current_time_seconds >= self.start_time:', '        if self.current_time_seconds > self.start_time:')],
     IMG + '''
o = PsfCoronagraph(SimulParams(pixel_pupil=8, pixel_pitch=0.1), 500.0, nd=2.0, start_time=2.0, verbose=False)
o.inputs['in_ef'].set(f)
o.setup()
out = []
for k in (1, 2, 3):
    f.phaseInNm[:] = 100 * k * np.random.default_rng(k).normal(size=(8, 8))
    go(o, f, k * 10**9)
    out.append(o.outputs['out_coronagraph_psf'].value.copy())
o.finalize()
assert np.allclose(o.outputs['out_int_coronagraph_psf'].value, (out[1] + out[2]) / 2)
''', 'an exposure which starts at one of the steps', 'the first coronagraphic image is not in the average, which is divided by all')
seed('c20-ref', 'C20', [(PO + 'psf.py', '                                     complex_dtype=self.complex_dtype)\n            self.first = False\n', '                                     complex_dtype=self.complex_dtype)\n            self.first = self.count == 0\n')],
     IMG + '''
o = PSF(SimulParams(pixel_pupil=8, pixel_pitch=0.1), 500.0, nd=2.0, verbose=False)
o.inputs['in_ef'].set(f)
o.setup()
go(o, f, 10**9)
peak = o.outputs['out_psf'].value[8, 8]
f.A[:, :4] = 0.2
go(o, f, 2 * 10**9)
assert np.isclose(o.outputs['out_sr'].value, 1.0 * o.outputs['out_psf'].value[8, 8] / peak), o.outputs['out_sr'].value
''', 'an amplitude which changes during the run', 'the reference of the Strehl ratio follows the second field')
seed('c20-grey', 'C20', [(PO + 'psf_coronagraph.py', '        pupil_mask = amp > 0\n', '        pupil_mask = amp > 0.5 * amp.max()\n')],
     IMG + """
f.A[:, :3] = 0.4
o = PsfCoronagraph(SimulParams(pixel_pupil=8, pixel_pitch=0.1), 500.0, nd=2.0, verbose=False)
o.inputs['in_ef'].set(f)
o.setup()
go(o, f, 10**9)
u = f.A - f.A.mean()
z = np.zeros((16, 16))
z[:8, :8] = u
w = abs(np.fft.fftshift(np.fft.fft2(z)))**2
z[:8, :8] = f.A
w /= (abs(np.fft.fft2(z))**2).sum()
assert np.allclose(o.outputs['out_coronagraph_psf'].value, w, atol=1e-9)
""", 'a pupil with grey pixels', 'grey pixels are not part of the pupil')

seed('c22-vib', 'C22', [(PO + 'vibration_generator.py', 'complex_dtype, seed=seed + i)', 'complex_dtype, seed=seed + i // 2)')],
     '''
import numpy as np
import specula
specula.init(-1, precision=0)
from specula.data_objects.simul_params import SimulParams
from specula.processing_objects.vibration_generator import VibrationGenerator
p = SimulParams(pixel_pupil=4, pixel_pitch=1.0, total_time=0.02, time_step=0.001)
v = VibrationGenerator(p, 2, np.ones((2, 5)), np.linspace(50, 500, 5))
assert not np.allclose(v.time_hist[:, 0], v.time_hist[:, 1])
''', 'more than one mode with the same spectrum', 'pairs of modes get the same random sequence')
seed('c22-degree', 'C22', [(S + 'lib/modal_pushpull_signal.py', 'xp.arange(first_mode, n_modes) + 2])', 'xp.arange(n_modes - first_mode) + 2])')],
     '''
import numpy as np
from specula.lib.modal_pushpull_signal import modal_pushpull_signal
a = modal_pushpull_signal(6, first_mode=3, amplitude=10.0)
b = modal_pushpull_signal(6, amplitude=10.0)
assert np.allclose(a, b[6:]), a
''', 'default amplitudes with a first mode after the tilts', 'amplitudes start again from those of the first radial order')
seed('c22-order', 'C22', [(PO + 'random_generator.py', '            j = i + 1\n', '            j = i + 1 - forced_zero\n')],
     '''
import numpy as np
import specula
specula.init(-1, precision=0)
from specula.processing_objects.random_generator import RandomGenerator
a = RandomGenerator._generate_scaled_amps(10.0, 10, 2, 'INVERSE')
b = RandomGenerator._generate_scaled_amps(10.0, 10, 0, 'INVERSE')
assert np.isclose(a[6] / a[2], b[6] / b[2]), (a, b)
''', 'modes forced to zero with an amplitude law', 'the radial order is counted from the first mode which is not forced to zero')
seed('c23-thresh', 'C23', [(PO + 'sh_subap_calibrator.py', '                if spot_intensity[i, j] > energy_th * self.xp.max(spot_intensity):', '                if spot_intensity[i, j] > energy_th * self.xp.max(spot_intensity[:i + 1]):')],
     '''
import tempfile
import numpy as np
import specula
specula.init(-1, precision=0)
from specula.data_objects.intensity import Intensity
from specula.processing_objects.sh_subap_calibrator import ShSubapCalibrator
with tempfile.TemporaryDirectory() as d:
    o = ShSubapCalibrator(2, d, 0.5, output_tag='s')
    s = Intensity(4, 4)
    s.i[:] = np.kron([[1.0, 1.2], [1.1, 4.0]], np.ones((2, 2)))
    s.generation_time = 1
    o.inputs['in_i'].set(s)
    o.setup()
    o.check_ready(1); o.trigger(); o.post_trigger()
    assert o.subaps.idxs.shape[0] == 1, o.subaps.display_map
''', 'a first row of subapertures fainter than the others', 'the threshold refers to the rows seen so far')

SENS = '''
import numpy as np
import specula
specula.init(-1, precision=0)
from specula.base_value import BaseValue
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.laser_launch_telescope import LaserLaunchTelescope
from specula.lib.make_mask import make_mask
def field(n, pitch=0.05, t=1):
    f = ElectricField(n, n, pitch)
    f.S0 = 10.0
    f.generation_time = t
    return f
def go(o, t=1):
    o.check_ready(t); o.trigger(); o.post_trigger()
'''
seed('c24-laser', 'C24', [(PO + 'sh.py', '                first = i * self._lenslet.dimy\n                last = (i + 1) * self._lenslet.dimy\n',
                           '                first = (i - self.subap_rows_slice.start) * self._lenslet.dimy\n                last = first + self._lenslet.dimy\n')],
     SENS + '''
from specula.processing_objects.sh import SH
par = SimulParams(pixel_pupil=32, pixel_pitch=0.05)
llt = LaserLaunchTelescope(par, 1.0, [4.0, 2.0, 0.0])
def sensor(**k):
    o = SH(600, 3.0, 0.5, 4, 6, fov_ovs_coeff=1.5, laser_launch_tel=llt, **k)
    f = field(32)
    a, b = BaseValue(), BaseValue()
    a.value, b.value = np.array([85e3, 90e3, 96e3]), np.array([0.2, 0.5, 0.3])
    a.generation_time = b.generation_time = 1
    o.inputs['in_ef'].set(f); o.inputs['sodium_altitude'].set(a); o.inputs['sodium_intensity'].set(b)
    o.setup(); go(o)
    return o.outputs['out_i'].i
a, b = sensor()[12:], sensor(subap_rows_slice=slice(2, 4))[12:]
assert np.allclose(a / a.sum(), b / b.sum()), abs(a / a.sum() - b / b.sum()).max()
''', 'laser guide star and a sensor which works on rows not starting at the first', 'spots take the elongation of other subapertures')
seed('c24-curv', 'C24', [(PO + 'curvature_sensor.py', '            self._out_i2.i *= phot / sum2', '            self._out_i2.i *= phot / sum1')],
     SENS + '''
from specula.processing_objects.curvature_sensor import CurvatureSensor
o = CurvatureSensor(600.0, 1.0, 0.04, 25, 150.0)
f = field(32)
f.A[:] = make_mask(32)
y, x = np.mgrid[:32, :32] - 15.5
f.phaseInNm[:] = 0.6 * (x * x + y * y)
o.inputs['in_ef'].set(f)
o.setup(); go(o)
s = [o.outputs[k].i.sum() for k in ('out_i1', 'out_i2')]
assert np.allclose(s, 10.0 * f.masked_area()), s
''', 'a wavefront with curvature', 'flux of the second image wrong')
seed('c24-grey', 'C24', [(PO + 'ideal_derivative_sensor.py', '        mask = in_ef.A > 0.5', '        mask = in_ef.A > 0')],
     SENS + '''
from specula.data_objects.subap_data import SubapData
from specula.processing_objects.ideal_derivative_sensor import IdealDerivativeSensor
n = 8
f = field(n)
f.phaseInNm[:] = np.arange(n)[None, :] ** 2
f.A[:, 5] = 0.25
o = IdealDerivativeSensor(SimulParams(pixel_pupil=n, pixel_pitch=0.05), SubapData(np.arange(16).reshape(4, 4), np.arange(4), 2, 2), 1.0)
o.inputs['in_ef'].set(f)
o.setup(); go(o)
w = o.ef_interpolator.interpolated_ef().phaseInNm
d = np.gradient(w, axis=1)
lit = f.A > 0.5
want = [d[r:r + 4, c:c + 4][lit[r:r + 4, c:c + 4]].mean() for r in (0, 4) for c in (0, 4)]
assert np.allclose(o.slopes.xslopes / o.slope_factor, want), (o.slopes.xslopes / o.slope_factor, want)
''', 'pupil pixels only partly illuminated', 'pixels outside the pupil enter the mean')
seed('c24-frac', 'C24', [(PO + 'modulated_pyramid.py', '            self.flux_frac_inside_ccd.value[:] = self.xp.sum(self.out_i.i[:])/self.xp.sum(ccd_internal)',
                          '            self.flux_frac_inside_ccd.value[:] = self.xp.sum(self.out_i.i[:])/self.xp.sum(self._pup_pyr_interpolated)*self.transmission.value')],
     SENS + '''
from specula.processing_objects.modulated_pyramid import ModulatedPyramid
f = field(40)
f.A[:] = make_mask(40)
r = []
for out in (60, 28):
    o = ModulatedPyramid(SimulParams(pixel_pupil=40, pixel_pitch=0.05), 600.0, 1.0, 10, out, pup_dist=14, mod_amp=3.0)
    o.inputs['in_ef'].set(f)
    o.setup(); go(o)
    r.append((o.outputs['out_i'].i.sum(), o.outputs['out_flux_frac_inside_detector'].value[0]))
assert np.isclose(r[1][0] / r[0][0], r[1][1], rtol=1e-5), r
''', 'a detector smaller than the image', 'transmission counted twice in the fraction of light on the detector')
