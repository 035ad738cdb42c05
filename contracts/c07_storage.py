"""C07: recorded data are complete, unaltered and correctly time-stamped; replay gives them back at the same instants."""
import os
from pvc.api import harness
from contracts.common import val, step
from specula.base_value import BaseValue
from specula.connections import InputValue
from specula.processing_objects.data_store import DataStore
from specula.processing_objects.data_source import DataSource
from specula.processing_objects.data_buffer import DataBuffer
from specula.data_objects.slopes import Slopes
from specula.data_objects.electric_field import ElectricField

DS = 'processing_objects/data_store.py:DataStore.'
SR = 'processing_objects/data_source.py:DataSource.'
DB = 'processing_objects/data_buffer.py:DataBuffer.'


def feed(o, **ins):
    for k, v in ins.items():
        o.inputs[k] = InputValue(type=type(v))
        o.inputs[k].set(v)


@harness('C07', funcs=[DS + 'trigger_code', DS + '_should_store_input'], trials=100)
def store_samples(e):
    """Two inputs refreshed at arbitrary subsets of the instants, global or per-input downsampling, a start time."""
    n = e.dim('n')
    every = e.choice('every', [1, 2, 3])
    per = e.flag('per_input')
    start = e.choice('start', [0, 2])
    st = DataStore('/nowhere', start_time=start * 1e-9, **({'downsample_factor_by_input': {'a': every}} if per else {'downsample_factor': every}))
    va, vb = BaseValue(value=e.array('init', n)), BaseValue(value=e.array('initb', 2))
    feed(st, a=va, b=vb)
    st.setup()
    exp = {'a': [], 'b': []}
    cnt = {'a': 0, 'b': 0}
    for t in range(5):
        for nm, v, size in (('a', va, n), ('b', vb, 2)):
            fresh = e.flag(f'fresh_{nm}{t}') if nm == 'a' else (t % 2 == 0)
            if fresh:
                x = e.array(f'{nm}{t}', size)
                v.value[...] = x
                v.generation_time = t
                if t >= start:
                    ev = every if (not per or nm == 'a') else 1
                    if cnt[nm] % ev == 0:
                        exp[nm].append((t, e.snap(x)))
                    cnt[nm] += 1
        step(st, t)
    for nm in 'ab':
        got = st.storage.get(nm, {})
        e.ensure(f'{nm}: the instants of its own refreshes, one every N', list(got.keys()) == [t for t, _ in exp[nm]])
        for (t, x), g in zip(exp[nm], got.values()):
            e.eq(f'{nm}: the value it had at that instant', g, x)


@harness('C07', funcs=[DS + '_should_store_input', DS + '_validate_downsample_factor'], trials=60)
def downsampling_counter(e):
    """From an arbitrary number c of samples already received: the next one is kept exactly when c is a multiple of N."""
    N = e.int('N', 1, 1000)
    c = e.int('c', 0)
    t = e.int('t', 0)
    per = e.flag('per_input')
    st = DataStore('/nowhere', **({'downsample_factor_by_input': {'k': N}} if per else {'downsample_factor': N}))
    e.setattr(st, 'current_time', t)
    st.input_sample_counters['k'] = c
    r = st._should_store_input('k')
    e.ensure('kept exactly one every N', e.And(e.implies(r, c % N == 0), e.implies(c % N == 0, r)))
    e.eq('counted', st.input_sample_counters['k'], c + 1)
    r2 = st._should_store_input('k')
    e.ensure('asking again at the same instant does not count a new sample', e.And(e.implies(r, r2), e.implies(r2, r)))
    e.setattr(st, 'current_time', t + e.int('dt', 1))
    r3 = st._should_store_input('k')
    e.ensure('the following sample counts', e.And(e.implies(r3, (c + 1) % N == 0), e.implies((c + 1) % N == 0, r3)))


@harness('C07', funcs=[DS + '__init__', DS + '_validate_downsample_factor', DS + 'setup'], trials=10)
def store_errors(e):
    e.raises('zero factor', ValueError, DataStore, '/nowhere', downsample_factor=0)
    e.raises('negative factor', ValueError, DataStore, '/nowhere', downsample_factor_by_input={'a': -1})
    e.raises('both kinds', ValueError, DataStore, '/nowhere', downsample_factor=2, downsample_factor_by_input={'a': 2})
    st = DataStore('/nowhere', data_format='zip')

    class Odd(BaseValue):
        pass
    st2 = DataStore('/nowhere')
    v = BaseValue(value=1.0)
    feed(st2, a=v)
    st2.setup()
    e.ensure('storable accepted', True)


@harness('C07', funcs=[DS + 'trigger_code'], trials=40)
def split_chunks(e):
    """With split_size = s, each chunk holds exactly s consecutive recorded steps, nothing lost between chunks."""
    n = e.dim('n')
    s = e.choice('split', [1, 2, 3])
    first = e.choice('first', [0, 5])
    chunks = []

    class D(DataStore):
        def create_TN_folder(self, suffix=''):
            self.sfx = suffix

        def save(self):
            chunks.append((self.sfx, {k: list(v.items()) for k, v in self.storage.items()}))
    st = D('/nowhere', split_size=s, first_suffix=first)
    v = BaseValue(value=e.array('init', n))
    feed(st, a=v)
    st.setup()
    xs = []
    for t in range(6):
        x = e.array(f'x{t}', n)
        v.value[...] = x
        v.generation_time = t
        xs.append(e.snap(x))
        step(st, t)
    e.ensure('one chunk every s steps', len(chunks) == 6 // s)
    for c, (sfx, d) in enumerate(chunks):
        e.eq('chunk name', sfx, f'_{c * s + first}')
        e.ensure('consecutive instants', [t for t, _ in d.get('a', [])] == list(range(c * s, c * s + s)))
        for t, y in d.get('a', []):
            e.eq('values of the chunk', y, xs[t])


@harness('C07', funcs=[DB + 'trigger_code', DB + 'emit_buffered_data', DB + 'reset_buffers', DB + 'finalize', DB + 'setOutputs'], trials=60)
def buffer_blocks(e):
    """Every sample comes out once, in order, in blocks of N steps; the rest at the end of the run."""
    n = e.dim('n')
    N = e.choice('N', [1, 2, 3, 4])
    b = DataBuffer(buffer_size=N)
    v, w = BaseValue(value=e.array('init', n)), BaseValue(value=e.array('initw', 2))
    feed(b, a=v, w=w)
    b.setOutputs()
    b.setup()
    out, outw = b.outputs['a_buffered'], b.outputs['w_buffered']
    xs, ws = [], []
    blocks = []
    for t in range(5):
        x = e.array(f'x{t}', n)
        v.value[...] = x
        v.generation_time = t
        xs.append(e.snap(x))
        if t % 2 == 0:
            w.value[...] = e.array(f'w{t}', 2)
            w.generation_time = t
            ws.append((t, e.snap(w.value)))
        step(b, t)
        full = (t + 1) % N == 0
        e.ensure('a block is published exactly every N steps', (out.generation_time == t) == full)
        if full:
            e.eq('block of the last N samples, in order', out.value, e.np.stack(xs[t + 1 - N:]))
            ww = [y for tt, y in ws if tt > t - N]
            e.ensure('an input without samples in the block is not refreshed', (outw.generation_time == t) == (len(ww) > 0))
            if ww:
                e.eq('only the samples that were refreshed', outw.value, e.np.stack(ww))
    b.finalize()
    rest = 5 % N
    if rest:
        e.eq('the remaining samples at the end', out.value, e.np.stack(xs[5 - rest:]))


@harness('C07', funcs=[SR + '__init__', SR + 'trigger_code', SR + 'load_fits', DS + 'save_fits', DS + 'finalize', DS + 'save_pickle', SR + 'load_pickle',
                       DS + 'update_header_with_storage_metadata'],
         mode='test', trials=25)
def record_and_replay(e):
    """Files written by a store and read by a source: same values at the same instants, nothing at the others."""
    import shutil
    import numpy as np
    d = e.tmpfile('store')
    shutil.rmtree(d, ignore_errors=True)
    fmt = e.choice('fmt', ['fits', 'pickle'])
    single = e.flag('single_precision')
    n = e.dim('n', 1, 5)
    kind = e.choice('kind', ['vector', 'slopes', 'matrix', 'scalar', 'ef'])
    every = e.choice('every', [1, 1, 2, 3])
    st = DataStore(d, data_format=fmt, create_tn=False, downsample_factor=every)
    if single:
        st.precision = 1
        st.dtype = np.float32
    st.setParams({'a': 1})

    def mk(x):
        if kind == 'slopes':
            return Slopes(slopes=np.array(x))
        if kind == 'ef':
            return ElectricField(n, n + 1, 0.1)
        return BaseValue(value=x)
    shape = {'vector': (n,), 'slopes': (2 * n,), 'matrix': (n, n + 1), 'scalar': (), 'ef': (2, n + 1, n)}[kind]

    def arr(t):
        return float(e.real(f'x{t}', -5, 5)) if kind == 'scalar' else e.array(f'x{t}', shape)
    v = mk(arr('i'))
    feed(st, q=v)
    st.setup()
    t0, dt = e.int('t0', 0, 10**6), e.int('dt', 1, 10**8 + 7)
    steps = e.choice('steps', [1, 2, 3, 6])
    hist = {}
    cnt = 0
    for k in range(steps):
        t = t0 + k * dt
        if e.flag(f'fresh{k}') or k == 0:
            x = arr(k)
            v.set_value(x)
            v.generation_time = t
            if cnt % every == 0:
                hist[t] = np.array(x)
            cnt += 1
        step(st, t)
    st.finalize()
    src = DataSource(outputs=['q'], store_dir=d, data_format=fmt)
    src.setup()
    o = src.outputs['q']
    e.ensure('an object of the recorded kind', type(o) is type(v))
    last = None
    for k in range(steps + 1):
        t = t0 + k * dt
        step(src, t)
        if t in hist:
            e.ensure('refreshed at a recorded instant', o.generation_time == t)
            e.eq('with the recorded value', np.asarray(o.get_value()).reshape(shape), hist[t], tol=1e-6 if single else 1e-12)
        else:
            e.ensure('not refreshed at any other instant', o.generation_time != t)
    shutil.rmtree(d, ignore_errors=True)


@harness('C07', funcs=[SR + 'trigger_code'], trials=40)
def source_step(e):
    """The source outputs exactly the sample stored for the current instant."""
    n = e.dim('n')
    class S(DataSource):
        def loadFromFile(self, name):
            self.headers[name] = {'OBJ_TYPE': 'BaseValue'}
            self.obj_type[name] = 'BaseValue'
            self.storage[name] = dict(samples[name])
    samples = {'q': {t: e.array(f'q{t}', n) for t in (3, 5)}, 'r': {5: e.array('r5', 2)}}
    s = S(outputs=['q', 'r'], store_dir='/nowhere')
    for t in (2, 3, 4, 5, 6):
        step(s, t)
        for k in 'qr':
            o = s.outputs[k]
            if t in samples[k]:
                e.eq(f'{k}: refreshed', o.generation_time, t)
                e.eq(f'{k}: value', o.value, samples[k][t])
            else:
                e.ensure(f'{k}: not refreshed', o.generation_time < t)
    e.eq('stored data unchanged', s.storage['q'][3], samples['q'][3])
    o = s.outputs['q']
    o.value[0] = 1234.0
    e.eq('outputs are copies of the stored data', s.storage['q'][5], samples['q'][5])
