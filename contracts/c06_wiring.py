"""C06: building and wiring a simulation from its description, and deriving replay descriptions."""
from copy import deepcopy
import os
from pvc.api import harness
from specula.simul import Simul
from specula.base_value import BaseValue
from specula.base_processing_obj import BaseProcessingObj
from specula.connections import InputList, InputValue
from specula.data_objects.slopes import Slopes

SI = 'simul.py:Simul.'


def sim(**k):
    return Simul('none.yml', **k)


@harness('C06', funcs=[SI + 'build_order'], mode='bounded', trials=200, heavy=2)
def build_order_three(e):
    """Every acyclic reference graph on four objects: each object once, after everything it refers to."""
    names = ['a', 'b', 'c', 'd']
    perm = e.choice('declaration', [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2]])
    form = e.choice('form', ['_ref', '_list_ref', '_dict_ref', 'separate'])
    refs = {n: [] for n in names}
    for i in range(4):
        for j in range(i):
            if e.flag(f'{i}on{j}'):
                refs[names[i]].append(names[j])
    params = {}
    for k in perm:
        n = names[k]
        p = {'class': 'X', 'q': 3}
        if form == 'separate' or form == '_ref':
            for r in refs[n]:
                p[f'{r}x_ref'] = r if form == 'separate' else r + '.out'
        elif refs[n]:
            p['things' + form] = list(refs[n])
        params[n] = p
    p0 = deepcopy(params)
    order = sim().build_order(params)
    e.ensure('every object exactly once', sorted(order) == names)
    e.ensure('an object is built after everything it refers to',
             all(order.index(r) < order.index(n) for n in names for r in refs[n]))
    e.ensure('parameters untouched', params == p0)


class P(BaseProcessingObj):
    def __init__(self, outs=('o',), ins=(('i', 'value'),), typ=BaseValue):
        super().__init__()
        for o in outs:
            self.outputs[o] = BaseValue(value=1.0)
        for n, k in ins:
            self.inputs[n] = (InputList if k == 'list' else InputValue)(type=typ, optional=True)


@harness('C06', funcs=[SI + 'connect', SI + 'connect_objects', SI + 'split_output'], mode='bounded', trials=60)
def wiring(e):
    """Every declared connection, and only those, ends up on the named input, in order."""
    m = sim()
    a, b = P(outs=('o', 'p')), P(outs=('o',))
    c = P(ins=(('i', 'value'), ('j', 'list'), ('k', 'list')))
    m.objs = {'a': a, 'b': b, 'c': c}
    d = e.choice('delay', ['', ':-1'])
    src = e.choice('src', ['a.o', 'a.p', 'b.o'])
    lst = e.choice('lst', [[], ['a.o'], ['b.o', 'a.p'], ['a.p', 'b.o', 'a.o']])
    ref = {'a.o': a.outputs['o'], 'a.p': a.outputs['p'], 'b.o': b.outputs['o']}
    params = {'a': {'class': 'P', 'outputs': ['o']}, 'b': {'class': 'P'},
              'c': {'class': 'P', 'inputs': {'i': src + d, 'j': [x + d for x in lst]}}}
    m.connect_objects(params)
    e.ensure('single input', c.inputs['i'].get(-1) is ref[src])
    got = c.inputs['j'].get(-1)
    e.ensure('list input', len(got) == len(lst) and all(x is ref[y] for x, y in zip(got, lst)))
    e.ensure('nothing else is connected', c.inputs['k'].get(-1) == [] and a.inputs['i'].get(-1) is None and b.inputs['i'].get(-1) is None)
    e.ensure('connections are recorded', [(x['start'], x['start_label'], x['end'], x['end_label']) for x in m.connections] ==
             [(s.split('.')[0], s.split('.')[1], 'c', n) for n, s in [('i', src)] + [('j', x) for x in lst]])


@harness('C06', funcs=[SI + 'connect', SI + 'connect_objects'], mode='bounded', trials=60)
def wiring_errors(e):
    bad = e.choice('bad', ['input', 'object', 'output', 'declared', 'type', 'dtype'])
    m = sim()
    m.objs = {'a': P(), 'c': P(typ=Slopes) if bad == 'dtype' else P()}
    params = {'a': {'class': 'P'}, 'c': {'class': 'P', 'inputs': {'i': 'a.o'}}}
    if bad == 'input':
        params['c']['inputs'] = {'zzz': 'a.o'}
    elif bad == 'object':
        params['c']['inputs'] = {'i': 'nobody.o'}
    elif bad == 'output':
        params['c']['inputs'] = {'i': 'a.nothing'}
    elif bad == 'declared':
        params['a']['outputs'] = ['o', 'missing']
    elif bad == 'type':
        params['c']['inputs'] = {'i': 3}
    e.raises('a wrong connection is an error, never ignored', ValueError, m.connect_objects, params)


@harness('C06', funcs=[SI + 'create_input_list_inputs', SI + 'connect_objects'], mode='bounded', trials=40)
def input_lists(e):
    """input_list entries become one input per alias, of the type of the source, each wired to its source."""
    from specula.processing_objects.data_buffer import DataBuffer
    m = sim()
    a, b = P(outs=('o', 'p')), P(outs=('o',))
    a.outputs['s'] = Slopes(3)
    buf = DataBuffer(3)
    m.objs = {'a': a, 'b': b, 'buf': buf}
    order = e.choice('order', [[0, 1, 2], [2, 1, 0], [1]])
    ent = [('u', 'a.o', a.outputs['o']), ('v', 'a.s', a.outputs['s']), ('w', 'b.o', b.outputs['o'])]
    ent = [ent[k] for k in order]
    d = e.choice('delay', ['', ':-1'])
    params = {'a': {'class': 'P'}, 'b': {'class': 'P'},
              'buf': {'class': 'DataBuffer', 'inputs': {'input_list': [f'{x}-{y}{d}' for x, y, _ in ent]}}}
    m.create_input_list_inputs(params)
    m.connect_objects(params)
    e.ensure('one input per alias', sorted(buf.inputs) == sorted(x for x, _, _ in ent))
    e.ensure('each wired to its source', all(buf.inputs[x].get(-1) is z for x, _, z in ent))
    e.ensure('one buffered output per alias', sorted(buf.outputs) == sorted(x + '_buffered' for x, _, _ in ent))


def scao():
    return {'main': {'class': 'SimulParams', 'root_dir': '/x', 'time_step': 0.001},
            'atmo': {'class': 'A', 'outputs': ['layers'], 'inputs': {'seeing': 'seeing.output'}},
            'seeing': {'class': 'W'},
            'src': {'class': 'Source'},
            'prop': {'class': 'AtmoPropagation', 'source_dict_ref': ['src'],
                     'inputs': {'atmo_layer_list': 'atmo.layers', 'common_layer_list': ['dm.out_layer:-1', 'x.lay'],
                                'extra': 'dm.flat'}},
            'x': {'class': 'Y', 'ifunc_ref': 'src', 'inputs': {'a': 'seeing.output'}},
            'wfs': {'class': 'WFS', 'inputs': {'in_ef': 'prop.out_ef'}},
            'rec': {'class': 'Modalrec', 'inputs': {'s': 'wfs.out'}},
            'dm': {'class': 'DM', 'inputs': {'cmd': 'rec.out_modes', 'other': 'rec.raw'}},
            'store': {'class': 'DataStore', 'store_dir': '/out', 'inputs': {'input_list': ['comm-rec.out_modes', 'sl-wfs.out']}}}


@harness('C06', funcs=[SI + 'build_replay', SI + 'data_store_to_data_source'], mode='bounded', trials=40)
def replay_whole(e):
    """The stored producers disappear; their consumers read the stored outputs under the stored names."""
    m = sim()
    p = scao()
    p0 = deepcopy(p)
    fmt = e.choice('fmt', [None, 'fits', 'pickle'])
    if fmt:
        p['store']['data_format'] = fmt
        p0['store']['data_format'] = fmt
    what = e.choice('what', [['comm-rec.out_modes', 'sl-wfs.out'], ['comm-rec.out_modes'], ['flat-dm.flat', 'q-seeing.output']])
    p['store']['inputs']['input_list'] = list(what)
    p0['store']['inputs']['input_list'] = list(what)
    r = m.build_replay(p)
    e.ensure('the original description is untouched', p == p0)
    gone = {w.split('-')[1].split('.')[0] for w in what} | {'store'}
    e.ensure('stored producers and the store itself are replaced by one data source',
             set(r) == (set(p) - gone) | {'data_source'})
    ds = r['data_source']
    e.ensure('data source reads what was stored', ds['class'] == 'DataSource' and ds['outputs'] == [w.split('-')[0] for w in what]
             and ds['store_dir'] == '/out' and ds.get('data_format') == fmt)
    mp = {w.split('-')[1]: 'data_source.' + w.split('-')[0] for w in what}
    for k, v in p0.items():
        if k in gone:
            continue
        want = deepcopy(v)
        for i, s in want.get('inputs', {}).items():
            if isinstance(s, str) and s in mp:
                want['inputs'][i] = mp[s]
        e.ensure('consumers are redirected, everything else is unchanged', r[k] == want)


@harness('C06', funcs=[SI + 'build_targeted_replay', SI + 'data_store_to_data_source', SI + 'iterate_inputs'], mode='bounded', trials=40)
def replay_targeted(e):
    """Everything the target needs is present or read from disk; list inputs keep all their members."""
    m = sim()
    p = scao()
    p['store']['inputs']['input_list'] = list(e.choice('what', [['comm-rec.out_modes'], ['sl-wfs.out'], ['l-x.lay', 'comm-rec.out_modes'],
                                                                ['at-atmo.layers', 'comm-rec.out_modes'], ['f-dm.flat', 'comm-rec.out_modes', 'see-seeing.output']]))
    p0 = deepcopy(p)
    target = e.choice('target', ['prop', 'dm', 'wfs'])
    r = m.build_targeted_replay(p, target, set_store_dir='/elsewhere')
    e.ensure('the original description is untouched', p == p0)
    mp = {w.split('-')[1]: 'data_source.' + w.split('-')[0] for w in p['store']['inputs']['input_list']}
    e.ensure('main parameters and target present', r['main'] == p0['main'] and target in r)
    e.ensure('data source', r['data_source'] == {'class': 'DataSource', 'store_dir': '/elsewhere',
                                                  'outputs': [w.split('-')[0] for w in p['store']['inputs']['input_list']]})
    for k, v in r.items():
        if k in ('main', 'data_source'):
            continue
        want = deepcopy(p0[k])
        for i, s in want.get('inputs', {}).items():
            if isinstance(s, list):
                want['inputs'][i] = [mp.get(x, x) for x in s]
            else:
                want['inputs'][i] = mp.get(s, s)
        e.ensure('stored inputs come from disk, all others are kept', v == want)
        for s in v.get('inputs', {}).values():
            for x in (s if isinstance(s, list) else [s]):
                e.ensure('every input has its producer', m.output_owner(x) in r)
        for q in ('source_dict_ref', 'ifunc_ref'):
            for x in ([v[q]] if isinstance(v.get(q), str) else v.get(q, [])):
                e.ensure('every reference has its object', x in r)


# ------------------------------------------------------------------ end to end, on the real classes
YML = """
main:
  class: SimulParams
  root_dir: {root}
  pixel_pupil: 4
  pixel_pitch: 0.1
  total_time: {total}
  time_step: 0.001
gen:
  class: WaveGenerator
  amp: [{a0}, {a1}, 1.5]
  freq: [{f0}, 20, 30]
  constant: [{c0}, 0.0, 1.0]
  outputs: [output]
op:
  class: Integrator
  simul_params_ref: main
  int_gain: [{mul}, {mul}, {mul}]
  inputs:
    delta_comm: gen.output
  outputs: [out_comm]
op2:
  class: BaseOperation
  constant_mul: 2.0
  inputs:
    in_value1: op.out_comm
  outputs: [out_value]
store:
  class: DataStore
  store_dir: {root}/data
  create_tn: false
  data_format: {fmt}
  inputs:
    input_list: ['g-gen.output', 'o-op.out_comm', 'p-op2.out_value']
"""


@harness('C06', funcs=[SI + 'run', SI + 'build_objects'], mode='test', trials=3)
def end_to_end_and_replay(e):
    """A run from a file, then a replay of what it stored: the recomputed values are the recorded ones."""
    import contextlib
    import io
    import shutil
    import numpy as np
    import yaml
    root = e.tmpfile('root')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    n = e.choice('n', [3, 5, 8])
    fmt = e.choice('fmt', ['fits', 'pickle'])
    pr = dict(root=root, total=n * 0.001, a0=e.real('a0', -2, 2), a1=e.real('a1', -2, 2), f0=e.real('f0', 1, 50),
              c0=e.real('c0', -1, 1), mul=e.real('mul', 0.5, 3), fmt=fmt)
    f1 = os.path.join(root, 'p.yml')
    with open(f1, 'w') as fh:
        fh.write(YML.format(**pr))

    def runit(f):
        with contextlib.redirect_stdout(io.StringIO()):
            s = Simul(f)
            s.run()
        return s
    runit(f1)

    def stored(d, k):
        if fmt == 'fits':
            from astropy.io import fits
            with fits.open(os.path.join(d, k + '.fits')) as h:
                return h[0].data.copy(), h[1].data.copy()
        import pickle
        with open(os.path.join(d, k + '.pickle'), 'rb') as fh:
            x = pickle.load(fh)
        return x['data'], x['times']
    d1 = os.path.join(root, 'data')
    ts = np.arange(n) * 0.001
    want = np.array([[pr['a0'] * np.sin(pr['f0'] * 2 * np.pi * t) + pr['c0'], pr['a1'] * np.sin(40 * np.pi * t),
                      1.5 * np.sin(60 * np.pi * t) + 1] for t in ts])
    for k, w in (('g', want), ('o', np.cumsum(want, axis=0) * pr['mul']), ('p', np.cumsum(want, axis=0) * pr['mul'] * 2)):
        v, t = stored(d1, k)
        e.eq('every instant is recorded once', t.astype(int), (np.arange(n) * 1000000))
        e.eq('recorded values', v, w, tol=1e-6)
    # replay: only gen is read back; op, op2 are recomputed from it
    p = yaml.safe_load(open(f1))
    p['store']['inputs']['input_list'] = ['g-gen.output']
    r = Simul(f1).build_replay(p)
    r['store2'] = {'class': 'DataStore', 'store_dir': os.path.join(root, 'again'), 'create_tn': False, 'data_format': fmt,
                   'inputs': {'input_list': ['p-op2.out_value', 'g-data_source.g']}}
    f2 = os.path.join(root, 'r.yml')
    with open(f2, 'w') as fh:
        yaml.dump(r, fh, sort_keys=False)
    runit(f2)
    for k in ('p', 'g'):
        v, t = stored(os.path.join(root, 'again'), k)
        v0, t0 = stored(d1, k)
        e.eq('replayed instants', t.astype(int), t0.astype(int))
        e.eq('replayed values', v, v0, tol=1e-6)
    shutil.rmtree(root, ignore_errors=True)


@harness('C06', funcs=[SI + 'build_objects'], mode='test', trials=8)
def build_parameters(e):
    """Parameters reach the constructors by name and suffix; unknown ones are errors."""
    import contextlib
    import io
    import numpy as np
    bad = e.choice('bad', ['', 'unknown', 'noclass', 'nosuchclass', 'tagextra'])
    m = sim()
    p = {'main': {'class': 'SimulParams', 'root_dir': '/x', 'pixel_pupil': 4, 'pixel_pitch': 0.1, 'total_time': 1, 'time_step': 0.1},
         'gate': {'class': 'Integrator', 'simul_params_ref': 'main', 'int_gain': [0.5, 0.25], 'delay': 1, 'inputs': {'x': 'y'}}}
    if bad == 'unknown':
        p['gate']['zork'] = 1
    elif bad == 'noclass':
        del p['gate']['class']
    elif bad == 'nosuchclass':
        p['gate']['class'] = 'NoSuchThing'
    elif bad == 'tagextra':
        p['s'] = {'class': 'Slopes', 'tag': 'abc', 'length': 3}
    with contextlib.redirect_stdout(io.StringIO()):
        if bad:
            if bad == 'noclass':
                e.raises('an error', KeyError, lambda: m.setSimulParams(p))
            else:
                e.raises('a wrong description is an error', (ValueError, ImportError, KeyError), m.build_objects, p)
            return
        m.build_objects(p)
    e.ensure('one object per entry', sorted(m.objs) == ['gate', 'main'])
    e.ensure('named after its entry', m.objs['gate'].name == 'gate')
    e.ensure('reference resolved', m.objs['gate'].time_step == m.objs['main'].time_step == 0.1)
    e.eq('values passed', np.asarray(m.objs['gate'].delay), 1)
