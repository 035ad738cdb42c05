"""C05: parameter files: connection grammar, and how several files and overrides combine."""
from copy import deepcopy
import yaml
from pvc.api import harness
from specula.simul import Simul
from specula.lib.utils import camelcase_to_snakecase, remove_suffix, flatten

SI = 'simul.py:Simul.'


def sim(**k):
    return Simul('none.yml', **k)


@harness('C05', funcs=[SI + 'split_output', SI + 'output_owner', SI + 'output_key', SI + 'output_delay'], trials=300)
def connection_grammar(e):
    """[input-]object[.output][:delay], every part decoded, for arbitrary names and delays."""
    o, k, i = e.text('obj'), e.text('key'), e.text('inp')
    has_key, has_in, has_delay = e.flag('has_key'), e.flag('has_in'), e.flag('has_delay')
    d = e.int('delay', -1000, 0)
    s = o
    if has_key:
        s = e.cat(s, '.', k)
    if has_in:
        s = e.cat(i, '-', s)
    if has_delay:
        s = e.cat(s, ':', e.int_text(d))
    m = sim()
    r = m.split_output(s)
    e.eq('object', r.obj_name, o)
    e.ensure('output', r.output_key == k if has_key else r.output_key is None)
    e.ensure('input alias', r.input_name == i if has_in else r.input_name is None)
    e.eq('delay', r.delay, d if has_delay else 0)
    e.ensure('no reference unless requested', r.ref is None)
    e.eq('owner', m.output_owner(s), o)
    e.ensure('key', m.output_key(s) == k if has_key else m.output_key(s) is None)
    e.eq('delay of the connection', m.output_delay(s), d if has_delay else 0)


class Dummy:
    def __init__(self):
        self.outputs = {'y': object(), 'z': object()}
        self.local_inputs = {'x': object(), 'z': object()}


@harness('C05', funcs=[SI + 'split_output', SI + 'output_ref', SI + 'input_ref'], trials=40)
def connection_refs(e):
    m = sim()
    a = Dummy()
    m.objs = {'a': a}
    m.remote_objs_ranks = {'far': 3}
    pre, post = e.choice('pre', ['', 'in-']), e.choice('post', ['', ':-1', ':0'])
    e.ensure('an output', m.output_ref(pre + 'a.y' + post) is a.outputs['y'])
    e.ensure('an output with the name of an input', m.output_ref(pre + 'a.z' + post) is a.outputs['z'])
    e.ensure('an input with the name of an output', m.input_ref(pre + 'a.z' + post) is a.local_inputs['z'])
    e.ensure('an input', m.input_ref(pre + 'a.x' + post) is a.local_inputs['x'])
    e.ensure('the object itself', m.output_ref(pre + 'a' + post) is a)
    e.ensure('a remote object has no local reference', m.output_ref(pre + 'far.q' + post) is None)
    e.raises('unknown object', ValueError, m.output_ref, pre + 'b.y' + post)
    e.raises('unknown output', ValueError, m.output_ref, pre + 'a.x' + post)
    e.raises('unknown input', ValueError, m.input_ref, pre + 'a.y' + post)


def owner(s):
    return s.split(':')[0].split('-')[-1].split('.')[0]


def base():
    return {'main': {'class': 'SimulParams', 'pixel_pupil': 10},
            'src': {'class': 'Source', 'v': 1},
            'dm': {'class': 'DM', 'n': 2, 'inputs': {'cmd': 'rec.out'}},
            'rec': {'class': 'Modalrec', 'inputs': {'a': 'dm.out:-1', 'l': ['src.out', 'dm.out', 'x-src.o2:-1']}},
            'dm2': {'class': 'DM', 'inputs': {'cmd': 'dm.out', 'b': ['dm.out'], 'c': 'src.dm'}}}


@harness('C05', funcs=[SI + 'combine_params'], mode='bounded', trials=200)
def combine_add_and_override(e):
    """New objects are added, *_override updates only the named keys, *_<n> entries act only in simulation n."""
    idx = e.choice('simul_idx', [0, 1, 2, 10])
    sfx = e.choice('suffix', ['', '_0', '_1', '_2', '_10'])
    kind = e.choice('kind', ['new', 'override', 'clash', 'missing', 'digits'])
    active = sfx == '' or int(sfx[1:]) == idx
    m = sim(simul_idx=idx)
    p = base()
    ref = base()
    name = {'new': 'extra', 'override': 'dm_override', 'clash': 'src', 'missing': 'nothere_override', 'digits': 'lgs1'}[kind] + sfx
    vals = {'n': 7, 'extra': [1, 2]}
    add = {name: vals}
    if active and kind == 'clash':
        e.raises('adding an existing name is an error', ValueError, m.combine_params, p, add)
        e.ensure('and leaves the object alone', p['src'] == ref['src'])
        return
    if active and kind == 'missing':
        e.raises('overriding an unknown name is an error', ValueError, m.combine_params, p, add)
        return
    m.combine_params(p, add)
    if active:
        if kind == 'new':
            ref['extra'] = vals
        elif kind == 'digits':
            ref['lgs1'] = vals
        else:
            ref['dm'] = {'class': 'DM', 'n': 7, 'extra': [1, 2], 'inputs': {'cmd': 'rec.out'}}
    e.ensure('exactly the requested change', p == ref)


@harness('C05', funcs=[SI + 'combine_params', SI + 'remove_inputs'], mode='bounded', trials=100)
def combine_remove(e):
    """Removing objects removes them and every connection to them, nothing else."""
    which = e.choice('which', [['dm'], ['src'], ['rec'], ['dm', 'src'], ['dm2'], ['src', 'rec']])
    idx = e.choice('simul_idx', [0, 3])
    sfx = e.choice('suffix', ['', '_3'])
    m = sim(simul_idx=idx)
    p = base()
    m.combine_params(p, {'remove' + sfx: list(which), 'added': {'class': 'Q'}})
    ref = base()
    ref['added'] = {'class': 'Q'}
    if not sfx or idx == 3:
        for w in which:
            del ref[w]
        for o in ref.values():
            for k, v in list(o.get('inputs', {}).items()):
                if isinstance(v, list):
                    o['inputs'][k] = [x for x in v if owner(x) not in which]
                elif owner(v) in which:
                    del o['inputs'][k]
    e.ensure('objects and their connections are removed', p == ref)
    e.raises('removing an unknown object is an error', ValueError, m.combine_params, p, {'remove': ['never']})


@harness('C05', funcs=[SI + 'remove_inputs'], mode='test', trials=150)
def remove_random(e):
    """Random dictionaries: exactly the connections owned by the removed object disappear."""
    names = ['a', 'b', 'ab', 'b_a', 'a1']
    p = {}
    for n in names:
        ins = {}
        for j in range(int(e.int(f'k_{n}', 0, 4))):
            def one(t):
                o = names[int(e.int(f'{t}o', 0, 4))]
                return e.choice(f'{t}f', ['%s.out', '%s.out:-1', 'al-%s.q', '%s', 'a-%s.a:-1', '%s.a']) % o
            if e.flag(f'{n}_{j}_list'):
                ins[f'i{j}'] = [one(f'{n}_{j}_{q}') for q in range(int(e.int(f'{n}_{j}_n', 0, 3)))]
            else:
                ins[f'i{j}'] = one(f'{n}_{j}_')
        p[n] = {'class': 'C', 'inputs': ins} if e.flag(f'has_{n}') else {'class': 'C'}
    rem = names[int(e.int('rem', 0, 4))]
    ref = deepcopy(p)

    for o in ref.values():
        for k, v in list(o.get('inputs', {}).items()):
            if isinstance(v, list):
                o['inputs'][k] = [x for x in v if owner(x) != rem]
            elif owner(v) == rem:
                del o['inputs'][k]
    m = sim()
    got = m.remove_inputs(p, rem)
    e.ensure('exactly the connections of the removed object disappear', got == ref)


@harness('C05', funcs=[SI + 'apply_overrides'], mode='test', trials=60)
def command_line_overrides(e):
    v = e.choice('v', [3, 2.5, 'txt', [1, 2], None, True])
    key = e.choice('key', ['dm.n', 'dm.newpar', 'dm.inputs.cmd', 'src.v'])
    m = sim(overrides=yaml.dump({key: v}))
    p, ref = base(), base()
    m.apply_overrides(p)
    parts = key.split('.')
    t = ref
    for x in parts[:-1]:
        t = t[x]
    t[parts[-1]] = v
    e.ensure('only the addressed value changes', p == ref)
    bad = e.choice('bad', ['dm', 'a.b.c.d'])
    m = sim(overrides=yaml.dump({bad: 1}))
    e.raises('a malformed override is an error', ValueError, m.apply_overrides, p)
    m = sim()
    m.apply_overrides(p)
    e.ensure('no overrides: unchanged', p == ref)


@harness('C05', funcs=[SI + 'iterate_inputs'], trials=20)
def input_iteration(e):
    m = sim()
    a, b, c = e.text('a'), e.text('b'), e.text('c')
    e.ensure('no inputs', list(m.iterate_inputs({'class': 'X'})) == [])
    e.ensure('values and lists, in order', list(m.iterate_inputs({'inputs': {'p': a, 'q': [b, c], 'r': []}})) == [('p', a), ('q', b), ('q', c)])
    e.ensure('input lists', list(m.iterate_inputs({'inputs': {'input_list': [c, a]}})) == [('input_list', c), ('input_list', a)])


@harness('C05', funcs=['lib/utils.py:camelcase_to_snakecase', 'lib/utils.py:remove_suffix', 'lib/utils.py:flatten'], mode='test', trials=40)
def name_helpers(e):
    for k, v in {'CCD': 'ccd', 'M2C': 'm2c', 'DM': 'dm', 'ModulatedPyramid': 'modulated_pyramid', 'IFunc': 'ifunc',
                 'BaseValue': 'base_value', 'DataStore': 'data_store', 'ShSlopec': 'sh_slopec', 'PSF': 'psf'}.items():
        e.eq('module of a class', camelcase_to_snakecase(k), v)
    a = e.text('a')
    for s in ('_ref', '_data', '_object', '_list_ref'):
        e.eq('suffix removed', remove_suffix(a + s, s), a)
        e.eq('other suffix kept', remove_suffix(a + 'q', s), a + 'q')
    e.ensure('flatten', list(flatten([1, [2, [3, []]], (4,), 5])) in ([1, 2, 3, 4, 5], [1, 2, 3, (4,), 5]))
