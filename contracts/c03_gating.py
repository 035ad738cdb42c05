"""C03: a block computes exactly when something new reached it; wiring mistakes are errors."""
from pvc.api import harness
from contracts.common import step
from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
from specula.base_value import BaseValue
from specula.data_objects.slopes import Slopes
from specula.connections import InputList, InputValue

BP = 'base_processing_obj.py:BaseProcessingObj.'


class Blk(BaseProcessingObj):
    def __init__(self, inputs=()):
        super().__init__()
        self.outputs['out'] = BaseValue(value=0)
        self.log = []
        for name, kind, optional in inputs:
            self.inputs[name] = (InputList if kind == 'list' else InputValue)(type=BaseValue, optional=optional)

    def prepare_trigger(self, t):
        super().prepare_trigger(t)
        self.log.append(('prepare', t, self.current_time, dict(self.local_inputs)))

    def trigger_code(self):
        self.log.append(('compute', self.current_time))


@harness('C03', funcs=[BP + 'check_ready', BP + 'checkInputTimes', BP + 'get_all_inputs', BP + 'trigger', BP + 'post_trigger'],
         trials=200)
def gating_two_inputs(e):
    """One or two connected inputs with arbitrary refresh times."""
    t = e.int('t', 0, 10**15)
    g1 = e.int('g1', -1)
    g2 = e.int('g2', -1)
    has1, has2 = e.flag('first_connected'), e.flag('second_connected')
    b = Blk([('a', 'value', True), ('b', 'value', True)])
    v1, v2 = BaseValue(value=1.0), BaseValue(value=2.0)
    v1.generation_time, v2.generation_time = g1, g2
    if has1:
        b.inputs['a'].set(v1)
    if has2:
        b.inputs['b'].set(v2)
    fresh = e.Or(e.And(has1, g1 >= t), e.And(has2, g2 >= t), not has1 and not has2)
    r = b.check_ready(t)
    e.eq('current time', b.current_time, t)
    e.ensure('ready exactly when an input was refreshed or nothing is connected', e.And(e.implies(r, fresh), e.implies(fresh, r)))
    if e.case(fresh):
        e.ensure('prepared once, at this instant', len(b.log) == 1 and b.log[0][0] == 'prepare')
        e.eq('prepare gets the instant', b.log[0][1], t)
        e.ensure('with the connected objects', b.log[0][3].get('a') is (v1 if has1 else None) and b.log[0][3].get('b') is (v2 if has2 else None))
        b.trigger()
        e.ensure('computed once', [x[0] for x in b.log] == ['prepare', 'compute'])
        b.post_trigger()
        e.raises('a second publication without new inputs is an error', RuntimeError, b.post_trigger)
        e.raises('a second computation without new inputs is an error', RuntimeError, b.trigger)
        e.ensure('still computed once', len(b.log) == 2)
        # the next instant, nothing refreshed since
        t2 = t + e.int('dt', 1)
        fresh2 = e.Or(e.And(has1, g1 >= t2), e.And(has2, g2 >= t2), not has1 and not has2)
        r2 = b.check_ready(t2)
        e.ensure('an old refresh does not trigger again', e.And(e.implies(r2, fresh2), e.implies(fresh2, r2)))
    else:
        e.ensure('not prepared', b.log == [])
        e.raises('computing without new inputs is an error', RuntimeError, b.trigger)
        e.raises('publishing without new inputs is an error', RuntimeError, b.post_trigger)
        e.ensure('never computed', b.log == [])


@harness('C03', funcs=[BP + 'checkInputTimes'], trials=100)
def gating_list(e):
    """An input list counts as refreshed when any of its members is."""
    t = e.int('t', 0, 10**15)
    n = e.choice('n', [0, 1, 2, 3])
    b = Blk([('l', 'list', e.flag('optional'))])
    gs = []
    for i in range(n):
        v = BaseValue(value=1.0)
        v.generation_time = e.int(f'g{i}', -1)
        gs.append(v.generation_time)
        b.inputs['l'].append(v)
    fresh = e.Or(*[g >= t for g in gs]) if gs else False
    r = b.check_ready(t)
    e.ensure('ready exactly when some member was refreshed', e.And(e.implies(r, fresh), e.implies(fresh, r)))


@harness('C03', funcs=[BP + 'checkInputTimes'], trials=60)
def gating_mixed(e):
    """A list and a value together; the value declared first or last."""
    t = e.int('t', 0, 10**15)
    specs = [('l', 'list', False), ('v', 'value', False)]
    b = Blk(specs[::-1] if e.flag('value_first') else specs)
    v = [BaseValue(value=1.0) for _ in range(3)]
    g = [e.int(f'g{i}', -1) for i in range(3)]
    for x, y in zip(v, g):
        x.generation_time = y
    b.inputs['l'].set([v[0], v[1]])
    b.inputs['v'].set(v[2])
    b.setup()
    fresh = e.Or(*[x >= t for x in g])
    r = b.check_ready(t)
    e.ensure('ready exactly when any input was refreshed', e.And(e.implies(r, fresh), e.implies(fresh, r)))


@harness('C03', funcs=[BP + 'check_ready', BP + 'checkInputTimes'], trials=20)
def gating_none(e):
    t = e.int('t', 0, 10**15)
    b = Blk([])
    e.ensure('a block with no inputs runs at every instant', step(b, t) is True and step(b, t + 1) is True)
    e.ensure('computing at every instant', [x[0] for x in b.log] == ['prepare', 'compute'] * 2)
    e.eq('seconds of the instant', b.current_time_seconds * 1000000000, t + 1)


@harness('C03', funcs=[BP + 'get_all_inputs'], trials=20)
def inputs_are_live(e):
    """Each step reads the object currently connected, in its current state."""
    n = e.dim('n')
    a0, a1 = e.array('a0', n), e.array('a1', n)
    b = Blk([('a', 'value', False)])
    v = BaseValue(value=a0)
    v.generation_time = 1
    b.inputs['a'].set(v)
    b.setup()
    step(b, 1)
    e.eq('first contents', b.local_inputs['a'].value, a0)
    v.value = a1
    v.generation_time = 2
    step(b, 2)
    e.eq('new contents', b.local_inputs['a'].value, a1)
    w = BaseValue(value=a0)
    w.generation_time = 3
    b.inputs['a'].set(w)
    e.ensure('triggers on the new source', step(b, 3) is True)
    e.ensure('reads the new source', b.local_inputs['a'] is w)


@harness('C03', funcs=[BP + 'setup', BP + 'get_all_inputs'], trials=40)
def setup_checks_inputs(e):
    opt1, opt2 = e.flag('opt1'), e.flag('opt2')
    con1, con2 = e.flag('con1'), e.flag('con2')
    b = Blk([('a', 'value', opt1), ('b', 'value', opt2)])
    if con1:
        b.inputs['a'].set(BaseValue(value=1.0))
    if con2:
        b.inputs['b'].set(BaseValue(value=1.0))
    if (con1 or opt1) and (con2 or opt2):
        b.setup()
        e.ensure('all mandatory inputs connected: accepted', True)
    else:
        e.raises('a missing mandatory input is an error at setup', ValueError, b.setup)


class Named(BaseProcessingObj):
    DIN = {'x': InputDesc(BaseValue, 'd'), 'o': InputDesc(BaseValue, 'd (optional)')}
    DOUT = {'y': OutputDesc(BaseValue, 'd')}

    @classmethod
    def input_names(cls):
        return cls.DIN

    @classmethod
    def output_names(cls):
        return cls.DOUT


@harness('C03', funcs=[BP + 'sanity_check', BP + 'check_input_names', BP + 'check_output_names'], trials=100)
def sanity(e):
    """Declared and actual inputs/outputs must agree."""
    ix = e.choice('x', ['ok', 'missing', 'bare', 'list', 'wrongtype'])
    io = e.flag('opt_present')
    extra_in = e.flag('extra_in')
    oy = e.choice('y', ['ok', 'missing', 'wrongtype'])
    extra_out = e.flag('extra_out')
    b = Named()
    if ix == 'ok':
        b.inputs['x'] = InputValue(type=BaseValue)
    elif ix == 'list':
        b.inputs['x'] = InputList(type=BaseValue)
    elif ix == 'bare':
        b.inputs['x'] = BaseValue(value=1.0)
    elif ix == 'wrongtype':
        b.inputs['x'] = InputValue(type=Slopes)
    if io:
        b.inputs['o'] = InputValue(type=BaseValue, optional=True)
    if extra_in:
        b.inputs['z'] = InputValue(type=BaseValue)
    if oy == 'ok':
        b.outputs['y'] = BaseValue(value=1.0)
    elif oy == 'wrongtype':
        b.outputs['y'] = Slopes(2)
    if extra_out:
        b.outputs['w'] = BaseValue(value=1.0)
    good = ix in ('ok', 'list') and not extra_in and oy == 'ok' and not extra_out
    if good:
        b.sanity_check()
        e.ensure('matching declarations are accepted', True)
    elif ix in ('bare', 'wrongtype') and not extra_in and oy == 'ok' and not extra_out:
        e.raises('an input of the wrong type is a type error', TypeError, b.sanity_check)
    elif oy == 'wrongtype' and ix in ('ok', 'list') and not extra_in and not extra_out:
        e.raises('an output of the wrong type is a type error', TypeError, b.sanity_check)
    else:
        e.raises('a mismatch is an error', (ValueError, TypeError), b.sanity_check)


@harness('C03', funcs=[BP + 'sanity_check'], trials=5)
def sanity_undeclared(e):
    b = Blk([('a', 'value', False)])
    b.sanity_check()
    e.ensure('blocks that declare nothing are accepted', True)
