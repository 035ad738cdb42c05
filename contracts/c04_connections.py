"""C04: connections deliver the connected objects, complete, in order and type-checked; data transfers copy everything."""
from pvc.api import harness
from contracts.common import val
from specula.base_value import BaseValue
from specula.base_data_obj import BaseDataObj
from specula.data_objects.slopes import Slopes
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.layer import Layer
from specula.data_objects.pixels import Pixels
from specula.data_objects.intensity import Intensity
from specula.connections import InputList, InputValue

CO = 'connections.py:'
BD = 'base_data_obj.py:BaseDataObj.'


@harness('C04', funcs=[CO + 'InputList.set', CO + 'InputList.append', CO + 'InputList.get', CO + '_InputItem.get'], trials=60)
def list_order(e):
    """Any nesting of lists is flattened in order, nothing dropped, nothing duplicated."""
    v = [BaseValue(value=float(i)) for i in range(6)]
    form = e.choice('form', [[0, 1, 2, 3], [[0, 1], 2, 3], [0, [1, [2, 3]]], [[[0]], [1], [], 2, 3], [], [0], [3, 1, 0, 2], [1, 1, 0]])

    def build(x):
        return [build(y) for y in x] if isinstance(x, list) else v[x]

    def flat(x):
        return [z for y in x for z in (flat(y) if isinstance(y, list) else [v[y]])]
    il = InputList(type=BaseValue)
    if e.flag('one_by_one'):
        for y in form:
            il.append(build(y) if isinstance(y, list) else v[y])
    else:
        il.set(build(form))
    want = flat(form)
    got = il.get(-1)
    e.ensure('as many as connected', len(got) == len(want))
    e.ensure('the connected objects themselves, in order', all(a is b for a, b in zip(got, want)))
    again = il.get(-1)
    e.ensure('reading twice gives the same', len(again) == len(want) and all(a is b for a, b in zip(again, want)))
    il.append(v[4])
    got = il.get(-1)
    e.ensure('a further connection comes last', len(got) == len(want) + 1 and got[-1] is v[4])
    il.set([v[5]])
    got = il.get(-1)
    e.ensure('set replaces all', len(got) == 1 and got[0] is v[5])


@harness('C04', funcs=[CO + 'InputValue.set', CO + 'InputValue.get', CO + 'InputList.append'], trials=40)
def single_value(e):
    opt = e.flag('optional')
    n = e.choice('n', [0, 1, 2])
    iv = InputValue(type=BaseValue, optional=opt)
    v = [BaseValue(value=float(i)) for i in range(3)]
    for i in range(n):
        iv.append(v[i])
    if n == 0:
        if opt:
            e.ensure('unset optional input reads as None', iv.get(-1) is None)
        else:
            e.raises('unset mandatory input is an error', ValueError, iv.get, -1)
    elif n == 1:
        e.ensure('the connected object', iv.get(-1) is v[0])
    else:
        e.raises('two sources on a single input are an error', ValueError, iv.get, -1)
    iv.set(v[2])
    e.ensure('set replaces', iv.get(-1) is v[2])


@harness('C04', funcs=[CO + 'InputList.append', CO + '_InputItem.__init__'], trials=40)
def type_checked(e):
    cls = e.choice('cls', [InputList, InputValue])
    iv = cls(type=Slopes, optional=True)
    bad = e.choice('bad', ['other', 'none', 'array', 'base'])
    x = {'other': BaseValue(value=1.0), 'none': None, 'array': 3.0, 'base': BaseDataObj()}[bad]
    e.raises('wrong type on append', ValueError, iv.append, x)
    e.raises('wrong type on set', ValueError, iv.set, x if cls is InputValue else [x])
    e.raises('wrong type inside a list', ValueError, iv.append, [Slopes(2), x])
    class Sub(Slopes):
        pass
    s = Sub(2)
    iv.set(s if cls is InputValue else [s])
    e.ensure('subclasses are accepted', (iv.get(-1) if cls is InputValue else iv.get(-1)[0]) is s)


@harness('C04', funcs=[BD + 'copyTo'], trials=10)
def copy_same_device(e):
    v = BaseValue(value=1.0)
    e.ensure('no copy on the same device', v.copyTo(-1) is v)


@harness('C04', funcs=[BD + 'transferDataTo'], trials=40)
def transfer_value(e):
    n = e.dim('n')
    a, b = e.array('a', n), e.array('b', n)
    src, dst = BaseValue(value=a), BaseValue(value=b)
    src.generation_time = e.int('t', -1)
    src.transferDataTo(dst)
    e.eq('destination gets the contents', dst.value, a)
    e.eq('source keeps them', src.value, a)
    e.eq('time stamp travels with the data', dst.generation_time, src.generation_time)
    dst.value[0] = 123.0
    e.eq('the copy is independent of the source', src.value, a)
    src.value[...] = 7.0
    e.ensure('the source is independent of the copy', dst.value[0] == 123.0)


@harness('C04', funcs=[BD + 'transferDataTo'], trials=40)
def transfer_field(e):
    """Every array of a composite object is transferred."""
    n, m = e.dim('n'), e.dim('m')
    kind = e.choice('kind', ['ef', 'layer'])
    if kind == 'ef':
        src, dst = ElectricField(n, m, 0.1), ElectricField(n, m, 0.1)
    else:
        src, dst = Layer(n, m, 0.1, 1.0), Layer(n, m, 0.1, 1.0)
    amp, ph = e.array('amp', (m, n)), e.array('ph', (m, n))
    src.A[:] = amp
    src.phaseInNm[:] = ph
    src.generation_time = 5
    src.transferDataTo(dst)
    e.eq('amplitude', dst.A, amp)
    e.eq('phase', dst.phaseInNm, ph)
    e.eq('time', dst.generation_time, 5)
    src.A[...] = 0
    e.eq('independent', dst.A, amp)


@harness('C04', funcs=[BD + 'transferDataTo'], trials=40)
def transfer_more(e):
    n = e.dim('n')
    kind = e.choice('kind', ['slopes', 'intensity'])
    a, b = e.array('a', n), e.array('b', (n + 1, n))
    if kind == 'slopes':
        src, dst = Slopes(slopes=a), Slopes(n)
        src.transferDataTo(dst)
        e.eq('slopes', dst.slopes, a)
    else:
        src, dst = Intensity(n, n + 1), Intensity(n, n + 1)
        src.i[:] = b
        src.transferDataTo(dst)
        e.eq('intensity', dst.i, b)


@harness('C04', funcs=['base_value.py:BaseValue.__init__', 'base_value.py:BaseValue.set_value', 'base_value.py:BaseValue.get_value'],
         trials=60)
def value_semantics(e):
    """A value object owns its data; set_value copies into it."""
    n = e.dim('n')
    a, b = e.array('a', n), e.array('b', n)
    a0, b0 = e.snap(a), e.snap(b)
    v = BaseValue(value=a)
    e.eq('initial contents', v.get_value(), a0)
    v.set_value(b)
    e.eq('new contents', v.get_value(), b0)
    e.eq('the array given first is not overwritten', a, a0)
    v.get_value()[0] = 99.0
    e.eq('the array given second is not shared', b, b0)
    w = BaseValue()
    e.ensure('empty', w.get_value() is None)
    w.set_value(b)
    e.eq('first set', w.get_value(), b0)
    w.get_value()[0] = 77.0
    e.eq('first set copies', b, b0)
    s = BaseValue(value=e.real('s'))
    x = e.real('x')
    s.set_value(x)
    e.eq('scalar', s.get_value(), x)
