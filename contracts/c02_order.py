"""C02: the trigger order respects every declared dependency."""
from copy import deepcopy
from pvc.api import harness
from specula.simul import Simul
from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue
from specula.connections import InputList
from specula.loop_control import LoopControl

SI = 'simul.py:Simul.'
ORDER = [SI + 'build_trigger_order', SI + 'is_leaf', SI + 'has_delayed_output', SI + 'remove_inputs',
         SI + 'split_output', SI + 'output_owner', SI + 'output_delay']


def edge_desc(owner, delay, form, key='out'):
    """The textual forms a connection may take."""
    s = owner if form == 'bare' else f'{owner}.{key}'
    if form == 'named':
        s = f'in{owner}-{s}'
    return s + (':-1' if delay < 0 else (':0' if form == 'zero' else ''))


def make_params(names, edges, grouped, forms):
    """edges: {(producer, consumer): set of delays}; grouped: put inputs of a consumer in one list."""
    params = {}
    for c in names:
        p = {'class': 'X'}
        ins = [(o, d) for (o, cc), ds in edges.items() if cc == c for d in sorted(ds)]
        if ins:
            descs = [edge_desc(o, d, forms.get((o, c), 'plain')) for o, d in ins]
            if grouped == 'list':
                p['inputs'] = {'all': descs}
            elif grouped == 'mixed':
                p['inputs'] = {'first': descs[0]}
                if len(descs) > 1:
                    p['inputs']['rest'] = descs[1:]
            else:
                p['inputs'] = {f'i{k}': x for k, x in enumerate(descs)}
        elif grouped == 'list':
            p['inputs'] = {}
        params[c] = p
    return params


def acyclic(names, before):
    left = set(names)
    while True:
        free = [n for n in left if not any(b == n and a in left for a, b in before)]
        if not free:
            return not left
        left -= set(free)


def check_order(e, names, edges, params):
    p0 = deepcopy(params)
    s = Simul('none.yml')
    before = [(p, c) if d == 0 else (c, p) for (p, c), ds in edges.items() for d in ds]
    ok = acyclic(names, before)
    try:
        order, idx = s.build_trigger_order(params)
    except ValueError:
        e.ensure('an order is refused only when the dependencies are circular', not ok)
        return None
    e.ensure('the parameters are not modified', params == p0)
    e.ensure('one level per ordered block', len(order) == len(idx))
    e.ensure('each block appears at most once', len(set(order)) == len(order) and set(order) <= set(names))
    e.ensure('levels are listed in ascending order', list(idx) == sorted(idx))
    pos = {n: i for i, n in enumerate(order)}
    lvl = dict(zip(order, idx))
    if ok:
        e.ensure('with no circular dependency every block is ordered', set(order) == set(names))
    for (p, c), ds in edges.items():
        for d in ds:
            if d == 0:
                e.ensure('a block runs in a later level than the producers of its undelayed inputs',
                         c not in pos or (p in pos and lvl[p] < lvl[c]))
            else:
                e.ensure('a block runs before the producers of its delayed inputs',
                         p not in pos or (c in pos and pos[c] < pos[p] and lvl[c] <= lvl[p]))
    return order, idx


@harness('C02', funcs=ORDER, mode='bounded', trials=300, heavy=2)
def order_three_blocks(e):
    """Every graph on three blocks: each ordered pair unconnected, connected, or connected with one step of delay."""
    names = ['a', 'b', 'c']
    if e.flag('reversed_declaration'):
        names = names[::-1]
    edges = {}
    for p in 'abc':
        for c in 'abc':
            if p != c:
                k = e.choice(f'{p}{c}', [None, 0, -1])
                if k is not None:
                    edges[(p, c)] = {k}
    check_order(e, names, edges, make_params(names, edges, 'single', {}))


@harness('C02', funcs=ORDER, mode='bounded', trials=200)
def order_forms(e):
    """Two or three blocks, every textual form of a connection and of grouping inputs, also both delays at once."""
    names = ['a', 'b', 'c']
    grouped = e.choice('grouped', ['single', 'list', 'mixed'])
    form = e.choice('form', ['plain', 'zero', 'bare', 'named'])
    k1 = e.choice('ab', [None, (0,), (-1,), (0, -1)])
    k2 = e.choice('bc', [None, (0,), (-1,)])
    k3 = e.choice('ca', [None, (-1,)])
    edges = {}
    for (p, c), k in ((('a', 'b'), k1), (('b', 'c'), k2), (('c', 'a'), k3)):
        if k:
            edges[(p, c)] = set(k)
    check_order(e, names, edges, make_params(names, edges, grouped, {k: form for k in edges}))


@harness('C02', funcs=ORDER, mode='test', trials=600)
def order_random_graphs(e):
    """Random graphs up to ten blocks, mostly acyclic."""
    n = e.dim('n', 1, 10)
    names = [f'o{i}x' for i in range(n)] if e.flag('digits') else [f'o_{i}' for i in range(n)]
    perm = sorted(range(n), key=lambda i: float(e.real(f'perm{i}', 0, 1)))
    dens = e.choice('density', [0.1, 0.25, 0.5])
    back = e.choice('back', [0.0, 0.0, 0.05])
    edges = {}
    forms = {}
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            u = float(e.real(f'u{i}_{j}', 0, 1))
            v = float(e.real(f'v{i}_{j}', 0, 1))
            p, c = names[i], names[j]
            fwd = perm[i] < perm[j]
            # a valid schedule: undelayed edges forward, delayed edges backward (or a few the wrong way round)
            if u < dens:
                edges[(p, c)] = {0} if fwd else {-1}
            elif u < dens + back:
                edges[(p, c)] = {-1} if fwd else {0}
            if (p, c) in edges:
                forms[(p, c)] = ['plain', 'zero', 'bare', 'named'][int(v * 3.99)]
    params = make_params(names, edges, e.choice('grouped', ['single', 'list', 'mixed']), forms)
    check_order(e, names, edges, params)


@harness('C02', funcs=[SI + 'is_leaf'], trials=60)
def leaf_contract(e):
    s = Simul('none.yml')
    d1, d2 = e.choice('d1', [0, -1]), e.choice('d2', [0, -1])
    f = e.choice('form', ['plain', 'named'])
    x, y = edge_desc('a', d1, f), edge_desc('b', d2, f)
    e.ensure('no inputs', s.is_leaf({'class': 'X'}) is True and s.is_leaf({'class': 'X', 'inputs': {}}) is True)
    want = d1 < 0 and d2 < 0
    e.ensure('separate inputs', s.is_leaf({'inputs': {'i': x, 'j': y}}) == want)
    e.ensure('one list', s.is_leaf({'inputs': {'i': [x, y]}}) == want)
    e.ensure('list then single', s.is_leaf({'inputs': {'i': [x], 'j': y}}) == want)
    e.ensure('empty list', s.is_leaf({'inputs': {'i': []}}) is True)
    e.ensure('one input', s.is_leaf({'inputs': {'i': x}}) == (d1 < 0))


class Node(BaseProcessingObj):
    """Publishes the instant at which it last computed; remembers what it read."""

    def __init__(self, name):
        super().__init__()
        self.name = name
        self.out = BaseValue(value=-1)
        self.outputs['out'] = self.out
        self.inputs['in'] = InputList(type=BaseValue, optional=True)
        self.srcs = []
        self.seen = []

    def checkInputTimes(self):
        super().checkInputTimes()
        return True

    def trigger_code(self):
        self.seen.append((self.current_time, [(s, v.generation_time) for s, v in zip(self.srcs, self.local_inputs['in'])]))

    def post_trigger(self):
        super().post_trigger()
        self.out.generation_time = self.current_time


@harness('C02', funcs=ORDER + ['loop_control.py:LoopControl.iter'], mode='test', trials=250)
def data_flow(e):
    """Run the loop in the computed order: undelayed inputs carry the value of this instant, delayed ones of the previous."""
    n = e.dim('n', 2, 7)
    names = [f'o{i}' for i in range(n)]
    perm = sorted(range(n), key=lambda i: float(e.real(f'perm{i}', 0, 1)))
    edges = {}
    for i in range(n):
        for j in range(n):
            if i != j and float(e.real(f'u{i}_{j}', 0, 1)) < 0.35:
                edges[(names[i], names[j])] = {0} if perm[i] < perm[j] else {-1}
    params = make_params(names, edges, 'single', {})
    s = Simul('none.yml')
    order, idx = s.build_trigger_order(params)
    e.ensure('all ordered', sorted(order) == sorted(names))
    nodes = {m: Node(m) for m in names}
    for (p, c), ds in edges.items():
        nodes[c].inputs['in'].append(nodes[p].out)
        nodes[c].srcs.append((p, min(ds)))
    lc = LoopControl()
    for m, i in zip(order, idx):
        lc.add(nodes[m], i)
    lc.run(4e-9, 1e-9)
    for m in names:
        e.ensure('every block ran at every instant', [t for t, _ in nodes[m].seen] == [0, 1, 2, 3])
        for t, vals in nodes[m].seen:
            for (p, d), g in vals:
                if d == 0:
                    e.ensure('undelayed input is from this instant', g == t)
                else:
                    e.ensure('delayed input is from the previous instant', g == t - 1)
