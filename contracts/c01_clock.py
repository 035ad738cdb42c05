"""C01: exact integer clock; which instants a run executes, and in which order the blocks act in each."""
from pvc.api import harness
from specula.base_processing_obj import BaseProcessingObj
from specula.base_time_obj import BaseTimeObj
from specula.base_value import BaseValue
from specula.loop_control import LoopControl
from specula.connections import InputValue

BT = 'base_time_obj.py:BaseTimeObj.'
LC = 'loop_control.py:LoopControl.'
NS = 1000000000


def clock():
    return BaseTimeObj(target_device_idx=-1, precision=0)


@harness('C01', funcs=[BT + 't_to_seconds', BT + 'seconds_to_t'], trials=300)
def clock_round_trip(e):
    """seconds_to_t is the left inverse of t_to_seconds on every instant of the clock."""
    big = e.flag('long')
    t = e.int('t', 0, 10**14 if big else 10**10)
    b = clock()
    e.ensure('an instant survives the conversion to seconds and back', b.seconds_to_t(b.t_to_seconds(t)) == t)


@harness('C01', funcs=[BT + 'seconds_to_t'], trials=300)
def clock_nearest(e):
    """Nearest nanosecond (half a nanosecond tolerance, exact for whole nanoseconds)."""
    b = clock()
    k = e.int('k', 0, 10**13)
    f = e.real('f', -0.49, 0.49)
    r = b.seconds_to_t((k + f) / NS)
    e.ensure('nearest nanosecond', e.And(r - k - f <= 0.51, k + f - r <= 0.51))
    e.eq('whole nanoseconds are exact', b.seconds_to_t(k / NS), k)
    us = e.int('us', 0, 10**9)
    e.eq('whole microseconds are exact', b.seconds_to_t(us / 1000000), us * 1000)


@harness('C01', funcs=[BT + 'seconds_to_t', BT + 't_to_seconds'], trials=60)
def clock_monotone(e):
    b = clock()
    s1 = e.real('s1', 0, 1000)
    s2 = e.real('s2', 0, 1000)
    e.assume(s1 <= s2)
    e.ensure('monotone', b.seconds_to_t(s1) <= b.seconds_to_t(s2))
    e.eq('zero', b.seconds_to_t(0), 0)


class Rec(BaseProcessingObj):
    """A block that logs what the loop does with it."""

    def __init__(self, log, name, ready=None):
        super().__init__()
        self.log = log
        self.name = name
        self.ready = ready

    def checkInputTimes(self):
        self.log.append(('inputs', self.name, self.current_time))
        return True if self.ready is None else self.ready(self.current_time)

    def prepare_trigger(self, t):
        super().prepare_trigger(t)
        self.log.append(('prepare', self.name, t))

    def trigger_code(self):
        self.log.append(('compute', self.name, self.current_time))

    def post_trigger(self):
        super().post_trigger()
        self.log.append(('post', self.name, self.current_time))

    def setup(self):
        super().setup()
        self.log.append(('setup', self.name))

    def sanity_check(self):
        self.log.append(('sanity', self.name))

    def send_outputs(self, skip_delayed=False, delayed_only=False, first_mpi_send=True):
        self.log.append(('send', self.name, bool(skip_delayed), bool(delayed_only), bool(first_mpi_send)))

    def finalize(self):
        self.log.append(('final', self.name))


def sel(log, *kinds):
    return [x for x in log if x[0] in kinds]


@harness('C01', funcs=[LC + 'iter'], trials=80)
def iteration_contract(e):
    """One iteration at an arbitrary instant t and iteration number k."""
    log = []
    lc = LoopControl()
    ready = {n: e.flag('ready_' + n) for n in 'abc'}
    objs = {n: Rec(log, n, ready=lambda t, n=n: ready[n]) for n in 'abc'}
    lo = e.int('lo', 0, 50)
    gap = e.int('gap', 1, 50)
    lo, hi = (int(lo), int(lo) + int(gap)) if not e.symbolic else (3, 7)
    # a and b on the same level, c on a later one; declared in either order
    decl = [('a', lo), ('b', lo), ('c', hi)]
    if e.flag('declared_late_first'):
        decl = [decl[2], decl[0], decl[1]]
    for n, i in decl:
        lc.add(objs[n], i)
    t0 = e.int('t0', 0, 10**15)
    dt = e.int('dt', 1, 10**12)
    rt = e.int('rt', 1, 10**15)
    k = e.int('k', 0, 10**6)
    t = t0 + k * dt
    e.assume(t < t0 + rt)
    e.setattr(lc, 't0', t0)
    e.setattr(lc, 'dt', dt)
    e.setattr(lc, 'run_time', rt)
    e.setattr(lc, 't', t)
    e.setattr(lc, 'iter_counter', k)
    lc.iter()
    e.eq('the clock advances by exactly one step', lc.t, t + dt)
    e.eq('iterations are counted', lc.iter_counter, k + 1)
    e.ensure('every block sees the current instant', e.And(*[x[2] == t for x in sel(log, 'inputs', 'prepare', 'compute', 'post')]))
    for n in 'abc':
        want = ['inputs'] + (['prepare', 'compute', 'post'] if ready[n] else []) + ['send']
        e.ensure(f'block {n}: inputs, prepare, compute, publish once each, and only if it has something new',
                 [x[0] for x in log if x[1] == n] == want)
    names = [(x[0], x[1]) for x in log]

    def pos(kind, n):
        return names.index((kind, n)) if (kind, n) in names else None
    lvl1 = [i for i, x in enumerate(names) if x[1] in 'ab']
    lvl2 = [i for i, x in enumerate(names) if x[1] == 'c']
    e.ensure('lower levels complete before higher ones start', max(lvl1) < min(lvl2))
    ins = [pos(q, n) for q in ('inputs', 'prepare') for n in 'ab' if pos(q, n) is not None]
    cmp_ = [pos('compute', n) for n in 'ab' if ready[n]]
    pub = [pos(q, n) for q in ('post', 'send') for n in 'ab' if pos(q, n) is not None]
    e.ensure('in a level every block reads its inputs before any computes', all(i < j for i in ins for j in cmp_))
    e.ensure('in a level every block computes before any publishes', all(i < j for i in cmp_ for j in pub))
    e.ensure('blocks of a level act in declaration order',
             all(names.index((q, 'a')) < names.index((q, 'b')) for q in ('inputs', 'send'))
             and (not (ready['a'] and ready['b']) or pos('compute', 'a') < pos('compute', 'b')))
    last = t + dt >= t0 + rt
    e.ensure('delayed outputs are withheld exactly on the last iteration',
             e.And(*[e.Or(e.And(last, x[2]), e.And(e.Not(last), not x[2])) for x in sel(log, 'send')]))
    e.ensure('regular sends', all(not x[3] and not x[4] for x in sel(log, 'send')))


@harness('C01', funcs=[LC + 'start', LC + 'add'], trials=60)
def start_contract(e):
    log = []
    lc = LoopControl()
    objs = {n: Rec(log, n) for n in 'abc'}
    for n, i in (('c', 5), ('a', 1), ('b', 3)) if e.flag('shuffled') else (('a', 1), ('b', 3), ('c', 5)):
        lc.add(objs[n], i)
    rt, dt, t0 = e.int('rt', -1, 10**13), e.int('dt', 1, 10**10), e.int('t0', 0, 10**12)
    lc.start(rt / NS, dt / NS, t0=t0 / NS)
    e.eq('run time in ns', lc.run_time, rt)
    e.eq('step in ns', lc.dt, dt)
    e.eq('start in ns', lc.t0, t0)
    e.eq('clock starts at t0', lc.t, t0)
    names = [(x[0], x[1]) for x in log if x[0] in ('setup', 'sanity')]
    e.ensure('every block is set up and checked once, in level order',
             names == [('setup', 'a'), ('sanity', 'a'), ('setup', 'b'), ('sanity', 'b'), ('setup', 'c'), ('sanity', 'c')])
    e.ensure('nothing is computed before the first instant', not sel(log, 'inputs', 'prepare', 'compute', 'post', 'final'))
    first = [i for i, x in enumerate(log) if x[0] == 'send' and x[4]]
    setups = [i for i, x in enumerate(log) if x[0] == 'setup']
    e.ensure('outputs are announced once per block before any setup',
             [log[i][1] for i in first] == ['a', 'b', 'c'] and max(first) < min(setups)
             and all(not log[i][2] and not log[i][3] for i in first))
    later = [x for x in log if x[0] == 'send' and not x[4]]
    e.ensure('after setup only delayed outputs are sent, once per block',
             [x[1] for x in later] == ['a', 'b', 'c'] and all(x[3] and not x[2] for x in later))


@harness('C01', funcs=[LC + 'run'], trials=60)
def run_inductive(e):
    """The while loop of run() from an arbitrary reachable state (k steps done), iter() replaced by its contract."""
    class Stop(Exception):
        pass
    log = []

    class Loop(LoopControl):
        def start(self, run_time, dt, t0=0, speed_report=False):
            log.append(('start', run_time, dt, t0))
            for a, v in (('t0', T0), ('dt', DT), ('run_time', RT), ('t', T0 + k * DT), ('iter_counter', k)):
                e.setattr(self, a, v)

        def iter(self):
            log.append(('iter', self.t, self.iter_counter))
            if len([x for x in log if x[0] == 'iter']) > 1:
                raise Stop()
            self.t += self.dt
            self.iter_counter += 1

        def finish(self):
            log.append(('finish', self.t))
    T0, DT, RT = e.int('t0', 0, 10**14), e.int('dt', 1, 10**12), e.int('rt', -5, 10**14)
    k = e.int('k', 0, 10**4)
    t = T0 + k * DT
    lc = Loop()
    try:
        lc.run(7, 3, t0=2)
        stopped = False
    except Stop:
        stopped = True
    e.ensure('started once with the requested times', log[0] == ('start', 7, 3, 2))
    more = e.Or(RT < 0, t < T0 + RT)
    more2 = e.Or(RT < 0, t + DT < T0 + RT)
    its = [x for x in log if x[0] == 'iter']
    fin = [x for x in log if x[0] == 'finish']
    if e.case(more):
        e.ensure('an instant inside the run is executed', len(its) >= 1)
        if its:
            e.eq('at its own time', its[0][1], t)
        if e.case(more2):
            e.ensure('and so is the next one', len(its) == 2 and stopped and not fin)
            if len(its) == 2:
                e.eq('one step later', its[1][1], t + DT)
        else:
            e.ensure('the run ends with the last instant', len(its) == 1 and len(fin) == 1 and not stopped)
    else:
        e.ensure('an instant past the end is not executed', not its)
        e.ensure('the run is finalised once', len(fin) == 1 and not stopped)


@harness('C01', funcs=[LC + 'finish'], trials=10)
def finish_contract(e):
    log = []
    lc = LoopControl()
    for n, i in (('c', 5), ('a', 1), ('b', 3)):
        lc.add(Rec(log, n), i)
    lc.finish()
    e.ensure('every block is finalised exactly once, in level order', log == [('final', 'a'), ('final', 'b'), ('final', 'c')])


@harness('C01', funcs=[LC + 'run', LC + 'start', LC + 'iter', LC + 'finish', LC + 'niters'], mode='bounded', trials=200)
def run_executes_every_instant(e):
    """The whole run with N instants (N <= 4): all instants, each once, in order; then finalize."""
    log = []
    lc = LoopControl()
    lc.add(Rec(log, 'a'), 0)
    lc.add(Rec(log, 'b'), 1)
    n = e.choice('n', [0, 1, 2, 3, 4]) if e.symbolic else e.choice('n', [0, 1, 2, 3, 4, 7, 31, 100])
    dt = e.int('dt', 1, 10**10)
    if not e.symbolic:
        dt = e.choice('dtc', [dt, 1, 1000, 100000, 333333, 666667, 1000000, 2000000, 1500000])
    part = e.int('part', 1, 10**10)
    e.assume(part <= dt)
    rt = 0 if n == 0 else (n - 1) * dt + part
    t0 = e.int('t0', 0, 10**12)
    lc.run(rt / NS, dt / NS, t0=t0 / NS)
    comp = [x for x in log if x[0] == 'compute' and x[1] == 'b']
    e.ensure('number of instants', len(comp) == n)
    for i, x in enumerate(comp):
        e.eq('instant i is t0 + i*dt', x[2], t0 + i * dt)
    sends = [x for x in log if x[0] == 'send' and x[1] == 'a' and not x[4] and not x[3]]
    e.ensure('delayed outputs are withheld in the last instant only', [x[2] for x in sends] == [False] * (n - 1) + [True] * (n > 0))
    e.ensure('finalised once after everything', log[-2:] == [('final', 'a'), ('final', 'b')] and len(sel(log, 'final')) == 2)


@harness('C01', funcs=[LC + 'run', LC + 'start'], trials=20)
def failing_block_stops_the_run(e):
    """A block that fails is never skipped silently: the run stops with its error."""
    class Boom(Exception):
        pass
    log = []
    where = e.choice('where', ['setup', 'checkInputTimes', 'trigger_code', 'post_trigger', 'finalize'])

    class Bad(Rec):
        pass

    def fail(self, *a, **k):
        raise Boom()
    setattr(Bad, where, fail)
    lc = LoopControl()
    lc.add(Bad(log, 'a'), 0)
    lc.add(Rec(log, 'b'), 1)
    e.raises('error is propagated', Boom, lc.run, 3 / NS, 1 / NS)
    if where != 'finalize':
        e.ensure('no later block computes', not [x for x in log if x[0] == 'compute' and x[1] == 'b'])
