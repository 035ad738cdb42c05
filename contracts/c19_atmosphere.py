"""C19: atmosphere: moving phase screens and propagation along the lines of sight."""
import copy
import math
import shutil
import tempfile
import numpy as np
from scipy.ndimage import rotate
from pvc.api import harness
from contracts.common import step, wire, val
from specula.base_value import BaseValue
from specula.data_objects.layer import Layer
from specula.data_objects.source import Source
from specula.data_objects.pupilstop import Pupilstop
from specula.data_objects.simul_params import SimulParams
from specula.processing_objects.atmo_evolution import AtmoEvolution
from specula.processing_objects.atmo_evolution_up_down import AtmoEvolutionUpDown
from specula.processing_objects.atmo_propagation import AtmoPropagation
from specula.processing_objects.atmo_random_phase import AtmoRandomPhase
from specula.lib.air_refraction import MatharAirRefraction
from specula.lib.interp2d import Interp2D
from specula.lib.calc_phasescreen import calc_phasescreen
from specula.lib.phasescreen_manager import phasescreens_manager
from specula.data_objects.spatio_temp_array import SpatioTempArray
from specula.data_objects.infinite_phase_screen import InfinitePhaseScreen
from specula.processing_objects.phase_screen_cube import PhaseScreenCube
from specula.processing_objects.atmo_infinite_evolution import AtmoInfiniteEvolution
from specula.processing_objects.atmo_infinite_evolution_up_down import AtmoInfiniteEvolutionUpDown
import specula.processing_objects.atmo_infinite_evolution as m_inf
import specula.processing_objects.atmo_evolution as m_evo
import specula.processing_objects.atmo_random_phase as m_rnd

EV = 'processing_objects/atmo_evolution.py:AtmoEvolution.'
UD = 'processing_objects/atmo_evolution_up_down.py:AtmoEvolutionUpDown.'
PR = 'processing_objects/atmo_propagation.py:AtmoPropagation.'
RN = 'processing_objects/atmo_random_phase.py:AtmoRandomPhase.'
EVO = [EV + f for f in ('__init__', 'compute', 'setup', 'prepare_trigger', 'trigger_code', '_update_layer_list')]
S = 10 ** 9


def screens(e, module, N, calls, name='screen'):
    """The generator of square screens, by contract: one N x N screen for every seed (the same for equal seeds)."""
    made = {}

    def manager(L0, dimension, pixel_pitch, directory, seed=None, precision=None, verbose=False, xp=None):
        out = []
        for k, s in enumerate(seed):
            s = int(s)
            l = float(L0[k] if len(L0) == len(seed) else L0[0])
            calls.append((s, l))
            if (s, l) not in made:
                made[s, l] = e.array(f'{name}{s}_{l:g}', (N, N))
            out.append(made[s, l].copy())
        return out
    e.setattr(module, 'phasescreens_manager', manager)
    return made


def turned(k, n, f):
    """Element of an n x n square rotated counterclockwise k quarters."""
    k = k % 4
    return {0: f, 1: lambda i, j: f(j, n - 1 - i), 2: lambda i, j: f(n - 1 - i, n - 1 - j), 3: lambda i, j: f(n - 1 - j, i)}[k]


def r0_of(seeing, airmass):
    return 0.9759 * 0.5 / (seeing * 4.848) * airmass ** (-3. / 5.)


@harness('C19', funcs=EVO + [UD + f for f in ('__init__', 'trigger_code')], trials=60)
def frozen_flow(e):
    """Two steps at any times: every layer is the moving window of its screen."""
    n, N, nl, kind, turns, zen, s2, ts = e.choice('case', [
        (2, 6, 2, 'plain', [0, 90], None, 1.3, (S, 2 * S)), (4, 9, 1, 'plain', [180], 60.0, 1.3, (S // 4, 3 * S)),
        (2, 5, 2, 'up-down', [-90, 360], 60.0, 0.0, (2 * S, 3 * S)), (2, 5, 1, 'up-down', [270], None, 0.6, (S, 5 * S))])
    made = screens(e, m_evo, N, [])
    sp = SimulParams(pixel_pupil=n, pixel_pitch=0.5, zenithAngleInDeg=zen)
    x1, x2 = np.array([0.25, 0.0])[:nl], np.array([0.0, 0.125])[:nl]
    cn2 = [[1.0], [0.3, 0.7]][nl - 1]
    kw = dict(L0=[20.0], heights=[100.0 * k for k in range(nl)], Cn2=cn2, pixel_phasescreens=N, seed=3)
    if kind == 'plain':
        o = AtmoEvolution(sp, extra_delta_time=x1, **kw)
        lists = [('layer_list', x1)]
    else:
        o = AtmoEvolutionUpDown(sp, extra_delta_time_down=x1, extra_delta_time_up=x2, data_dir='', **kw)
        lists = [('layer_list_down', x1), ('layer_list_up', x2), ('layer_list', x1)]
    per = N // n
    screen = []
    for k in range(nl):
        sq = made[3 + k // per, 20.0]
        a = sq[(k % per) * n:(k % per + 1) * n, :] * np.sqrt(cn2[k])
        a = (a - e.np.mean(a)) * (500.0 / (2 * np.pi))
        screen.append(e.np.flip(a, axis=1) if k % 2 else a)
    seeing, ws, wd = val([0.8]), val(e.array('w', (nl,), lo=0, hi=4)), val(np.array(turns, float))
    wire(o, seeing=seeing, wind_speed=ws, wind_direction=wd)
    o.setup()
    am = 1.0 if zen is None else 1 / np.cos(np.radians(zen))
    pos = {name: [0] * nl for name, _ in lists}
    last, s = 0, 0.8
    for m in (1, 2):
        t = ts[m - 1]
        if m == 2:
            ws.value[:] = e.array('w2', (nl,), lo=0, hi=4)
            s = s2
            seeing.value[0] = s
        for x in (seeing, ws, wd):
            x.generation_time = t
        scale = (0.5 / r0_of(s, am)) ** (5. / 6.) if s > 0 else 0.0
        step(o, t)
        for name, x in lists:
            for k in range(nl):
                l = o.outputs[name][k]
                p = pos[name][k] + ws.value[k] * ((t - last) / S) / 0.5
                off = ws.value[k] * x[k] / 0.5
                p = e.ite(p + off + n >= N, 0, p)
                pos[name][k] = p
                q = e.floor(p + off)
                f = p + off - q
                w = lambda i, j: (1 - f) * screen[k][i, q + j] + f * screen[k][i, q + j + 1]
                want = turned(turns[k] // 90, n, w)
                e.eq('size of the layer', l.phaseInNm.shape, (n, n))
                for i in range(n):
                    for j in range(n):
                        e.eq('window of the screen', l.phaseInNm[i, j], want(i, j) * scale, tol=1e-9)
                e.eq('refreshed', l.generation_time, t)
                e.eq('height', l.height, 100.0 * k)
        last = t


@harness('C19', funcs=EVO, trials=40)
def oblique_wind(e):
    """Directions that are not multiples of 90 degrees: quarters first, then the remaining rotation."""
    n, N = 4, 9
    made = screens(e, m_evo, N, [])
    d = e.choice('direction', [30.0, 135.0, -45.0, 300.0])
    o = AtmoEvolution(SimulParams(pixel_pupil=n, pixel_pitch=0.5), L0=[20.0], heights=[0.0], Cn2=[1.0], pixel_phasescreens=N)
    w = e.real('w', 0, 1.9)
    wire(o, seeing=val([1.0]), wind_speed=val(e.mk((1,), lambda k: w), t=S), wind_direction=val([d]))
    o.setup()
    step(o, S)
    sc = made[1, 20.0][:n, :]
    sc = (sc - e.np.mean(sc)) * (500.0 / (2 * np.pi))
    p = w / 0.5
    q = e.floor(p)
    f = p - q
    win = (1.0 - f) * sc[:, q:q + n] + f * sc[:, q + 1:q + n + 1]
    quarters = int(d / 90)
    want = rotate(e.np.rot90(win, quarters), d - 90 * quarters, reshape=False, order=1)
    e.eq('window turned to the wind', o.outputs['layer_list'][0].phaseInNm, want * (0.5 / r0_of(1.0, 1.0)) ** (5. / 6.), tol=1e-9)


@harness('C19', funcs=EVO, trials=60)
def screen_pieces(e):
    """Which piece of which square screen a layer uses, for equal and different outer scales."""
    n, N, nl, L0 = e.choice('case', [(2, 5, 3, [20.0]), (2, 5, 3, [20.0, 20.0, 20.0]), (2, 5, 3, [5.0, 20.0, 20.0]), (4, 5, 2, 20.0), (2, 8, 4, [9.0])])
    calls = []
    made = screens(e, m_evo, N, calls)
    cn2 = [1.0 / nl] * nl
    cn2[0], cn2[-1] = cn2[0] / 2, cn2[-1] + cn2[0] / 2
    o = AtmoEvolution(SimulParams(pixel_pupil=n, pixel_pitch=0.5), L0=L0, heights=[0.0] * nl, Cn2=cn2, pixel_phasescreens=N, seed=4)
    wire(o, seeing=val([1.0]), wind_speed=val(np.zeros(nl), t=S), wind_direction=val(np.zeros(nl)))
    o.setup()
    step(o, S)
    same = not isinstance(L0, list) or len(set(L0)) == 1
    for k in range(nl):
        if same:
            per = N // n
            sq, j = made[4 + k // per, 20.0 if not isinstance(L0, list) else L0[0]], k % per
        else:
            sq, j = made[4 + k, L0[k]], 0
        a = sq[j * n:(j + 1) * n, :]
        a = (a - e.np.mean(a)) * np.sqrt(cn2[k]) * (500.0 / (2 * np.pi))
        a = e.np.flip(a, axis=1) if k % 2 else a
        e.eq('piece of the screen', 1 + o.outputs['layer_list'][k].phaseInNm, 1 + a[:, :n] * (0.5 / r0_of(1.0, 1.0)) ** (5. / 6.), tol=1e-9)
    e.ensure('one generator seed for every square screen', len(set(calls)) == len(calls))


@harness('C19', funcs=[EV + '__init__', EV + 'setup'], mode='test', trials=80)
def sizes_and_errors(e):
    screens(e, m_evo, 40, [])
    zen = e.choice('zenith', [None, 60.0])
    fov = e.choice('fov', [0.0, 120.0])
    pp = e.choice('position', [[0, 0], [3.0, 4.0], [-0.6, 0.8]])
    am = 1.0 if zen is None else 1 / math.cos(math.radians(zen))
    sp = SimulParams(pixel_pupil=8, pixel_pitch=0.5, zenithAngleInDeg=zen)
    kw = dict(L0=[20.0], Cn2=[0.5, 0.5], pixel_phasescreens=40)
    o = AtmoEvolution(sp, heights=[0.0, 1000.0], fov=fov, pupil_position=pp, **kw)
    for k, h in enumerate([0.0, 1000.0]):
        d = 8 + 2 * math.hypot(*pp) / 0.5 + h * am / 0.5 * fov * math.pi / 180 / 3600
        l = o.outputs['layer_list'][k]
        e.eq('the layer covers the field', l.phaseInNm.shape, (2 * math.ceil(d / 2 - 1e-9),) * 2)
        e.eq('height and sampling', (l.height, l.pixel_pitch), (h, 0.5))
    o2 = AtmoEvolution(sp, heights=[0.0, 1000.0], fov=fov, fov_in_m=7.3, **kw)
    e.eq('size given in metres', o2.outputs['layer_list'][1].phaseInNm.shape, (14, 14))
    bad = e.choice('bad', ['cn2', 'seed', 'screen', 'wind', 'direction', 'seeing'])
    k2 = dict(kw, heights=[0.0, 1000.0])
    if bad == 'cn2':
        e.raises('profile does not sum to one', ValueError, lambda: AtmoEvolution(sp, **dict(k2, Cn2=[0.5, 0.6])))
    elif bad == 'seed':
        e.raises('bad seed', ValueError, lambda: AtmoEvolution(sp, **dict(k2, seed=0)))
    elif bad == 'screen':
        e.raises('screens too small', ValueError, lambda: AtmoEvolution(sp, **dict(k2, pixel_phasescreens=7)))
    else:
        q = dict(seeing=val([1.0]), wind_speed=val([1.0, 2.0]), wind_direction=val([0.0, 1.0]))
        q.update({'wind': dict(wind_speed=val([1.0])), 'direction': dict(wind_direction=val([1.0, 2.0, 3.0])), 'seeing': dict(seeing=val([1.0, 2.0]))}[bad])
        wire(o, **q)
        e.raises('wrong number of values', ValueError, o.setup)


@harness('C19', funcs=[RN + f for f in ('__init__', 'initScreens', 'prepare_trigger', 'trigger_code', 'post_trigger')], trials=60)
def random_phase(e):
    """Uncorrelated phases: consecutive tiles of the screens, each held for the update interval."""
    n, N, every = e.choice('case', [(2, 5, 1), (2, 4, 2), (4, 7, 1)])
    made = screens(e, m_rnd, N, [])
    zen = e.choice('zenith', [None, 60.0])
    am = 1.0 if zen is None else 1 / math.cos(math.radians(zen))
    sp = SimulParams(pixel_pupil=n, pixel_pitch=0.5, zenithAngleInDeg=zen)
    named = e.flag('sources')
    kw = dict(source_dict={'a': Source([0, 0], 5, 600, zero_point=1e9), 'b': Source([1, 0], 6, 600, zero_point=1e9)}) if named else {}
    o = AtmoRandomPhase(sp, L0=20.0, wavelengthInNm=600.0, pixel_phasescreens=N, seed=7, update_interval=every, layer_height=5.0, **kw)
    stop = Pupilstop(sp, input_mask=np.ones((n, n)))
    stop.A = e.array('A', (n, n), lo=0, hi=1)
    stop.generation_time = 0
    seeing = val([0.8])
    wire(o, seeing=seeing, pupilstop=stop)
    o.setup()
    m = N // n
    steps = m * m * every + 1
    names = ['a', 'b'] if named else [None]
    for k in range(steps):
        t = (k + 1) * S
        s = 0.8 + 0.1 * k
        seeing.value = np.array([s])
        seeing.generation_time = t
        step(o, t)
        tile = k // every
        sq = made[7 + tile // (m * m), 20.0]
        r, c = divmod(tile % (m * m), m)
        a = sq[r * n:(r + 1) * n, c * n:(c + 1) * n] * (600.0 / (2 * np.pi)) * (0.5 / (r0_of(s, am) * 1.2 ** 1.2)) ** (5. / 6.)
        for w in names:
            pre = 'out_' if w is None else f'out_{w}_'
            l, f = o.outputs[pre + 'layer'], o.outputs[pre + 'ef']
            e.eq('tile of the screen', l.phaseInNm, a, tol=1e-9)
            e.eq('the field is the layer', f.phaseInNm, l.phaseInNm)
            e.eq('pupil', (l.A, f.A), (stop.A, stop.A))
            e.eq('refreshed', (l.generation_time, f.generation_time, l.height), (t, t, 5.0))
    e.raises('bad seed', ValueError, lambda: AtmoRandomPhase(sp, pixel_phasescreens=N, seed=0))
    e.raises('screens too small', ValueError, lambda: AtmoRandomPhase(sp, pixel_phasescreens=n - 1))


PROP = [PR + f for f in ('__init__', 'setup', 'setup_interpolators', 'prepare_trigger', 'trigger_code', 'post_trigger', 'compute_chromatic_shifts')]


def layer(e, k, n, pitch, height, amp=True, **kw):
    l = Layer(n, n, pitch, height, **kw)
    if amp:
        l.A[:] = e.array(f'A{k}', (n, n), lo=0, hi=1)
    l.phaseInNm[:] = e.array(f'P{k}', (n, n))
    return l


def refresh(layers, t):
    for l in layers:
        l.generation_time = t


@harness('C19', funcs=PROP, trials=60)
def along_the_axis(e):
    """On axis and on the ground: product of amplitudes and sum of phases of the central parts of the layers."""
    n = e.dim('n', 2)
    a, b = 0, e.dim('b', 0)
    up = e.flag('upwards')
    sp = SimulParams(pixel_pupil=n, pixel_pitch=0.1)
    src = {'s1': Source([0.0, 0.0], 5, 600, zero_point=1e9), 's2': Source([0.0, 30.0], 6, 500, zero_point=1e9)}
    o = AtmoPropagation(sp, src, upwards=up)
    ls = [layer(e, 0, n, 0.1, 0.0), layer(e, 1, n + 2 * a, 0.1, 0.0)]
    atm = [layer(e, 2, n + 2 * b, 0.1, 5000.0)]
    # fields of an earlier step do not matter
    for k in src:
        o.outputs[f'out_{k}_ef'].phaseInNm[:] = e.array('old ' + k, (n, n))
    wire(o, common_layer_list=ls, atmo_layer_list=atm)
    refresh(ls + atm, 1)
    o.setup()
    step(o, 1)
    for k, s in src.items():
        f = o.outputs[f'out_{k}_ef']
        e.eq_fn('amplitude', f.A, (n, n), lambda i, j: ls[0].A[i, j] * ls[1].A[a + i, a + j] * atm[0].A[b + i, b + j])
        e.eq_fn('phase', f.phaseInNm, (n, n), lambda i, j: ls[0].phaseInNm[i, j] + ls[1].phaseInNm[a + i, a + j] + atm[0].phaseInNm[b + i, b + j])
        e.eq('refreshed', f.generation_time, 1)
        e.eq('photons', f.S0, s.phot_density())


@harness('C19', funcs=PROP + [PR + 'layer_interpolator'], trials=60)
def footprint(e):
    """The part of a layer crossed by the light of a source: direction, height, cone, pupil position, misalignment."""
    n, m, pitch = 4, e.choice('layer', [8, 10]), 0.5
    c = e.choice('case', ['off axis', 'cone', 'pupil', 'pupil+cone', 'shift', 'rotated'] + ([] if e.symbolic else ['zenith']))
    zen = 60.0 if c == 'zenith' else 0.0
    am = 1 / np.cos(np.radians(zen))
    h = 5000.0 / am
    H = 20000.0 if 'cone' in c else float('inf')
    pp = [0.3, -0.2] if 'pupil' in c else None
    kw = {'shift': dict(shiftXYinPixel=(0.5, -0.25)), 'rotated': dict(rotInDeg=90.0)}.get(c, {})
    r, phi = (0.0, 0.0) if c in ('shift', 'rotated') else (12.0, 90.0)
    s = Source([r, phi], 5, 600, height=H, zero_point=1e9)
    o = AtmoPropagation(SimulParams(pixel_pupil=n, pixel_pitch=pitch, zenithAngleInDeg=zen), {'s': s}, pupil_position=pp)
    l = layer(e, 0, m, pitch, h, **kw)
    g = layer(e, 1, n, pitch, 0.0)
    wire(o, common_layer_list=[g], atmo_layer_list=[l])
    refresh([l, g], 1)
    o.setup()
    step(o, 1)
    rr, ph = r * np.pi / 180 / 3600, np.radians(phi)
    d = np.array([np.cos(ph), np.sin(ph)])
    off = rr * h * am / pitch * d
    if pp is not None:
        p = np.array(pp) / pitch
        off = off + p if np.isinf(H) else (rr * H * am / pitch * d - p) * h / H + p
    cone = 1.0 if np.isinf(H) else (H - h) / H
    sh = kw.get('shiftXYinPixel', (0.0, 0.0))
    f = o.outputs['out_s_ef']
    top = m - 1
    cl = lambda v: e.ite(v < 0, 0, e.ite(v > top, top, v))
    Pb, Ab = e.bilinear(l.phaseInNm), e.bilinear(l.A)
    for i in range(n):
        for j in range(n):
            x, y = cone * (j - (n - 1) / 2), cone * (i - (n - 1) / 2)
            if c == 'rotated':
                # turned about the centre
                a = (-90.0) % 360 * e.np.pi / 180.0
                x, y = x * e.np.cos(a) - y * e.np.sin(a), x * e.np.sin(a) + y * e.np.cos(a)
            x, y = cl(x + (m - 1) / 2 - sh[0] + off[0]), cl(y + (m - 1) / 2 - sh[1] + off[1])
            e.eq('phase at the footprint', f.phaseInNm[i, j], Pb(y, x) + g.phaseInNm[i, j], tol=1e-4)
            e.eq('amplitude at the footprint', f.A[i, j], Ab(y, x) * g.A[i, j], tol=1e-4)


@harness('C19', funcs=PROP + [PR + 'layer_interpolator'], trials=60)
def layers_apart(e):
    """Without merging, one field for every layer (in the order of propagation) instead of their product."""
    n = 4
    sp = SimulParams(pixel_pupil=n, pixel_pitch=0.1)
    up = e.flag('upwards')
    o = AtmoPropagation(sp, {'s': Source([0.0, 0.0], 5, 600, zero_point=1e9)}, mergeLayersContrib=False, upwards=up)
    g, a = layer(e, 0, n, 0.1, 0.0), layer(e, 1, n + 2, 0.1, 1000.0)
    wire(o, common_layer_list=[g], atmo_layer_list=[a])
    refresh([g, a], 1)
    o.setup()
    fs = o.outputs['out_s_ef']
    e.eq('one field for every layer', len(fs), 2)
    for t in (1, 2):
        refresh([g, a], t)
        step(o, t)
        one, two = (fs[0], fs[1]) if up else (fs[1], fs[0])
        e.eq('ground layer', (one.A, one.phaseInNm), (g.A, g.phaseInNm))
        e.eq('high layer', (two.A, two.phaseInNm), (a.A[1:-1, 1:-1], a.phaseInNm[1:-1, 1:-1]))
        e.eq('refreshed', [f.generation_time for f in fs], [t, t])


@harness('C19', funcs=PROP + [PR + 'layer_interpolator', 'lib/utils.py:local_mean_rebin'], mode='test', trials=80)
def magnified_layer(e):
    """A magnified layer is filled outside its amplitude with local means and stretched about its centre."""
    m = e.choice('size', [6, 8, 10, 9])
    mag = e.choice('magnification', [1.5, 2.0])
    n = 4 if m % 2 == 0 else 5
    o = AtmoPropagation(SimulParams(pixel_pupil=n, pixel_pitch=0.1), {'s': Source([0.0, 0.0], 5, 600, zero_point=1e9)})
    l = layer(e, 0, m, 0.1, 0.0, amp=False, magnification=mag)
    l.A[:] = np.asarray(e.array('mask', (m, m), kind='b'))
    l.A[m // 2, m // 2] = 1
    A, P = l.A.copy(), l.phaseInNm.copy()
    wire(o, common_layer_list=[l])
    refresh([l], 1)
    o.setup()
    step(o, 1, frame=False)
    b = [d for d in (5, 4, 3, 2) if m % d == 0][0]
    for i in range(m):
        for j in range(m):
            if not A[i, j]:
                y, x = i // b * b, j // b * b
                k = A[y:y + b, x:x + b] != 0
                P[i, j] = P[y:y + b, x:x + b][k].mean() if k.any() else P[A != 0].mean()
    f = o.outputs['out_s_ef']
    Ab = e.bilinear(A)
    for i in range(n):
        for j in range(n):
            x, y = (j - (n - 1) / 2) / mag + (m - 1) / 2, (i - (n - 1) / 2) / mag + (m - 1) / 2
            e.eq('amplitude stretched', f.A[i, j], Ab(y, x), tol=1e-5)
            e.eq('phase stretched', f.phaseInNm[i, j], e.bilinear(P)(y, x), tol=1e-5)


@harness('C19', funcs=[PR + f for f in ('compute_chromatic_shifts', '_pressure_nasa', 'layer_interpolator')], mode='test', trials=60)
def chromatic_shift(e):
    """Light of another wavelength crosses high layers displaced along y."""
    n, m, pitch = 4, 10, 0.05
    z = e.choice('zenith', [0.0, 20.0, 45.0])
    alt, h = e.choice('heights', [(0.0, 5000.0), (3000.0, 9000.0), (2635.0, 12000.0)])
    wl, ref = e.choice('wavelengths', [(500.0, 500.0), (500.0, 2200.0), (1650.0, 600.0)])
    s = Source([0.0, 0.0], 5, wl, zero_point=1e9)
    o = AtmoPropagation(SimulParams(pixel_pupil=n, pixel_pitch=pitch, zenithAngleInDeg=z), {'s': s}, telescope_altitude_m=alt,
                        enable_chromatic_effect=True, chromatic_reference_wavelengthInNm=ref, pupil_position=[0.0, 0.0])
    l = layer(e, 0, m, pitch, h)
    g = layer(e, 1, n, pitch, 0.0, amp=False)
    g.phaseInNm[:] = 0
    wire(o, common_layer_list=[g], atmo_layer_list=[l])
    refresh([l, g], 1)
    o.setup()
    step(o, 1)

    def press(x):
        if x < 11000:
            return 1012.9 * ((288.08 - 0.00649 * x) / 288.08) ** 5.256
        return 226.5 * math.exp(1.73 - 0.000157 * x) if x < 25000 else 24.88 * ((141.94 + 0.00299 * x) / 216.6) ** -11.388
    air = MatharAirRefraction()
    dn = air.get_refractive_index(ref * 1e-9) - air.get_refractive_index(wl * 1e-9)
    zr = math.radians(z)
    b0 = dn / math.cos(zr) * math.tan(zr) * press(alt) * 100 / (9.8 * 1.225)
    d = b0 * (1 - press(alt + h) / press(alt)) / pitch
    P = e.bilinear(l.phaseInNm)
    cl = lambda v: min(max(v, 0), m - 1)
    for i in range(n):
        for j in range(n):
            e.eq('displaced footprint', o.outputs['out_s_ef'].phaseInNm[i, j],
                 P(cl(i - (n - 1) / 2 + (m - 1) / 2 + d), cl(j - (n - 1) / 2 + (m - 1) / 2)), tol=1e-5)


@harness('C19', funcs=PROP + [PR + f for f in ('doFresnel_setup', 'field_propagator', 'physical_propagation')], mode='test', trials=60)
def physical_propagation(e):
    """Angular spectrum between the layers, from the source to the pupil or upwards."""
    n, pad, up = 4, e.choice('padding', [1, 2]), e.flag('upwards')
    wl, pitch = 800.0, 0.02
    hs = [0.0, 3.0, e.choice('second', [3.0, 7.0])]
    H = 12.0
    o = AtmoPropagation(SimulParams(pixel_pupil=n, pixel_pitch=pitch), {'s': Source([0.0, 0.0], 5, 600, height=H, zero_point=1e9)},
                        doFresnel=True, wavelengthInNm=wl, padding_factor=pad, upwards=up, pupil_position=None)
    ls = [layer(e, k, n, pitch, 0.0) for k, h in enumerate(hs)]
    for l, h in zip(ls, hs):
        l.height = h
    wire(o, common_layer_list=ls[:1], atmo_layer_list=ls[1:])
    refresh(ls, 1)
    o.setup()
    N = n * pad
    fx = (np.arange(N) - N // 2) / (N * pitch)
    f2 = fx[None, :] ** 2 + fx[:, None] ** 2

    def travel(u, d):
        if d == 0:
            return u
        p = np.zeros((N, N), complex)
        k = (N - n + 1) // 2
        p[k:k + n, k:k + n] = u
        F = np.fft.fftshift(np.fft.fft2(p)) * np.exp(-1j * np.pi * d * wl * 1e-9 * f2)
        return np.fft.ifft2(np.fft.ifftshift(F))[k:k + n, k:k + n]
    step(o, 1)
    crossed = [part(e, o, l) for l in ls]
    u = np.ones((n, n), complex)
    order = list(range(3)) if up else [2, 1, 0]
    for q, k in enumerate(order):
        A, P = crossed[k]
        u = u * A * np.exp(2j * np.pi * P / wl)
        nxt = hs[order[q + 1]] if q < 2 else (H if up else 0.0)
        u = travel(u, abs(nxt - hs[k]))
    f = o.outputs['out_s_ef']
    e.eq('field', f.A * np.exp(2j * np.pi * f.phaseInNm / wl), u, tol=1e-6)
    bad = e.choice('bad', ['infinite', 'order', 'padding', 'band'])
    mk = lambda **k: AtmoPropagation(SimulParams(pixel_pupil=n, pixel_pitch=pitch),
                                     {'s': Source([0.0, 0.0], 5, 600, height=k.pop('H', H), zero_point=1e9)}, doFresnel=True, **k)
    if bad in ('padding', 'band'):
        e.raises('bad settings', ValueError, lambda: mk(**{'padding': dict(padding_factor=0.5), 'band': dict(band_limit_factor=1.5)}[bad]))
    else:
        q = mk(H=float('inf') if bad == 'infinite' else H)
        wire(q, common_layer_list=[ls[0]], atmo_layer_list=[ls[2], ls[1]] if bad == 'order' else ls[1:])
        if bad == 'infinite' or hs[2] != hs[1]:
            e.raises('not possible', ValueError, q.setup)


def part(e, o, l):
    """Amplitude and phase met by the light in a layer (its footprint, contract: footprint)."""
    it = [i for s in o.interpolators.values() for k, i in s.items() if k is l][0]
    return (l.A, l.phaseInNm) if it is None else (it.interpolate(l.A), it.interpolate(l.phaseInNm))


@harness('C19', funcs=PROP + [PR + 'layer_interpolator'], trials=40)
def impossible_geometry(e):
    n, pitch = 4, 0.5
    sp = SimulParams(pixel_pupil=n, pixel_pitch=pitch)
    bad = e.choice('bad', ['outside', 'below', 'no layer', 'no source', 'position', 'chromatic', 'chromatic2'])
    s = Source([60.0, 0.0] if bad == 'outside' else [0.0, 0.0], 5, 600, height=1000.0 if bad == 'below' else float('inf'), zero_point=1e9)
    if bad == 'no source':
        e.raises(bad, ValueError, lambda: AtmoPropagation(sp, {}))
        return
    kw = {'position': dict(pupil_position=[1.0]), 'chromatic': dict(enable_chromatic_effect=True, telescope_altitude_m=1.0),
          'chromatic2': dict(enable_chromatic_effect=True, chromatic_reference_wavelengthInNm=500.0)}.get(bad)
    if kw:
        e.raises(bad, ValueError, lambda: AtmoPropagation(sp, {'s': s}, **kw))
        return
    o = AtmoPropagation(sp, {'s': s})
    ls = [] if bad == 'no layer' else [layer(e, 0, 6, pitch, 5000.0)]
    wire(o, common_layer_list=[], atmo_layer_list=ls)
    e.raises(bad, ValueError, o.setup)


INF = 'processing_objects/atmo_infinite_evolution.py:AtmoInfiniteEvolution.'
IUD = 'processing_objects/atmo_infinite_evolution_up_down.py:AtmoInfiniteEvolutionUpDown.'


class Endless:
    """An endless screen, by contract: every new line enters on one side and the opposite one leaves."""
    env = None
    made = {}

    def __init__(self, mx_size, pixel_scale, r0, L0, random_seed=None, xp=None, target_device_idx=None, precision=None):
        self.n, self.seed, self.r0, self.k = int(mx_size), int(random_seed), r0, 0
        self.full_scrn = Endless.env.array(f'screen{self.seed}', (self.n + 1, self.n + 1))
        Endless.made[self.seed] = self.full_scrn
        self.random_data_col = self.random_data_row = None

    @staticmethod
    def line(e, seed, k, n):
        if (seed, k) not in Endless.made:
            Endless.made[seed, k] = e.array(f'line{seed}_{k}', (n + 1,))
        return Endless.made[seed, k]

    def add_line(self, row, after, flush=True):
        e = Endless.env
        self.full_scrn = entered(e, self.full_scrn, Endless.line(e, self.seed, self.k, self.n), row, after)
        if flush:
            self.k += 1

    scrnRaw = property(lambda self: self.full_scrn[:self.n, :self.n])
    scrnRawAll = property(lambda self: self.full_scrn)


def entered(e, a, l, row, after):
    m = a.shape[0]
    if row:
        return e.mk((m, m), (lambda i, j: e.ite(j == m - 1, l[i], a[i, (j + 1) % m])) if after else (lambda i, j: e.ite(j == 0, l[i], a[i, (j - 1) % m])))
    return e.mk((m, m), (lambda i, j: e.ite(i == m - 1, l[j], a[(i + 1) % m, j])) if after else (lambda i, j: e.ite(i == 0, l[j], a[(i - 1) % m, j])))


@harness('C19', funcs=[INF + f for f in ('__init__', 'initScreens', 'setup', 'prepare_trigger', 'trigger_code', '_process_propagation_direction')],
         trials=60)
def endless_flow(e):
    """Endless screens: one new line for every pixel travelled, fractions by interpolation with the next line."""
    Endless.env, Endless.made = e, {}
    e.setattr(m_inf, 'InfinitePhaseScreen', Endless)
    turns, w1, w2, x = e.choice('case', [([0, 90], [0.65, 0.85], [0.5, 1.4], 0.0), ([180, 270], [0.4, 1.1], [1.0, 0.2], 0.0), ([0, 180], [1.0, 2.0], [1.0, 2.0], 0.1),
                                         ([270, 0], [0.8, 0.3], [1.25, 0.3], 0.25), ([90, 180], [0.7, 0.0], [0.3, 0.8], 0.0)])
    if not e.symbolic:
        w1, w2 = [e.real('w1a', 0, 2), e.real('w1b', 0, 2)], [e.real('w2a', 0, 2), e.real('w2b', 0, 2)]
    n, pitch, nl = 2, 0.5, 2
    cn2 = [0.3, 0.7]
    zen = e.choice('zenith', [None] if e.symbolic else [None, 60.0])
    am = 1.0 if zen is None else 1 / math.cos(math.radians(zen))
    o = AtmoInfiniteEvolution(SimulParams(pixel_pupil=n, pixel_pitch=pitch, zenithAngleInDeg=zen), L0=[20.0, 10.0], heights=[0.0, 1000.0], Cn2=cn2, seed=3, extra_delta_time=x)
    seeing, ws, wd = val([0.9]), val(np.array(w1)), val(np.array(turns, float))
    wire(o, seeing=seeing, wind_speed=ws, wind_direction=wd)
    o.setup()
    scr = [Endless.made[3 + k] for k in range(nl)]
    used, acc, done, pos, last = [0] * nl, [0.0] * nl, [0.0] * nl, [0.0] * nl, 0
    for m, t in ((1, S), (2, 3 * S)):
        if m == 2:
            ws.value = np.array(w2)
        for v in (seeing, ws, wd):
            v.generation_time = t
        step(o, t)
        scale = (0.9 / 1) ** (5. / 6.) * 500.0 / (2 * np.pi)
        for k in range(nl):
            w = ws.value[k]
            pos[k] += w * ((t - last) / S) / pitch
            eff = pos[k] + w * x / pitch
            rows, sgn = turns[k] in (0, 180), 1 if turns[k] in (0, 90) else -1
            f, whole = math.modf(sgn * (eff - done[k]) + acc[k])
            if abs(f) > 1 - 1e-9:
                f, whole = 0.0, whole + (1 if f > 0 else -1)
            done[k] = eff
            for _ in range(int(abs(round(whole)))):
                scr[k] = entered(e, scr[k], Endless.line(e, 3 + k, used[k], n), rows, whole > 0)
                used[k] += 1
            acc[k] = f
            want = scr[k][:n, :n]
            if abs(f) > 1e-4:
                nxt = entered(e, scr[k], Endless.line(e, 3 + k, used[k], n), rows, f > 0)
                want = abs(f) * nxt[:n, :n] + (1 - abs(f)) * want
            l = o.outputs['layer_list'][k]
            e.eq('moved screen', l.phaseInNm, want * scale * np.sqrt(cn2[k]), tol=1e-6)
            e.eq('uniform amplitude', l.A, np.ones((n, n)))
            e.eq('height and time', (l.height, l.generation_time), (1000.0 * k, t))
        last = t


@harness('C19', funcs=[IUD + f for f in ('__init__', 'trigger_code', '_save_phase_screen_states', '_restore_phase_screen_states')], mode='test', trials=20)
def endless_up_and_down(e):
    """The two lists of layers show the same atmosphere: they agree when their times do."""
    Endless.env, Endless.made = e, {}
    e.setattr(m_inf, 'InfinitePhaseScreen', Endless)
    x = e.choice('ahead', [0.0, 0.5, 1.0])
    o = AtmoInfiniteEvolutionUpDown(SimulParams(pixel_pupil=2, pixel_pitch=0.5), L0=[20.0], heights=[0.0], Cn2=[1.0],
                                    extra_delta_time_down=x, extra_delta_time_up=x, seed=3)
    w = e.choice('wind', [0.0, 0.5, 1.5])
    seeing, ws, wd = val([0.9]), val(np.array([w])), val(np.array([0.0]))
    wire(o, seeing=seeing, wind_speed=ws, wind_direction=wd)
    o.setup()
    for v in (seeing, ws, wd):
        v.generation_time = S
    step(o, S)
    a, b = o.outputs['layer_list_down'][0], o.outputs['layer_list_up'][0]
    e.ensure('up and down layers of equal times agree', abs(a.phaseInNm - b.phaseInNm).max() < 1e-6)


@harness('C19', funcs=['data_objects/infinite_phase_screen.py:InfinitePhaseScreen.' + f for f in ('__init__', 'setup', 'add_line', 'get_new_line')], mode='test', trials=12)
def endless_screen(e):
    """Each new line moves the screen by one pixel and keeps the others; equal seeds give equal screens."""
    if 'real' not in KEPT:
        KEPT['real'] = InfinitePhaseScreen(8, 0.1, 0.15, 20.0, random_seed=3), InfinitePhaseScreen(8, 0.1, 0.15, 20.0, random_seed=3)
        KEPT['rms'] = [(np.diff(KEPT['real'][0].full_scrn, axis=a) ** 2).mean() for a in (0, 1)]
    a, b = [copy.copy(o) for o in KEPT['real']]
    for o in (a, b):
        o.rng, o.full_scrn = copy.deepcopy(o.rng), np.array(o.full_scrn)
    n = e.int('steps', 1, 6)
    for k in range(n):
        row, after = e.int(f'row{k}', 0, 1), e.int(f'after{k}', 0, 1)
        was = np.array(a.full_scrn)
        keep = e.int(f'keep{k}', 0, 1)
        if not keep:
            # a trial line, not kept: the real line comes out the same
            a.add_line(row, after, False)
            trial = np.array(a.full_scrn)
            a.full_scrn = was
        a.add_line(row, after)
        b.add_line(row, after)
        now = np.array(a.full_scrn)
        if not keep:
            e.eq('trial line', now, trial)
        e.eq('size', now.shape, was.shape)
        x, y = (was, now) if row == 0 else (was.T, now.T)
        e.eq('the screen moves by one pixel', y[:-1] if after else y[1:], x[1:] if after else x[:-1])
        d = y[-1] - y[-2] if after else y[0] - y[1]
        r = (d ** 2).mean() / KEPT['rms'][row]
        e.ensure('the new line continues the screen', 0.4 < r < 2.5)
        e.eq('equal seeds, equal screens', now, b.full_scrn)
    e.eq('published part', a.scrn, a.full_scrn[:8, :8])


KEPT = {}


@harness('C19', funcs=['processing_objects/phase_screen_cube.py:PhaseScreenCube.' + f for f in ('__init__', 'initScreens', 'prepare_trigger', 'trigger_code')],
         mode='test', trials=80)
def screen_cube(e):
    """Screens from a file: linear interpolation in time, resampling from its pixels to those of the pupil."""
    n, m, ps = e.choice('sizes', [(4, 4, 0.5), (4, 8, 0.25), (4, 6, 0.5), (2, 6, 0.25)])
    pitch, T = 0.5, 3
    tv = np.array([0.0, 0.5, 2.0])
    c = e.array('cube', (T, m, m))
    sf = e.choice('scale', [1.0, -2.0])
    sp = SimulParams(pixel_pupil=n, pixel_pitch=pitch)
    o = PhaseScreenCube(sp, SpatioTempArray(c.copy(), tv, time_axis=0), ps, scale_factor=sf, layer_height=3.0)
    stop = Pupilstop(sp, input_mask=np.ones((n, n)))
    stop.generation_time = 0
    wire(o, pupilstop=stop)
    o.setup()
    k = 0
    for t in (S // 4, S, 3 * S // 2):
        stop.generation_time = t
        step(o, t)
        s = t / S
        k = int(np.searchsorted(tv, s, side='right')) - 1
        f = (s - tv[k]) / (tv[k + 1] - tv[k])
        img = sf * ((1 - f) * c[k] + f * c[k + 1])
        l = o.outputs['out_layer']
        q = Interp2D((m, m), (n, n), magnification=m / n * ps / pitch, dtype=np.float64)
        e.eq('screen of the moment', l.phaseInNm, q.interpolate(img), tol=1e-6)
        e.eq('the field is the layer', o.outputs['out_ef'].phaseInNm, l.phaseInNm)
        e.eq('refreshed', (l.generation_time, o.outputs['out_ef'].generation_time, l.height), (t, t, 3.0))
    e.raises('beyond the last screen', ValueError, lambda: o.check_ready(5 * S) or o.prepare_trigger(5 * S))


@harness('C19', funcs=['lib/calc_phasescreen.py:calc_phasescreen', 'lib/phasescreen_manager.py:phasescreens_manager'], mode='test', trials=24)
def turbulence_screens(e):
    """von Karman spectrum for the outer scale, reproducible from the seed, and kept on disk."""
    n, pitch, sd = e.choice('size', [16, 32, 12]), e.choice('pitch', [0.1, 0.5]), e.int('seed', 1, 50)
    L1, L2 = 5.0, 40.0
    a, b = [np.asarray(calc_phasescreen(L, n, pitch, np, 0, seed=sd)) for L in (L1, L2)]
    N = 2 ** math.ceil(math.log2(n))
    e.eq('size', a.shape, (N, N))
    f = np.fft.fftfreq(N, pitch)
    f2 = f[None, :] ** 2 + f[:, None] ** 2
    F = lambda x, L: np.fft.fft2(x) * (f2 + 1 / L ** 2) ** (11. / 12.)
    e.eq('von Karman spectrum', F(a, L1), F(b, L2), tol=1e-9)
    e.ensure('another seed, another screen', abs(calc_phasescreen(L1, n, pitch, np, 0, seed=sd + 1) - a).max() > 1e-6)
    d = tempfile.mkdtemp()
    try:
        k = dict(seed=np.array([sd, sd + 1]), precision=0, xp=np)
        one = [np.array(x) for x in phasescreens_manager(np.array([L1]), n, pitch, d, **k)]
        two = [np.array(x) for x in phasescreens_manager(np.array([L1]), n, pitch, d, **k)]
        e.eq('screen of the seed', one[0], a, tol=1e-12)
        e.eq('screens kept on disk', two, one)
        o3 = [np.array(x) for x in phasescreens_manager(np.array([L2, L1]), n, pitch, d, **k)]
        e.eq('every outer scale its screen', o3, [b, one[1]], tol=1e-12)
        e.raises('mismatch', ValueError, lambda: phasescreens_manager(np.array([1.0, 2.0, 3.0]), n, pitch, d, **k))
    finally:
        shutil.rmtree(d)
