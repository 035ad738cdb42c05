"""DESIGN.md = tools/design_head.md + a section for each property (from props.py, contracts and the evidence of the last clean run)."""
import ast
import glob
import json
import os
import re
import sys

V = '/verif'
sys.path.insert(0, V + '/tools')
import props      # noqa: E402
import seeds      # noqa: E402

LIMITS = {
    'C01': ['Real time waiting (stepping, speed reports) is not observed.'],
    'C02': ['Graphs with feedback are covered through delayed connections only, as documented.',
            '`build_trigger_order` reports a cycle with a message that lacks its f-prefix (cosmetic, not repaired).'],
    'C06': ['Descriptions (YAML dictionaries) are enumerated to a stated size: strings and nested dictionaries of arbitrary size are outside the verifier; '
            'every harness of this property is bounded.',
            '`build_targeted_replay` drops the delay of a stored delayed input and `build_replay` refuses list or delayed inputs (TODO in the code): '
            'the statement excludes them. `data_store_to_data_source` requires an output key.'],
    'C07': ['In split mode the last, incomplete chunk is written by `finalize` only as far as the code documents; chunk histories are bounded.',
            'A DataSource publishing a BaseValue holds None until its first sample.'],
    'C08': ['Integrator and `from_gain_and_ff` do not accept a scalar gain; `set_gain` cannot raise a filter whose first gain is zero (preconditions).'],
    'C09': ['`get_poles`/`get_zeros` return reciprocals (pinned by existing tests), `lpf_from_fc` of order one is not bilinear: both kept as they are, outside the statement.'],
    'C11': ['`sub_ef` has an exclusive upper bound and x along rows (pinned by existing tests); `array_for_display` averages by rows.'],
    'C12': ['Fields that classes do not save by design of their format are outside the statement: M2C.norm_factor, PupData.slopes_from_intensity, '
            'LaserLaunchTelescope zenith distance, Recmat.modes2recLayer; Intmat without an interaction matrix drops a lone slope_mm.'],
    'C13': ['`Slopes.get2d` with a Fortran-ordered mask is a precondition.'],
    'C14': ['`PowerLoss.post_trigger` does not call its base class: its input bookkeeping is outside.'],
    'C15': ['The least squares unwrapping is compared at the interior pixels; the boundary defect is a known finding of its own harness.',
            'Modalrec and ModalAnalysis trim shared Recmat/IFunc objects at construction (recorded, not repaired: callers depend on it). '
            'With a list of slopes POLC checks the freshness of the first only.'],
    'C16': ['A command shorter than the one before leaves the remaining modes as they were (documented by the code: "first modes").'],
    'C17': ['Binning averages the block, as the code and its tests do. Clock-induced charge uses the unseeded global generator: its draw is not compared. '
            'Noise is compared with the same seeded draws as the code (an unknown fixed sequence in proofs).'],
    'C18': ['Zernike sensor dark frames need a non-zero mean; pyramid pixel lists padded with -1, `thr_ratio_value` and `store_thr_mask_cube` are attributes no constructor sets and are outside. '
            'Pyramid and curvature signals are single precision whatever the precision asked. An odd number of interleaved signals leaves the last one without reference.'],
    'C19': ['The wind direction convention of AtmoEvolution and AtmoInfiniteEvolution differs by 90 degrees (each is proved for its own convention). '
            'Oblique winds can give an interpolation weight above one in AtmoInfiniteEvolution (extrapolation, recorded). Magnification below one, negative pupil positions, '
            'extra times and phase cubes before their first sample are preconditions.'],
    'C20': ['The size of the padded grid is rounded to an even number while the pixel size uses the wanted one; an odd pupil without padding is a precondition.'],
    'C21': ['The x shift of EFInterpolator acts on rows (pinned by an existing test); extrapolation coefficients when a one-point direction precedes a two-point one are excluded.'],
    'C22': ['The spectrum of a random sequence is specified symbolically as the mirrored construction, and its power is checked concretely. '
            'Push-pull beyond its sequence is a precondition; frequency ranges span df..fs/2.'],
    'C23': ['`MultiImCalibrator` writes None.fits without a full tag (pinned by a test); slopes of several sensors are not checked for freshness.'],
    'C24': ['The double roof counts its focal plane twice (once for each roof), polychromatic pyramids are scaled to the full source flux, '
            'a tilt of a wavelength is n/(n-1) of the one asked (n pupil pixels): the proved formula is the one of the code. '
            'ExtSourcePyramid without stream appends four points to the array it receives.'],
    'C25': ['The history of the gain optimiser is unbounded; a Moffat fit may end at its bounds and still report success; LIFT is less accurate on odd grids '
            'and ignores fft_res: sizes are even in the harness. The detrending of the demodulator is specified as the code does it (constants are removed).'],
    'C26': ['special_last_petal turns the last petal into the whole mask: excluded. The m2c of a modal base without Zernikes is off by a few percent of '
            'piston-like terms (specified only for the Zernikes). Noise variances with slopes that are not a multiple of the sensors are a precondition. '
            'Spider arms are specified up to their half-pixel tracing.'],
    'C27': ['A three-dimensional source without focus_height has an infinite focus (None becomes infinity): a finite one is a precondition. '
            'Positions of subapertures in the noise covariance are those of their corner. Odd sizes of the frequency matrix are refused by numpy. '
            'The noise covariance with a sodium profile (Gaussian fit of simulated spots) is not covered.'],
}

FALSE_ALARMS = """
## False alarms met while building, and what was changed

* Harnesses that looked at internal names alarmed after refactorings: a missing attribute, a changed signature or import is now
  "stale" (a note), and only behaviour raises an alarm.
* A refuted obligation over opaque functions (FFT, pinv, interpolation) can have a counter-model no real function satisfies; a violation is
  reported only if it replays, or if the harness was discharged on the committed tree.
* C17 noise, C19 layer sizes, C20 grid parity, C21 shift axes, C22 spectrum ends: the first statement was stronger than what the code
  and its existing tests promise; the statement was corrected (see the limits above).
* Real-valued equality is compared with a tolerance relative to the magnitudes involved in the concrete runs (single precision outputs).
* Patches of module attributes made by a harness (a stub for an interpolator) leaked into the next harness; they are undone after every evaluation.
"""


def docs(pid):
    f = glob.glob(f'{V}/contracts/{pid.lower()}_*.py')
    res = {}
    for p in f:
        for n in ast.parse(open(p).read()).body:
            if isinstance(n, ast.FunctionDef):
                for d in n.decorator_list:
                    if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'harness':
                        mode = next((k.value.value for k in d.keywords if k.arg == 'mode'), 'proof')
                        res[n.name] = (mode, (ast.get_docstring(n) or '').split('\n')[0])
    return res


def main():
    out = [open(V + '/tools/design_head.md').read().rstrip(), '', '# Properties', '',
           'Times are those of the quick tier on eight cores. "Obligations" are discharged for all sizes and values, "bounded" ones for the smallest sizes; '
           '"tested" harnesses are evaluated on the real code with random inputs only and count for nothing else.', '']
    know = [l.strip() for l in open(V + '/KNOWN_FINDINGS.txt') if l.strip() and not l.startswith('#')]
    total = [0, 0, 0]
    for p in sorted(props.P, key=lambda q: q['id']):
        i = p['id']
        c = {}
        try:
            d = json.load(open(f'{V}/evidence/{i}.json'))
            c = d['coverage']
        except OSError:
            d = {}
        h = docs(i)
        out += [f'## {i}. {p["title"]}', '', p['statement'], '',
                f'*For all*: {p["text"]}. *Why beyond tests*: {p["why"]}', '']
        for mode, name in (('proof', 'Proved contracts'), ('bounded', 'Bounded contracts'), ('test', 'Tested on the real code')):
            hs = [(n, t) for n, (m, t) in h.items() if m == mode]
            if hs:
                out.append(f'*{name}*: ' + '; '.join(f'`{n}`' + (f' ({t.rstrip(".")})' if t else '') for n, t in hs) + '.')
                out.append('')
        if c:
            total[0] += len(c['functions_under_contract'])
            total[1] += c['discharged']
            total[2] += c.get('bounded_discharged', 0)
            out.append(f'{len(c["functions_under_contract"])} functions under contract, {c["discharged"]} obligations discharged, '
                       f'{c.get("bounded_discharged", 0)} bounded, {c["evaluations"]} evaluations of the contracts on the real code, {d["wall_s"]:.0f} s.')
            out.append('')
        lim = ([p['note']] if p['note'] else []) + LIMITS.get(i, [])
        if lim:
            out.append('*Limits*: ' + ' '.join(lim))
            out.append('')
        fixed = [l.split(None, 3)[2:] for l in know if l.startswith(f'fixed: property={i} ')]
        if fixed:
            out.append('*Defects repaired*: ' + '; '.join(f'{w} ({h_})' for h_, w in fixed) + '.')
            out.append('')
        for l in know:
            if l.startswith(f'finding: property={i} '):
                out.append('*Known finding*: ' + l.split('what=', 1)[1] + '.')
                out.append('')
    out += [f'Together: {total[0]} functions under contract (a function counts once for each property that constrains it), {total[1]} obligations, {total[2]} bounded ones.', '']
    out += ['# Not applicable', '', 'No listed property is claimed outside the technique. Left out as properties because no contract within reach decides them: GPU (cupy) and MPI execution, '
            'numerical accuracy of floating point (reals are exact here), speed, plots and displays, and the numerical content of third-party transforms and solvers.', '']
    out += [FALSE_ALARMS.strip(), '']
    out += ['## Planted changes', '', 'Every one builds, passes the existing tests, and is caught by the quick check of its property (`tools/plant.py verify`).', '',
            '| id | needs | breaks |', '|---|---|---|']
    for d in sorted(os.listdir(V + '/seeded')):
        m = json.load(open(f'{V}/seeded/{d}/meta.json'))
        out.append(f'| {d} | {m["needs"]} | {m["what_it_breaks"]} |')
    out += ['', '## Weaknesses of the code recorded, neither repaired nor alarmed', '',
            'Not small and safe to repair (documented or pinned behaviour, or a decision of the maintainers), and excluded by the statements: the limits above, and '
            'FocalPlaneFilter ignores fp_obsratio; ConvolutionKernel numbers its kernels by rows while one of its loops numbers by columns; '
            'IntMat.generate_rec ignores cut_modes (TODO); CCD cte_mat has the shape of the unbinned frame; DynamicPyrPupdataCalibrator keeps its frames after a failed measurement; '
            'GainOptimizer with a running mean never updates its spectrum; ModalrecImplicitPolc publishes without new slopes.', '']
    open(V + '/DESIGN.md', 'w').write('\n'.join(out))


main()
