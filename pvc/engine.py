"""Path exploration of a contract harness, collection and discharge of its obligations."""
import os
import time
import traceback
from fractions import Fraction
import z3
from . import terms as T
from . import prover, ho, stubs
from .terms import CTX, Unsupported, PathEnd, Budget, zbool
from . import api
from .api import StaleHarness

REPO = os.environ.get('PVC_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONTRACTS = os.path.join(HERE, 'contracts')


class Failure(BaseException):
    """An obligation was not discharged; stop this harness."""


class Obl:
    """Obligations of the harness being run."""
    def __init__(self):
        self.start(None, None)

    def start(self, env, deadline, timeout=6.0):
        self.env = env
        self.recs = {}          # label -> dict(n, how{}, status)
        self.fails = []         # (label, status, inputs, reason)
        self.deadline = deadline
        self.timeout = timeout
        self.covered = set()

    def side(self, name, cond):
        self.ensure('side:' + name, cond)
        if cond is not True:
            CTX.assume(zbool(cond))

    def ensure(self, label, cond):
        rec = self.recs.setdefault(label, dict(n=0, proved=0, how={}, reached=False))
        rec['n'] += 1
        if cond is True:
            rec['proved'] += 1
            rec['how']['eval'] = rec['how'].get('eval', 0) + 1
            rec['reached'] = True
            return True
        g = z3.BoolVal(False) if cond is False else zbool(cond)
        CTX.need(g)
        r = prover.prove(list(CTX.pc), g, timeout=self.timeout, deadline=self.deadline)
        if r.status == 'proved':
            rec['proved'] += 1
            rec['how'][r.how] = rec['how'].get(r.how, 0) + 1
            rec['reached'] = True
            return True
        self.fail(label, r, g)
        return False

    def fail(self, label, r, g):
        inputs = None
        if r.model is not None:
            inputs = counter_inputs(self.env, list(CTX.pc), g, r.model)
        self.fails.append(dict(label=label, status=r.status, abstract=bool(r.abstract), inputs=inputs,
                               reason=r.reason, goal=str(z3.simplify(g))[:1500],
                               path=[str(d) for d, f in CTX.trace]))
        if len(self.fails) >= 3:
            raise Failure()


OBL = Obl()


# ---------------------------------------------------------------- counter models
def counter_inputs(env, pc, g, model):
    """Concrete values of the harness inputs under a model, minimised in size when possible."""
    if env is None:
        return None
    base = pc + [z3.Not(g)]
    apps = prover.ho_apps(base)
    ax = []
    for a in apps.values():
        ax += ho.axioms_for(a)
    ax += prover.real_fun_axioms(base)
    small = []
    for d in env.dim_terms:
        small.append(d)
    for k in (3, 5, 9):
        for tame in (True, False):
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*base)
            s.add(*ax)
            for d in small:
                s.add(d <= k)
            if tame:
                for t in env.real_terms:
                    s.add(t <= 50, t >= -50)
            if s.check() == z3.sat:
                try:
                    return env.extract(s.model())
                except ValueError:
                    pass
    try:
        return env.extract(model)
    except ValueError:
        return None


# ---------------------------------------------------------------- exception classification
def innermost(tb):
    """File of the innermost frame that belongs to the repo or to the contracts."""
    where = None
    for f in traceback.extract_tb(tb):
        fn = f.filename
        if fn.startswith(os.path.join(REPO, 'specula')):
            where = ('repo', f'{os.path.relpath(fn, REPO)}:{f.lineno} {f.name}')
        elif fn.startswith(CONTRACTS):
            where = ('contract', f'{os.path.basename(fn)}:{f.lineno} {f.name}')
        elif '/pvc/' in fn and where is not None and where[0] == 'repo' and False:
            pass
    return where or ('engine', '?')


def classify(e, poked=False):
    """'stale' | 'violation' for an unexpected exception."""
    kind, where = innermost(e.__traceback__)
    msg = f'{type(e).__name__}: {e} at {where}'
    if isinstance(e, StaleHarness) or isinstance(e, (ImportError, SyntaxError)):
        return 'stale', msg
    if poked and isinstance(e, AttributeError) and 'NoneType' not in str(e):
        return 'stale', msg      # the harness prepared internal state the code no longer uses
    if kind == 'repo':
        return 'violation', msg
    if kind == 'contract':
        s = str(e)
        if isinstance(e, AttributeError) and 'NoneType' not in s:
            return 'stale', msg
        if isinstance(e, TypeError) and ('argument' in s or 'required' in s):
            return 'stale', msg
        return 'violation', msg
    return 'stale', msg


# ---------------------------------------------------------------- exploration
def run_harness(h, mode='proof', deadline_s=60.0, max_paths=3000, timeout=6.0):
    """Explore every path of the harness; returns a JSON-able report."""
    from .env import SymEnv
    t0 = time.time()
    deadline = t0 + deadline_s
    CTX.deadline = deadline
    OBL.start(None, deadline, timeout)
    rep = dict(name=h.name, mode=mode, status='?', paths=0, reason='', funcs=h.opts['funcs'])
    prefix = []
    status = 'proved'
    exc_rec = None
    while prefix is not None:
        CTX.deadline = None
        CTX.reset(prefix)
        CTX.deadline = deadline
        stubs.FS.clear()
        stubs.DIRS.clear()
        env = SymEnv(mode)
        OBL.env = env
        done = False
        api.ENV[0] = env
        try:
            h.fn(env)
            rep['paths'] += 1
            done = True
        except PathEnd:
            pass
        except Failure:
            break
        except Budget as e:
            status, rep['reason'] = 'undecided', f'budget: {e}'
            break
        except Unsupported as e:
            if prover.prove(CTX.pc, False, timeout=2.0).status == 'proved':
                pass
            else:
                status, rep['reason'] = 'undecided', f'unsupported: {e} at {innermost(e.__traceback__)[1]}'
                rep['trace'] = traceback.format_exc()[-2500:]
                break
        except RecursionError as e:
            status, rep['reason'] = 'undecided', 'recursion'
            break
        except z3.Z3Exception as e:
            status, rep['reason'] = 'undecided', f'engine: {type(e).__name__}: {e}'
            rep['trace'] = traceback.format_exc()[-2500:]
            break
        except Exception as e:
            kind, msg = classify(e, env.poked)
            rep['trace'] = traceback.format_exc()[-2500:]
            # is the path feasible at all?
            r = prover.prove(CTX.pc, False, timeout=4.0)
            if r.status == 'proved':
                pass
            elif kind == 'stale':
                status, rep['reason'] = 'undecided', f'stale: {msg}'
                break
            else:
                OBL.recs.setdefault('no unexpected exception', dict(n=0, proved=0, how={}, reached=True))['n'] += 1
                try:
                    r.reason = msg
                    OBL.fail('no unexpected exception: ' + msg, r, z3.BoolVal(False))
                except Failure:
                    break
        finally:
            env.restore()
        if done and 'no unexpected exception' not in OBL.recs:
            OBL.recs['no unexpected exception'] = dict(n=0, proved=0, how={}, reached=True)
        if done:
            OBL.recs['no unexpected exception']['n'] += 1
            OBL.recs['no unexpected exception']['proved'] += 1
            OBL.recs['no unexpected exception']['how']['path'] = OBL.recs['no unexpected exception']['n']
        if rep['paths'] > max_paths:
            status, rep['reason'] = 'undecided', 'too many paths'
            break
        if time.time() > deadline:
            if next((1 for _ in [0] if T.next_prefix(CTX.trace) is not None), 0):
                status, rep['reason'] = 'undecided', 'deadline'
                break
        prefix = T.next_prefix(CTX.trace)
    rep['fails'] = OBL.fails
    if OBL.fails:
        status = 'failed'
    elif status == 'proved':
        n = sum(r['n'] for l, r in OBL.recs.items() if l != 'no unexpected exception')
        if n == 0 or rep['paths'] == 0:
            status, rep['reason'] = 'undecided', 'vacuous: no obligation reached'
    rep['status'] = status
    rep['obligations'] = {l: dict(n=r['n'], proved=r['proved'], how=r['how']) for l, r in OBL.recs.items()}
    rep['wall'] = time.time() - t0
    rep['solver'] = dict(prover.STATS)
    rep['assumed'] = sorted(CTX.assumed) if hasattr(CTX, 'assumed') else []
    return rep
