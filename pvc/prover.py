"""Discharging of verification conditions."""
import os
import time
from fractions import Fraction
import z3
from . import terms as T
from . import ho
from .canon import Canon, Big

DEPTH = 4
STATS = {'queries': 0, 'time': 0.0, 'canon': 0, 'z3': 0, 'split': 0}


def ho_apps(ts, acc=None):
    """Ground (binder-free position) applications of higher-order symbols."""
    seen = set()
    out = acc if acc is not None else {}
    todo = list(ts)
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t) or z3.is_var(t):
            continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in ho.HO:
                out[i] = t
            todo.extend(t.children())
    return out


PI = T.const_pi() if hasattr(T, 'const_pi') else z3.Real('pi')
PI_LO, PI_HI = z3.RealVal('3.14159265'), z3.RealVal('3.14159266')


def real_fun_axioms(ts):
    """Axiom instances for sqrt/exp/sin/cos applications."""
    seen = set()
    out = []
    todo = list(ts)
    trig = {}
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen or z3.is_quantifier(t) or z3.is_var(t):
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in ho.FUN_FACTS:
                lo, hi = ho.FUN_FACTS[t.decl().name()]
                if lo is not None:
                    out.append(t >= z3.RealVal(str(lo)) if t.sort() == T.R else t >= lo)
                if hi is not None:
                    out.append(t <= z3.RealVal(str(hi)) if t.sort() == T.R else t <= hi)
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1:
                n = t.decl().name()
                x = t.arg(0)
                if n == 'sqrt':
                    out += [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)), z3.Implies(x > 0, t > 0)]
                elif n == 'exp':
                    out += [t > 0]
                elif n in ('sin', 'cos'):
                    out += [t <= 1, t >= -1]
                    trig.setdefault(x.get_id(), {})[n] = t
                    out += [PI_LO < PI, PI < PI_HI]
                    if n == 'sin':
                        out.append(z3.Implies(z3.And(x > 0, x < PI), t > 0))
                    else:
                        out.append(z3.Implies(z3.And(x > -PI / 2, x < PI / 2), t > 0))
                elif n == 'tan':
                    out += [PI_LO < PI, PI < PI_HI, z3.Implies(z3.And(x > 0, x < PI / 2), t > 0)]
            todo.extend(t.children())
    for d in trig.values():
        if len(d) == 2:
            out.append(d['sin'] * d['sin'] + d['cos'] * d['cos'] == 1)
    return out


class Result:
    __slots__ = ('status', 'model', 'abstract', 'how', 'reason', 'time')

    def __init__(self, status, model=None, abstract=False, how='', reason=''):
        self.status = status
        self.model = model
        self.abstract = abstract
        self.how = how
        self.reason = reason


def _solver(timeout):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    return s


def prove(pc, goal, timeout=6.0, depth=0, deadline=None):
    """Prove pc |- goal.  'proved' is sound; 'refuted' carries a model of the (possibly
    abstracted) negation; otherwise 'unknown'."""
    if isinstance(goal, bool):
        if goal:
            return Result('proved', how='trivial')
        goal = z3.BoolVal(False)
    t0 = time.time()
    try:
        r = _prove(pc, goal, timeout, depth, deadline)
    except z3.Z3Exception as e:
        r = Result('unknown', reason=f'z3: {e}')
    STATS['time'] += time.time() - t0
    STATS['queries'] += 1
    return r


def conj_list(t):
    if z3.is_and(t):
        r = []
        for c in t.children():
            r += conj_list(c)
        return r
    return [t]


def _prove(pc, goal, timeout, depth, deadline):
    g = z3.simplify(goal)
    if z3.is_true(g):
        return Result('proved', how='trivial')
    if deadline is not None and time.time() > deadline:
        return Result('unknown', reason='deadline')
    parts = conj_list(g)
    if len(parts) > 1 and depth == 0:
        for p in parts:
            r = _prove(pc, p, timeout, depth, deadline)
            if r.status != 'proved':
                return r
        return Result('proved', how='conj')
    if z3.is_implies(g):
        return _prove(list(pc) + conj_list(g.arg(0)), g.arg(1), timeout, depth, deadline)
    if z3.is_or(g):
        # a \/ b  ~  not a => b : keep the arithmetic equality as the goal when there is one
        ds = list(g.children())
        eqs = [d for d in ds if _arith_eq(d)]
        if len(eqs) == 1:
            return _prove(list(pc) + [z3.simplify(z3.Not(d)) for d in ds if not d.eq(eqs[0])], eqs[0], timeout, depth,
                          deadline)
    pc = list(pc)
    g2 = _simplify_quotients(pc, g)
    if g2 is not None:
        g = g2
        if z3.is_true(g):
            return Result('proved', how='z3')
    # 1. ring normalisation
    if _arith_eq(g) or True:
        r = _try_canon(pc, g)
        if r:
            STATS['canon'] += 1
            return Result('proved', how='canon')
    # 2. solver with axiom instances and congruence of higher-order terms
    facts = list(pc)
    gapps = ho_apps([g])
    if _arith_eq(g):
        a, b = g.arg(0), g.arg(1)
        if a.get_id() in gapps and b.get_id() in gapps and a.decl().eq(b.decl()) and depth < DEPTH:
            if ho_equal(pc, a, b, timeout, depth, deadline):
                STATS['cong'] = STATS.get('cong', 0) + 1
                return Result('proved', how='congruence')
        conds = ite_conds([g])
        if not gapps and 0 < len(conds) <= 8 and _split(pc, g, [], 1.0, deadline, quick=True):
            STATS['split'] += 1
            return Result('proved', how='split')
    apps = ho_apps([g] + pc)
    ax = []
    seen_ax = set()
    frontier = dict(apps)
    for _ in range(2):
        new = []
        for i, a in frontier.items():
            if i in seen_ax:
                continue
            seen_ax.add(i)
            new += ho.axioms_for(a)
        ax += new
        frontier = {i: a for i, a in ho_apps(new).items() if i not in seen_ax}
        if not frontier:
            break
    allapps = ho_apps([g] + pc + ax)
    ax += real_fun_axioms([g] + pc + ax)
    ax += sum_signs(pc, gapps)
    has_ho = bool(allapps) or bool(ax)
    s = _solver(min(timeout, 2.0) if (gapps and depth < DEPTH) else timeout)
    s.add(*facts)
    s.add(*ax)
    s.add(z3.Not(g))
    r = s.check()
    if r == z3.unsat:
        STATS['z3'] += 1
        return Result('proved', how='z3')
    model = s.model() if r == z3.sat else None
    eqs = []
    if gapps and depth < DEPTH:
        eqs = zero_sums(pc, gapps, timeout, depth, deadline)
        eqs += congruences(pc, allapps, gapps, timeout, depth, deadline)
        # universal instances of extrema at each other's witnesses
        uni = []
        ext = [a for a in allapps.values() if ho.HO[a.decl().name()]['kind'] in ('MAX', 'MIN', 'EXISTS')]
        for a in ext:
            for b in ext:
                nd = ho.HO[b.decl().name()]['groups'][0][0]
                nda = ho.HO[a.decl().name()]['groups'][0][0]
                if nd == nda:
                    args = [b.arg(i) for i in range(b.num_args())]
                    w = [T.uf(f'{b.decl().name()}@w{j}', *[x.sort() for x in args], T.I)(*args) for j in range(nd)]
                    uni += ho.universal_for(a, w)
            for idx in _index_candidates(pc + [g], nda):
                uni += ho.universal_for(a, idx)
        if eqs or uni:
            s = _solver(timeout)
            s.add(*facts)
            s.add(*ax)
            s.add(*eqs)
            s.add(*uni)
            s.add(z3.Not(g))
            r = s.check()
            if r == z3.unsat:
                STATS['z3'] += 1
                return Result('proved', how='z3+cong')
            if r == z3.sat:
                model = s.model()
            # canonical form modulo the derived equalities
            if eqs and _try_canon(pc, g, eqs):
                return Result('proved', how='canon+cong')
    # 3. split on if-conditions
    r2 = _split(pc, g, ax + eqs, timeout, deadline)
    if r2 is True:
        STATS['split'] += 1
        return Result('proved', how='split')
    if r == z3.sat:
        return Result('refuted', model=model, abstract=has_ho)
    # 4. other tactics
    r4 = _other(pc, g, ax + eqs, timeout)
    if r4 is not None:
        return r4
    return Result('unknown', reason=str(s.reason_unknown()), abstract=has_ho)


_QUOT = {}


def _has_var(t, memo):
    i = t.get_id()
    if i not in memo:
        memo[i] = z3.is_var(t) or z3.is_quantifier(t) or any(_has_var(c, memo) for c in t.children())
    return memo[i]


def _quotient(pc, a, b):
    """(q, r) with a = b*q + r and 0 <= r < b provable from pc, found by reading a as a polynomial in b; None otherwise."""
    terms = a.children() if z3.is_add(a) else [a]
    qs, rs = [], []
    for m in terms:
        fs = list(m.children()) if z3.is_mul(m) else [m]
        hit = next((k for k, f in enumerate(fs) if f.eq(b)), None)
        if hit is None:
            rs.append(m)
        else:
            fs.pop(hit)
            x = z3.IntVal(1)
            for f in fs:
                x = f if z3.is_int_value(x) and x.as_long() == 1 else x * f
            qs.append(x)
    q = sum(qs[1:], qs[0]) if qs else z3.IntVal(0)
    r = sum(rs[1:], rs[0]) if rs else z3.IntVal(0)
    for dq in (0, 1, -1):
        s = _solver(0.4)
        s.add(*pc)
        s.add(z3.Not(z3.And(0 <= r - dq * b, r - dq * b < b)))
        if s.check() == z3.unsat:
            return z3.simplify(q + dq), z3.simplify(r - dq * b)
    return None


def _simplify_quotients(pc, g):
    """Goal with the quotients and remainders replaced that the assumptions determine (None: nothing to replace)."""
    found, memo, seen = [], {}, set()

    def walk(t):
        i = t.get_id()
        if i in seen:
            return
        seen.add(i)
        if z3.is_quantifier(t):
            walk(t.body())
            return
        for c in t.children():
            walk(c)
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(t.arg(1)) and not _has_var(t, memo):
            found.append(t)
    walk(g)
    if not found or len(found) > 40:
        return None
    changed = None
    key0 = tuple(c.get_id() for c in pc)
    for t in found:
        a, b = t.arg(0), t.arg(1)
        key = (a.get_id(), b.get_id(), key0)
        if key not in _QUOT:
            _QUOT[key] = (_quotient(pc, a, b), a, b, pc)
        qr = _QUOT[key][0]
        if qr is not None:
            new = qr[0] if t.decl().kind() == z3.Z3_OP_IDIV else qr[1]
            changed = z3.substitute(g if changed is None else changed, (t, new))
    return None if changed is None else z3.simplify(changed)


def _other(pc, g, ax, timeout):
    try:
        s = z3.Then('simplify', 'solve-eqs', 'smt').solver()
        s.set('timeout', int(timeout * 1000))
        s.add(*pc)
        s.add(*ax)
        s.add(z3.Not(g))
        r = s.check()
        if r == z3.unsat:
            return Result('proved', how='z3-tactic')
        if r == z3.sat:
            return Result('refuted', model=s.model(), abstract=bool(ax))
    except z3.Z3Exception:
        pass
    return cvc5_prove(pc + ax, g, timeout)


def cvc5_prove(facts, g, timeout):
    try:
        import cvc5
    except ImportError:
        return None
    try:
        s = z3.Solver()
        s.add(*facts)
        s.add(z3.Not(g))
        txt = s.to_smt2()
        if 'lambda' in txt:
            return None
        slv = cvc5.Solver()
        slv.setOption('tlimit', str(int(timeout * 1000)))
        slv.setLogic('ALL')
        sm = cvc5.SymbolManager(slv)
        p = cvc5.InputParser(slv, sm)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'vc')
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            if 'unsat' in str(o):
                return Result('proved', how='cvc5')
    except Exception:
        return None
    return None


def _arith_eq(t):
    return z3.is_app_of(t, z3.Z3_OP_EQ) and t.arg(0).sort() in (T.R, T.I)


def _index_candidates(ts, nd):
    """Integer constants (fresh indices) occurring in the query, as candidate instances."""
    seen = set()
    out = {}
    todo = list(ts)
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen or z3.is_quantifier(t) or z3.is_var(t):
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.num_args() == 0 and t.sort() == T.I and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in t.decl().name():
                out[i] = t
            todo.extend(t.children())
    c = list(out.values())
    if nd == 1:
        return [[x] for x in c[:8]]
    if nd == 2:
        return [[x, y] for x in c[:5] for y in c[:5] if not x.eq(y)]
    return []


_NZ = {}
_NZPOS = {}         # term -> sets of facts from which it was shown to be non-zero


def _nonzero_fn(pc):
    pc = list(pc)
    pc_ids = frozenset(t.get_id() for t in pc)
    s = z3.Solver()
    s.set('timeout', 400)
    s.add(*pc)
    s.add(*real_fun_axioms(list(pc)))

    roots = []

    def positive_roots():
        if not roots:
            cn = Canon()
            todo, seen, l = list(pc), set(), []
            while todo:
                t = todo.pop()
                if t.get_id() in seen or z3.is_quantifier(t) or z3.is_var(t):
                    continue
                seen.add(t.get_id())
                if z3.is_app(t):
                    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() == 'sqrt' and s.check(t <= 0) == z3.unsat:
                        try:
                            l.append(cn.poly(t.arg(0)))
                        except Big:
                            pass
                    todo.extend(t.children())
            roots.append((cn, l))
        return roots[0]

    def f(b):
        if z3.is_rational_value(b) or z3.is_int_value(b):
            return True
        cn, l = positive_roots()
        if l:
            # sqrt(Y) > 0 is a hypothesis and b is a multiple of Y
            try:
                p = cn.poly(b)
            except Big:
                p = None
            for y in l:
                if p and y and len(p) == len(y) and min(p) in y:
                    k = p[min(p)] / y[min(p)]
                    if p == {m: c * k for m, c in y.items()}:
                        return True
        ax = real_fun_axioms([b] + list(pc)) if real_fun_axioms([b]) else []
        if not ax:
            bi = b.get_id()
            if any(have <= pc_ids for have, _ in _NZPOS.get(bi, ())):
                return True
            r = s.check(b == 0) == z3.unsat
            if r:
                _NZPOS.setdefault(bi, []).append((pc_ids, (b, pc)))
            return r
        key = (b.sexpr(), '|'.join(sorted(t.sexpr() for t in pc)))
        if key not in _NZ:
            q = _solver(2.5)
            q.add(*pc)
            q.add(*ax)
            q.add(b == 0)
            _NZ[key] = q.check() == z3.unsat
        return _NZ[key]
    return f


def _try_canon(pc, g, eqs=()):
    try:
        subs = []
        # oriented rewriting with simple equalities of the path condition
        for t in list(pc) + list(eqs):
            if z3.is_app_of(t, z3.Z3_OP_EQ):
                a, b = t.arg(0), t.arg(1)
                if a.sort() not in (T.I, T.R):
                    continue
                if _is_app(a) and _is_num(b):
                    subs.append((a, b))
                elif _is_app(b) and _is_num(a):
                    subs.append((b, a))
                elif _is_const(a) and not T.mentions(b, [a]):
                    subs.append((a, b))
                elif _is_const(b) and not T.mentions(a, [b]):
                    subs.append((b, a))
                elif t in eqs or any(t is e for e in eqs):
                    subs.append((a, b))
        h = g
        for _ in range(3 if subs else 0):
            h2 = z3.substitute(h, *subs)
            if h2.eq(h):
                break
            h = h2
        c = Canon(_nonzero_fn(pc))
        r = c.boolean(h)
        if z3.is_true(r):
            return True
        if _arith_eq(h):
            p = c.add(c.poly(h.arg(0)), c.poly(h.arg(1)), -1)
            if not p or not c.clear_denominators(p):
                return True
        # goal literally among the (canonical) hypotheses
        for t in pc:
            if z3.is_app(t) and len(pc) < 60:
                if c.boolean(z3.substitute(t, *subs) if subs else t).eq(r):
                    return True
    except (Big, RecursionError):
        return False
    return False


def _is_num(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def _is_app(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


def _is_const(t):
    return z3.is_app(t) and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


def congruences(pc, allapps, gapps, timeout, depth, deadline):
    groups = {}
    for i, a in allapps.items():
        groups.setdefault(a.decl().name(), []).append(a)
    eqs = []
    budget = 40
    for nm, l in groups.items():
        gl = [a for a in l if a.get_id() in gapps]
        done = set()
        for a in gl:
            for b in l:
                if a.eq(b):
                    continue
                key = tuple(sorted((a.get_id(), b.get_id())))
                if key in done:
                    continue
                done.add(key)
                budget -= 1
                if budget < 0:
                    return eqs
                if ho_equal(pc, a, b, timeout, depth, deadline):
                    eqs.append(a == b)
    return eqs


def zero_sums(pc, gapps, timeout, depth, deadline):
    """A sum whose terms all vanish is zero."""
    out = []
    for a in gapps.values():
        info = ho.HO[a.decl().name()]
        if info['kind'] not in ('SUM', 'ISUM') or len(info['groups']) != 1 or len(info['groups'][0][1]) != 1:
            continue
        nd, lp, dp = info['groups'][0]
        ks = [z3.Int(f'zs!{depth}_{j}') for j in range(nd)]
        body = z3.simplify(ho.lam_body(a.arg(lp[0]), ks))
        if not ite_conds([body]):
            continue
        rng = [c for k, i in zip(ks, dp) for c in (k >= 0, k < a.arg(i))]
        # cheap refutation first: a model of a non-zero term
        zero = z3.RealVal(0) if a.sort() == T.R else z3.IntVal(0)
        s = _solver(0.5)
        s.add(*pc)
        s.add(*rng)
        s.add(body != zero)
        if s.check() == z3.sat:
            continue
        if prove(list(pc) + rng, body == zero, min(timeout, 2.0), depth + 1, deadline).status == 'proved':
            out.append(a == zero)
    return out


_SIGN = {}


def sum_signs(pc, gapps):
    """A sum of terms none of which is negative is not negative."""
    out = []
    for a in gapps.values():
        info = ho.HO[a.decl().name()]
        if info['kind'] not in ('SUM', 'ISUM') or len(info['groups']) != 1 or len(info['groups'][0][1]) != 1:
            continue
        key = a.get_id()
        if key not in _SIGN:
            nd, lp, dp = info['groups'][0]
            ks = [z3.Int(f'sg!{j}') for j in range(nd)]
            body = z3.simplify(ho.lam_body(a.arg(lp[0]), ks))
            ok = False
            if ite_conds([body]):
                s = _solver(0.3)
                s.add(body < 0)
                ok = s.check() == z3.unsat
            _SIGN[key] = (a, ok)
        if _SIGN[key][1]:
            out.append(a >= 0)
    return out


def ho_equal(pc, a, b, timeout, depth, deadline):
    info = ho.HO[a.decl().name()]
    n = a.num_args()
    covered = set()
    for nd, lp, dp in info['groups']:
        covered.update(lp)
        covered.update(dp)
    tmo = min(timeout, 3.0)
    for i in range(n):
        if i in covered:
            continue
        x, y = a.arg(i), b.arg(i)
        if x.eq(y):
            continue
        if prove(pc, x == y, tmo, depth + 1, deadline).status != 'proved':
            return False
    for nd, lp, dp in info['groups']:
        for i in dp:
            x, y = a.arg(i), b.arg(i)
            if not x.eq(y) and prove(pc, x == y, tmo, depth + 1, deadline).status != 'proved':
                return False
        ks = [z3.Int(f'cg!{depth}_{j}') for j in range(nd)]
        rng = []
        for k, i in zip(ks, dp):
            rng += [k >= 0, k < a.arg(i)]
        for i in lp:
            x, y = a.arg(i), b.arg(i)
            if x.eq(y):
                continue
            bx, by = ho.lam_body(x, ks), ho.lam_body(y, ks)
            if bx.eq(by):
                continue
            if prove(list(pc) + rng, bx == by, tmo, depth + 1, deadline).status != 'proved':
                return False
    return True


def ite_conds(ts):
    seen = set()
    out = {}
    todo = list(ts)
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen or z3.is_quantifier(t) or z3.is_var(t):
            continue
        seen.add(i)
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c = t.arg(0)
            out[c.get_id()] = c
        if z3.is_app(t):
            todo.extend(t.children())
    return list(out.values())


def _split(pc, g, ax, timeout, deadline, maxsplit=7, quick=False):
    """Case analysis on if-then-else conditions, then ring normalisation / solver per case."""
    if not _arith_eq(g):
        return None
    leaves = [0]
    t_end = time.time() + timeout * 2

    def rec(facts, h, k):
        if time.time() > t_end:
            return False
        h = z3.simplify(h)
        if z3.is_true(h):
            return True
        conds = ite_conds([h])
        # prefer conditions without nested ites
        conds = [c for c in conds if not ite_conds([c])] or conds
        if not conds or k >= maxsplit:
            leaves[0] += 1
            if leaves[0] > 80:
                return False
            s = _solver(1.0)
            s.add(*facts)
            s.add(*ax)
            if s.check() == z3.unsat:
                return True
            if _try_canon(facts, h):
                return True
            if quick:
                return False
            s.add(z3.Not(h))
            return s.check() == z3.unsat
        c = conds[0]
        for v in (True, False):
            f2 = facts + [c if v else z3.Not(c)]
            s = _solver(0.5)
            s.add(*f2)
            if s.check() == z3.unsat:
                continue
            if not rec(f2, z3.substitute(h, (c, z3.BoolVal(v))), k + 1):
                return False
        return True
    if not ite_conds([g]):
        return None
    return rec(list(pc), g, 0)
