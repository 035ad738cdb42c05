"""Normal forms of arithmetic terms: multivariate polynomials over atoms, with
if-then-else as 0/1 indicators, quotients as inverse atoms and finite sums split
linearly.  Used to discharge equalities that are ring identities."""
from fractions import Fraction
import z3
from . import terms as T
from . import ho


class Big(Exception):
    pass


LIMIT = 4000


class Canon:
    def __init__(self, nonzero=None):
        self.memo = {}
        self.bmemo = {}
        self.atoms = {}        # id -> term (keeps alive)
        self.keep = []
        self.nonzero = nonzero or (lambda t: False)
        self.nz_memo = {}
        self.depth = 0
        self.steps = 0

    # polynomials: dict {tuple(sorted((atom_id, exp))): Fraction}
    def atom(self, t):
        i = t.get_id()
        self.atoms[i] = t
        return {((i, 1),): Fraction(1)}

    def const(self, c):
        return {(): Fraction(c)} if c != 0 else {}

    def add(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + s * c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        if len(r) > LIMIT:
            raise Big()
        return r

    def is_ind(self, t):
        return z3.is_app_of(t, z3.Z3_OP_ITE) and _num(t.arg(1)) == 1 and _num(t.arg(2)) == 0

    def mulmono(self, m1, m2):
        d = dict(m1)
        for a, e in m2:
            t = self.atoms[a]
            if a in d and self._ind_atom(t):
                continue
            d[a] = d.get(a, 0) + e
        # cancel x * (1/x)
        for a in list(d):
            t = self.atoms[a]
            if z3.is_app_of(t, z3.Z3_OP_DIV) and _num(t.arg(0)) == 1:
                b = t.arg(1)
                bi = b.get_id()
                if bi in d and d.get(bi, 0) > 0 and d.get(a, 0) > 0 and self._nz(b):
                    k = min(d[a], d[bi])
                    d[a] -= k
                    d[bi] -= k
        # sqrt(x)^2 -> x handled by the solver axioms
        return tuple(sorted((a, e) for a, e in d.items() if e))

    def _ind_atom(self, t):
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
            t = t.arg(0)
        return self.is_ind(t)

    def _nz(self, b):
        i = b.get_id()
        if i not in self.nz_memo:
            self.nz_memo[i] = self.nonzero(b)
            self.keep.append(b)
        return self.nz_memo[i]

    def mul(self, p, q):
        if len(p) * len(q) > LIMIT * 4:
            raise Big()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mulmono(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        return r

    def poly(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            self.steps += 1
            if self.steps > 60000:
                raise Big()
            r = self._poly(t)
            self.memo[i] = r
            self.keep.append(t)
        return r

    def _poly(self, t):
        n = _num(t)
        if n is not None:
            return self.const(n)
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in t.children():
                r = self.add(r, self.poly(c))
            return r
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.add({}, self.poly(t.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            r = self.const(1)
            for c in t.children():
                r = self.mul(r, self.poly(c))
            return r
        if k == z3.Z3_OP_POWER:
            e = _num(t.arg(1))
            if e is not None and e.denominator == 1 and 0 <= e <= 8:
                r = self.const(1)
                b = self.poly(t.arg(0))
                for _ in range(int(e)):
                    r = self.mul(r, b)
                return r
        if k == z3.Z3_OP_DIV:
            b = self.poly(t.arg(1))
            a = self.poly(t.arg(0))
            return self.mul(a, self.inv(b))
        if k == z3.Z3_OP_TO_REAL:
            p = self.poly(t.arg(0))
            r = {}
            for m, c in p.items():
                mm = self.const(c)
                for a, e in m:
                    at = self.atoms[a]
                    ra = self.atom(z3.ToReal(at)) if at.sort() == T.I else {((a, 1),): Fraction(1)}
                    for _ in range(e):
                        mm = self.mul(mm, ra)
                r = self.add(r, mm)
            return r
        if k == z3.Z3_OP_TO_INT:
            a = t.arg(0)
            p = self.poly(a)
            # split an integer constant
            return self.atom(z3.ToInt(self.term(p, T.R)))
        if k == z3.Z3_OP_ITE:
            c = self.boolean(t.arg(0))
            if z3.is_true(c):
                return self.poly(t.arg(1))
            if z3.is_false(c):
                return self.poly(t.arg(2))
            a, b = self.poly(t.arg(1)), self.poly(t.arg(2))
            if a == b:
                return a
            neg = False
            if z3.is_not(c):
                c = c.arg(0)
                a, b = b, a
            one = z3.IntVal(1) if t.sort() == T.I else z3.RealVal(1)
            zero = z3.IntVal(0) if t.sort() == T.I else z3.RealVal(0)
            if t.sort() == T.R:
                ind = z3.ToReal(z3.If(c, z3.IntVal(1), z3.IntVal(0)))
            else:
                ind = z3.If(c, one, zero)
            p = self.atom(ind)
            return self.add(b, self.mul(p, self.add(a, b, -1)))
        if k == z3.Z3_OP_IDIV or k == z3.Z3_OP_MOD:
            a = self.term(self.poly(t.arg(0)), T.I)
            b = self.term(self.poly(t.arg(1)), T.I)
            return self.atom((a / b) if k == z3.Z3_OP_IDIV else (a % b))
        if k == z3.Z3_OP_UNINTERPRETED:
            info = ho.HO.get(t.decl().name())
            if info is not None and info['kind'] in ('SUM', 'ISUM'):
                return self.sum_poly(t, info['kind'])
            if info is not None and info['kind'] == 'NZ_COUNT':
                return self.poly(ho.nz_count_def(t))
            if t.num_args() == 0:
                return self.atom(t)
            return self.atom(t.decl()(*[self.any(c) for c in t.children()]))
        return self.atom(t)

    def inv(self, b):
        if not b:
            return self.atom(z3.RealVal(1) / z3.RealVal(0))
        if len(b) == 1:
            (m, c), = b.items()
            r = self.const(1 / c)
            for a, e in m:
                t = self.atoms[a]
                if z3.is_app_of(t, z3.Z3_OP_DIV) and _num(t.arg(0)) == 1 and self._nz(t.arg(1)):
                    q = self.poly(t.arg(1))
                else:
                    if t.sort() == T.I:
                        t = z3.ToReal(t)
                    q = self.atom(z3.RealVal(1) / t)
                for _ in range(e):
                    r = self.mul(r, q)
            return r
        lead = b[min(b)]
        bb = {m: c / lead for m, c in b.items()}
        r = self.atom(z3.RealVal(1) / self.term(bb, T.R))
        return {m: c / lead for m, c in r.items()}

    def clear_denominators(self, p):
        """p multiplied by its (provably non-zero) polynomial denominators; p == 0 iff the result is."""
        for _ in range(8):
            found = None
            for m in p:
                for a, e in m:
                    t = self.atoms[a]
                    if e > 0 and z3.is_app_of(t, z3.Z3_OP_DIV) and _num(t.arg(0)) == 1 and self._nz(t.arg(1)):
                        found = a
                        break
                if found is not None:
                    break
            if found is None:
                return p
            b = self.poly(self.atoms[found].arg(1))
            top = max(dict(m).get(found, 0) for m in p)
            r = {}
            for m, c in p.items():
                d = dict(m)
                k = d.pop(found, 0)
                q = {tuple(sorted(d.items())): c}
                for _ in range(top - k):
                    q = self.mul(q, b)
                r = self.add(r, q)
            p = r
            if not p:
                return p
        return p

    def any(self, t):
        s = t.sort()
        if s == T.R or s == T.I:
            return self.term(self.poly(t), s)
        if s == T.B:
            return self.boolean(t)
        if z3.is_quantifier(t):
            return self.lam(t)
        return t

    def fresh_bound(self, nv):
        d = self.depth
        return [z3.Int(f'@b{d}_{j}') for j in range(nv)]

    def lam(self, t):
        if not t.is_lambda():
            return t
        nv = t.num_vars()
        ks = self.fresh_bound(nv)
        self.depth += 1
        body = z3.substitute_vars(t.body(), *reversed(ks))
        b = self.any(body)
        self.depth -= 1
        return z3.Lambda(ks, b)

    def sum_poly(self, t, kind):
        lam, n = t.arg(0), self.any(t.arg(1))
        ks = self.fresh_bound(1)
        self.depth += 1
        body = z3.substitute_vars(lam.body(), *reversed(ks))
        p = self.poly(body)
        self.depth -= 1
        kid = ks[0]
        res = {}
        groups = {}
        for m, c in p.items():
            dep = tuple((a, e) for a, e in m if T.mentions(self.atoms[a], [kid]))
            ind = tuple((a, e) for a, e in m if not T.mentions(self.atoms[a], [kid]))
            if not dep:
                np_ = self.poly(n if kind == 'ISUM' else z3.ToReal(n))
                res = self.add(res, self.mul({ind: c}, np_))
                continue
            at = self.sum_atom(dep, ks[0], n, kind)
            res = self.add(res, self.mul({ind: c}, at))
        return res

    def sum_atom(self, dep, k, n, kind):
        """Canonical atom for Sum_{k<n} of a monomial all of whose factors mention k."""
        factors = []          # (term, exp)
        bound = [(k, n)]
        todo = list(dep)
        sort = T.R if kind == 'SUM' else T.I
        for a, e in todo:
            t = self.atoms[a]
            if e == 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                info = ho.HO.get(t.decl().name())
                if info is not None and info['kind'] == kind and len(bound) == 1:
                    # flatten one nested sum
                    kk = z3.Int(f'@n{self.depth}')
                    n2 = t.arg(1)
                    if not T.mentions(n2, [k]):
                        inner = z3.substitute_vars(t.arg(0).body(), kk)
                        self.depth += 1
                        ip = self.poly(inner)
                        self.depth -= 1
                        if len(ip) == 1:
                            (m2, c2), = ip.items()
                            if c2 == 1:
                                bound.append((kk, n2))
                                factors.extend(m2)
                                continue
            factors.append((a, e))
        if len(bound) == 1:
            body = self.term({tuple(sorted(factors)): Fraction(1)}, sort)
            return self.atom(ho.ho_app(kind, 1, [z3.Lambda([k], body)], [n], [], sort))
        # two-index sum: canonical ordering of the bound variables
        body = None
        for a, e in sorted(factors):
            for _ in range(e):
                body = self.atoms[a] if body is None else body * self.atoms[a]
        best = None
        c0, c1 = z3.Int('@s0'), z3.Int('@s1')
        for order in ((0, 1), (1, 0)):
            (ka, na), (kb, nb) = bound[order[0]], bound[order[1]]
            facs = []
            for a, e in factors:
                facs.append((self.renorm(z3.substitute(self.atoms[a], (ka, c0), (kb, c1))), e))
            facs.sort(key=lambda x: x[0].sexpr())
            key = (str(na), str(nb), [(f.sexpr(), e) for f, e in facs])
            if best is None or key < best[0]:
                prod = None
                for f, e in facs:
                    for _ in range(e):
                        prod = f if prod is None else prod * f
                innr = ho.ho_app(kind, 1, [z3.Lambda([c1], prod)], [nb], [], sort)
                outr = ho.ho_app(kind, 1, [z3.Lambda([c0], innr)], [na], [], sort)
                best = (key, outr)
        return self.atom(best[1])

    def renorm(self, t):
        return t

    def term(self, p, sort):
        if not p:
            return z3.IntVal(0) if sort == T.I else z3.RealVal(0)
        ts = []
        for m in sorted(p):
            c = p[m]
            facs = []
            for a, e in m:
                facs += [self.atoms[a]] * e
            if sort == T.R:
                facs = [z3.ToReal(f) if f.sort() == T.I else f for f in facs]
            if c != 1 or not facs:
                if sort == T.I:
                    if c.denominator != 1:
                        raise Big()
                    cv = z3.IntVal(c.numerator)
                else:
                    cv = z3.RealVal(str(c))
                facs = [cv] + facs
            x = facs[0]
            for f in facs[1:]:
                x = x * f
            ts.append(x)
        x = ts[0]
        for y in ts[1:]:
            x = x + y
        self.keep.append(x)
        return x

    def boolean(self, t):
        i = t.get_id()
        r = self.bmemo.get(i)
        if r is None:
            r = self._boolean(t)
            self.bmemo[i] = r
            self.keep.append(t)
        return r

    def _boolean(self, t):
        if z3.is_true(t) or z3.is_false(t):
            return t
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_NOT:
            c = self.boolean(t.arg(0))
            if z3.is_not(c):
                return c.arg(0)
            if z3.is_true(c):
                return z3.BoolVal(False)
            if z3.is_false(c):
                return z3.BoolVal(True)
            return z3.Not(c)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            cs = {}
            for c in t.children():
                c = self.boolean(c)
                if z3.is_true(c):
                    if k == z3.Z3_OP_OR:
                        return c
                    continue
                if z3.is_false(c):
                    if k == z3.Z3_OP_AND:
                        return c
                    continue
                cs[c.get_id()] = c
            if not cs:
                return z3.BoolVal(k == z3.Z3_OP_AND)
            l = [cs[i] for i in sorted(cs)]
            if len(l) == 1:
                return l[0]
            return z3.And(*l) if k == z3.Z3_OP_AND else z3.Or(*l)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = t.arg(0), t.arg(1)
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
            strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            p = self.add(self.poly(a), self.poly(b), -1)     # p <= 0 or p < 0
            return self.ineq(p, strict, a.sort())
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and t.num_args() == 2 and t.arg(0).sort() in (T.R, T.I):
            p = self.add(self.poly(t.arg(0)), self.poly(t.arg(1)), -1)
            if not p:
                r = z3.BoolVal(True)
            elif set(p) == {()}:
                r = z3.BoolVal(False)
            else:
                lead = p[max(p)]
                p = {m: c / lead for m, c in p.items()}
                c0 = p.pop((), Fraction(0))
                if t.arg(0).sort() == T.I:
                    den = 1
                    for c in list(p.values()) + [c0]:
                        den = den * c.denominator // _gcd(den, c.denominator)
                    p = {m: c * den for m, c in p.items()}
                    c0 *= den
                s = t.arg(0).sort()
                r = self.term(p, s) == (z3.IntVal(int(-c0)) if s == T.I else z3.RealVal(str(-c0)))
            return r if k == z3.Z3_OP_EQ else z3.Not(r)
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args():
            return t.decl()(*[self.any(c) for c in t.children()])
        return t

    def ineq(self, p, strict, sort):
        c0 = p.get((), Fraction(0))
        q = {m: c for m, c in p.items() if m != ()}
        if not q:
            return z3.BoolVal(c0 < 0 if strict else c0 <= 0)
        lead = q[max(q)]
        sc = abs(lead)
        if sort == T.I:
            den = 1
            for c in q.values():
                den = den * c.denominator // _gcd(den, c.denominator)
            g = 0
            for c in q.values():
                g = _gcd(g, int(c * den))
            sc = Fraction(g, den)
        q = {m: c / sc for m, c in q.items()}
        b = -c0 / sc                       # q <= b   or q < b
        if sort == T.I:
            import math
            bi = math.floor(b)
            if strict and bi == b:
                bi -= 1
            if q[max(q)] > 0:
                return self.term(q, T.I) <= z3.IntVal(bi)
            q = {m: -c for m, c in q.items()}
            # -q <= bi  <=> q >= -bi  <=> not (q <= -bi-1)
            return z3.Not(self.term(q, T.I) <= z3.IntVal(-bi - 1))
        if q[max(q)] > 0:
            if not strict:
                return self.term(q, T.R) <= z3.RealVal(str(b))
            return z3.Not(z3.RealVal(str(b)) <= self.term(q, T.R))
        q = {m: -c for m, c in q.items()}
        if strict:                          # q > -b
            return z3.Not(self.term(q, T.R) <= z3.RealVal(str(-b)))
        return z3.RealVal(str(-b)) <= self.term(q, T.R)


def _gcd(a, b):
    import math
    return math.gcd(int(a), int(b))


def _num(t):
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return None
