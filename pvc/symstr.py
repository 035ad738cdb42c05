"""Structured symbolic strings: concatenations of literal text and named atoms, where an
atom stands for an arbitrary non-empty text free of the separators listed for it."""
import z3
from . import terms as T
from .terms import Unsupported, CTX


class Atom:
    __slots__ = ('name', 'val', 'forbid')

    def __init__(self, name, forbid):
        self.name = name
        self.val = None
        self.forbid = forbid      # characters that cannot occur in the atom

    def __repr__(self):
        return f'<{self.name}>'


class AllBut:
    """Every character except the listed ones."""
    def __init__(self, keep):
        self.keep = keep

    def __contains__(self, ch):
        return ch not in self.keep


def int_str(v):
    a = Atom('int:' + v.t.sexpr(), AllBut('-0123456789'))
    a.val = v
    return SymStr([a])


class SymStr:
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = out

    def key(self):
        return tuple(p if isinstance(p, str) else ('atom', p.name) for p in self.parts)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        if isinstance(o, str):
            o = SymStr([o])
        if not isinstance(o, SymStr):
            return False
        if self.key() == o.key():
            return True
        # decidable inequality: a literal character that an all-atom counterpart forbids
        if self._distinct(o) or o._distinct(self):
            return False
        if len(self.parts) == len(o.parts) == 1 and all(isinstance(p, Atom) and p.name.startswith('text:') for p in (self.parts[0], o.parts[0])):
            return False
        ka, kb = repr(self.key()), repr(o.key())
        if kb < ka:
            ka, kb = kb, ka
        return bool(T.mk_bool(z3.Bool(f'streq:{ka}=={kb}')))

    def _distinct(self, o):
        for p in self.parts:
            if isinstance(p, str):
                for ch in p:
                    if all((isinstance(q, str) and ch not in q) or (isinstance(q, Atom) and q.forbid and ch in q.forbid)
                           for q in o.parts):
                        return True
        if not o.parts and self.parts:
            return True
        return False

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        return concat(self, o)

    def __radd__(self, o):
        return concat(o, self)

    def len_(self):
        raise Unsupported('len of symbolic string')

    def __len__(self):
        raise Unsupported('len of symbolic string')

    def __bool__(self):
        return bool(self.parts)

    def __contains__(self, s):
        if not isinstance(s, str):
            raise Unsupported('in with symbolic needle')
        for p in self.parts:
            if isinstance(p, str) and s in p:
                return True
        for p in self.parts:
            if isinstance(p, Atom):
                if p.forbid is None or not any(ch in p.forbid for ch in s):
                    raise Unsupported(f'{s!r} in {self}')
        if len(s) == 1:
            return False
        # multi-character needles may span parts: every character must be forbidden in atoms or
        # the needle cannot straddle
        if any(isinstance(p, Atom) and all(ch in p.forbid for ch in s) for p in self.parts) or True:
            joined = [p if isinstance(p, str) else '\x00' for p in self.parts]
            return s in ''.join(joined)

    def split(self, sep=None, maxsplit=-1):
        if sep is None or len(sep) != 1:
            raise Unsupported('split')
        cur, out = [], []
        n = 0
        for p in self.parts:
            if isinstance(p, Atom):
                if p.forbid is None or sep not in p.forbid:
                    raise Unsupported(f'split of {self} at {sep!r}')
                cur.append(p)
                continue
            bits = p.split(sep) if maxsplit < 0 else p.split(sep, maxsplit - n)
            n += len(bits) - 1
            cur.append(bits[0])
            for b in bits[1:]:
                out.append(_simp(SymStr(cur)))
                cur = [b]
        out.append(_simp(SymStr(cur)))
        return out

    def partition(self, sep):
        if sep in self:
            a = self.split(sep, 1)
            return a[0], sep, a[1]
        return self, '', ''

    def rsplit(self, sep, maxsplit=-1):
        a = self.split(sep)
        if maxsplit < 0 or len(a) - 1 <= maxsplit:
            return a
        if maxsplit == 1:
            h = a[0]
            for x in a[1:-1]:
                h = concat(concat(h, sep), x)
            return [h, a[-1]]
        raise Unsupported('rsplit')

    def startswith(self, s):
        if isinstance(s, tuple):
            return any(self.startswith(x) for x in s)
        if not self.parts:
            return not s
        p = self.parts[0]
        if isinstance(p, str):
            if len(p) >= len(s):
                return p.startswith(s)
            if not s.startswith(p):
                return False
            raise Unsupported('startswith')
        if p.forbid is not None and s and s[0] in p.forbid:
            return False
        raise Unsupported(f'startswith({s!r}) on {self}')

    def endswith(self, s):
        if isinstance(s, tuple):
            return any(self.endswith(x) for x in s)
        p = self.parts[-1]
        if isinstance(p, str):
            if len(p) >= len(s):
                return p.endswith(s)
            if not s.endswith(p):
                return False
            q = self.parts[-2] if len(self.parts) > 1 else None
            if isinstance(q, Atom) and q.forbid and s[len(s) - len(p) - 1] in q.forbid:
                return False
            raise Unsupported('endswith')
        if p.forbid is not None and any(ch in p.forbid for ch in s):
            return False
        raise Unsupported(f'endswith({s!r}) on {self}')

    def strip(self, *a):
        ps = list(self.parts)
        if ps and isinstance(ps[0], str):
            ps[0] = ps[0].lstrip(*a)
        if ps and isinstance(ps[-1], str):
            ps[-1] = ps[-1].rstrip(*a)
        return _simp(SymStr(ps))

    def lower(self):
        raise Unsupported('lower')

    upper = lower

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None:
            ps = list(self.parts)
            if k.start is not None and k.start > 0:
                if isinstance(ps[0], str) and len(ps[0]) >= k.start:
                    ps[0] = ps[0][k.start:]
                else:
                    raise Unsupported('slice')
            elif k.start is not None:
                raise Unsupported('slice')
            if k.stop is not None:
                if k.stop < 0 and isinstance(ps[-1], str) and len(ps[-1]) >= -k.stop:
                    ps[-1] = ps[-1][:k.stop]
                else:
                    raise Unsupported('slice')
            return _simp(SymStr(ps))
        raise Unsupported('index of symbolic string')

    def replace(self, a, b):
        for p in self.parts:
            if isinstance(p, Atom) and not (p.forbid and any(c in p.forbid for c in a)):
                raise Unsupported('replace')
        return _simp(SymStr([p.replace(a, b) if isinstance(p, str) else p for p in self.parts]))

    def __iter__(self):
        raise Unsupported('iteration over symbolic string')

    def __repr__(self):
        return 'S' + ''.join(p if isinstance(p, str) else repr(p) for p in self.parts)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __fspath__(self):
        raise Unsupported('path of symbolic string')

    def __deepcopy__(self, m):
        return self

    def __lt__(self, o):
        raise Unsupported('ordering of symbolic strings')


def _simp(s):
    if not s.parts:
        return ''
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


def concat(a, b):
    pa = a.parts if isinstance(a, SymStr) else [a]
    pb = b.parts if isinstance(b, SymStr) else [b]
    for p in pa + pb:
        if not isinstance(p, (str, Atom)):
            raise TypeError('can only concatenate str')
    return _simp(SymStr(pa + pb))
