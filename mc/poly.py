"""Sparse multivariate polynomials over Q in 'atoms' (symbolic reals).

A monomial is a tuple of (atom_id, exponent) pairs sorted by atom id; a
polynomial is a dict monomial -> Fraction/int.  Atoms may be algebraic: an atom
`s` with a defining polynomial `s**2 == rad` is rewritten whenever its exponent
reaches two, which gives normal forms for square roots and rotations.
"""
from fractions import Fraction

ONE_M = ()


class Atom:
    __slots__ = ('id', 'name', 'kind', 'rad', 'data', 'z3', 'facts', 'evalf', 'nonneg', 'deps')

    def __init__(self, id, name, kind, rad=None, data=None, evalf=None, nonneg=False):
        self.id = id
        self.name = name
        self.kind = kind
        self.rad = rad          # Poly: atom**2 == rad
        self.data = data
        self.z3 = None
        self.facts = None       # callable -> list of z3 constraints
        self.evalf = evalf      # callable(evaluator) -> float
        self.nonneg = nonneg
        self.deps = ()

    def __repr__(self):
        return self.name


ATOMS = []          # id -> Atom
SQ = {}             # id -> rad Poly (algebraic atoms)


def reset_atoms():
    ATOMS.clear()
    SQ.clear()


def new_atom(name, kind, **kw):
    a = Atom(len(ATOMS), name, kind, **kw)
    ATOMS.append(a)
    if a.rad is not None:
        SQ[a.id] = a.rad
    return a


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    # merge
    i = j = 0
    la, lb = len(a), len(b)
    out = []
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


class Poly:
    __slots__ = ('t', '_h', '_z', '_k')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._z = None
        self._k = None

    # -- construction ------------------------------------------------------
    @staticmethod
    def const(c):
        c = _norm(c)
        return Poly({ONE_M: c}) if c else Poly({})

    @staticmethod
    def atom(a):
        return Poly({((a.id, 1),): 1})

    # -- queries -----------------------------------------------------------
    def is_zero(self):
        return not self.t

    def is_small(self, *ref):
        """All coefficients negligible against those of the reference polynomials (rounding noise)."""
        top = max([abs(float(c)) for p in ref for c in p.t.values()] + [1.0])
        return all(abs(float(c)) <= 1e-9 * top for c in self.t.values())

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE_M in self.t)

    def const_value(self):
        return self.t.get(ONE_M, 0)

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (hash(self) == hash(o) and self.t == o.t)

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    # -- arithmetic --------------------------------------------------------
    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = _norm(v)
                else:
                    del r[m]
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = -c
            else:
                v = v - c
                if v:
                    r[m] = _norm(v)
                else:
                    del r[m]
        return Poly(r)

    def scale(self, c):
        c = _norm(c)
        if not c:
            return Poly({})
        if c == 1:
            return self
        return Poly({m: _norm(v * c) for m, v in self.t.items()})

    def __mul__(self, o):
        if not self.t or not o.t:
            return Poly({})
        if self.is_const():
            return o.scale(self.t[ONE_M])
        if o.is_const():
            return self.scale(o.t[ONE_M])
        a, b = (self.t, o.t) if len(self.t) <= len(o.t) else (o.t, self.t)
        r = {}
        hassq = False
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                c = c1 * c2
                v = r.get(m)
                r[m] = c if v is None else v + c
        out = {}
        pend = None
        for m, c in r.items():
            if not c:
                continue
            c = _norm(c)
            if SQ:
                for aid, e in m:
                    if e >= 2 and aid in SQ:
                        hassq = True
                        break
                else:
                    out[m] = c
                    continue
                if pend is None:
                    pend = []
                pend.append((m, c))
            else:
                out[m] = c
        res = Poly(out)
        if hassq:
            for m, c in pend:
                res = res + _reduce_mono(m).scale(c)
        return res

    def pow(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    # -- division ----------------------------------------------------------
    def lead(self):
        """Leading term under a graded order (degree, then monomial)."""
        best = None
        bk = None
        for m in self.t:
            k = (sum(e for _, e in m), m)
            if bk is None or k > bk:
                bk, best = k, m
        return best

    def content_mono(self):
        """Common monomial of all terms."""
        it = iter(self.t)
        try:
            m = dict(next(it))
        except StopIteration:
            return ()
        for n in it:
            if not m:
                return ()
            d = dict(n)
            for a in list(m):
                e = d.get(a)
                if e is None:
                    del m[a]
                elif e < m[a]:
                    m[a] = e
        return tuple(sorted(m.items()))

    def div_mono(self, m):
        d = dict(m)
        out = {}
        for k, c in self.t.items():
            kk = []
            for a, e in k:
                e2 = e - d.get(a, 0)
                if e2:
                    kk.append((a, e2))
            out[tuple(kk)] = c
        return Poly(out)

    def monic(self):
        """(sign/scale, primitive polynomial with leading coefficient 1)."""
        m = self.lead()
        c = self.t[m]
        if c == 1:
            return c, self
        return c, self.scale(Fraction(1) / c)

    def exact_div(self, o, limit=4000):
        """Quotient when o divides self exactly, else None (lex long division)."""
        if o.is_const():
            return self.scale(Fraction(1) / o.t[ONE_M])
        if not self.t:
            return self
        if len(o.t) > len(self.t) * 4 + 4:
            return None
        lo = _lexlead(o)
        co = o.t[lo]
        lod = dict(lo)
        rem = dict(self.t)
        q = {}
        steps = 0
        while rem:
            m = max(rem, key=_lexkey)
            md = dict(m)
            for a, e in lo:
                if md.get(a, 0) < e:
                    return None
            qm = tuple((a, e - lod.get(a, 0)) for a, e in m if e - lod.get(a, 0))
            qc = _norm(Fraction(rem[m]) / co)
            q[qm] = qc
            for k, c in o.t.items():
                kk = mono_mul(qm, k)
                v = rem.get(kk, 0) - qc * c
                if v:
                    rem[kk] = _norm(v)
                else:
                    rem.pop(kk, None)
            steps += 1
            if steps * len(o.t) > limit:
                return None
        return Poly(q)

    def sqrt_exact(self):
        """r with r*r == self, or None."""
        if not self.t:
            return self
        if self.is_const():
            f = frac_sqrt(Fraction(self.t[ONE_M]))
            return None if f is None else Poly.const(f)
        # leading-term method (lex order)
        if len(self.t) > 60:
            return None
        m = _lexlead(self)
        if any(e % 2 for _, e in m):
            return None
        c = frac_sqrt(Fraction(self.t[m]))
        if c is None:
            return None
        lm = tuple((a, e // 2) for a, e in m)
        r = Poly({lm: _norm(c)})
        two_lead = Poly({lm: _norm(2 * c)})
        for _ in range(30):
            d = self - r * r
            if not d.t:
                return r
            dm = _lexlead(d)
            dd = dict(dm)
            for a, e in lm:
                if dd.get(a, 0) < e:
                    return None
            ld = dict(lm)
            qm = tuple((a, e - ld.get(a, 0)) for a, e in dm if e - ld.get(a, 0))
            if _lexkey(qm) >= _lexkey(lm):
                return None
            r = r + Poly({qm: _norm(Fraction(d.t[dm]) / (2 * c))})
        return None


def _lexkey(m):
    # lexicographic on atoms with smaller id first
    return tuple((-a, e) for a, e in m)


def _lexlead(p):
    return max(p.t, key=_lexkey)


def _reduce_mono(m):
    rest = []
    res = Poly.const(1)
    for a, e in m:
        if e >= 2 and a in SQ:
            res = res * SQ[a].pow(e // 2)
            if e & 1:
                rest.append((a, 1))
        else:
            rest.append((a, e))
    base = Poly({tuple(rest): 1})
    return base * res


def frac_sqrt(f):
    import math
    if f < 0:
        return None
    n = math.isqrt(f.numerator)
    d = math.isqrt(f.denominator)
    if n * n == f.numerator and d * d == f.denominator:
        return Fraction(n, d)
    return None
