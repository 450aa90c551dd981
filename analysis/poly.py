"""Commutative polynomials over named atoms (integer sizes/offsets and coefficient scalars)."""
from fractions import Fraction

INST = None      # sizes fixed to constants (see sized.py)


class Poly:
    __slots__ = ("d", "_h")

    def __init__(self, d=None):
        self.d = d if d is not None else {}
        self._h = None

    # -- construction
    @staticmethod
    def const(c):
        return Poly({(): c}) if c != 0 else Poly({})

    @staticmethod
    def atom(name):
        if INST is not None:
            x = INST.get(name)
            if x is not None:
                return x
        return Poly({(name,): 1})

    @staticmethod
    def of(x):
        if isinstance(x, Poly):
            return x
        if isinstance(x, bool):
            return Poly.const(int(x))
        if isinstance(x, (int, Fraction)):
            return Poly.const(x)
        if isinstance(x, float):
            return Poly.const(Fraction(x).limit_denominator(10**9))
        raise TypeError(x)

    # -- arithmetic
    def __add__(self, o):
        o = Poly.of(o)
        r = dict(self.d)
        for m, c in o.d.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-Poly.of(o))

    def __rsub__(self, o):
        return Poly.of(o) - self

    def __mul__(self, o):
        o = Poly.of(o)
        r = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = tuple(sorted(m1 + m2))
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        return Poly(r)

    __rmul__ = __mul__

    def __eq__(self, o):
        try:
            o = Poly.of(o)
        except TypeError:
            return False
        return self.d == o.d

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    # -- queries
    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const_value(self):
        return self.d.get((), 0)

    def is_zero(self):
        return not self.d

    def atoms(self):
        s = set()
        for m in self.d:
            s.update(m)
        return s

    def has(self, atom):
        return any(atom in m for m in self.d)

    def subs(self, mp):
        if not mp or not (self.atoms() & set(mp)):
            return self
        r = Poly({})
        for m, c in self.d.items():
            t = Poly.const(c)
            for a in m:
                t = t * (mp[a] if a in mp else Poly.atom(a))
            r = r + t
        return r

    def split(self, atom):
        """p = a*atom + b with b free of atom; None when not linear."""
        a, b = {}, {}
        for m, c in self.d.items():
            n = m.count(atom)
            if n == 0:
                b[m] = c
            elif n == 1:
                mm = list(m)
                mm.remove(atom)
                a[tuple(mm)] = c
            else:
                return None
        return Poly(a), Poly(b)

    def div(self, o):
        """exact division by a monomial, or None"""
        o = Poly.of(o)
        if o.is_zero():
            return None
        if self.is_zero():
            return Poly({})
        if self == o:
            return Poly.const(1)
        if len(o.d) != 1:
            return None
        (om, oc), = o.d.items()
        r = {}
        for m, c in self.d.items():
            mm = list(m)
            for a in om:
                if a not in mm:
                    return None
                mm.remove(a)
            q = Fraction(c) / Fraction(oc)
            r[tuple(mm)] = int(q) if q.denominator == 1 else q
        return Poly(r)

    def key(self):
        return str(self)

    def __str__(self):
        if not self.d:
            return "0"
        parts = []
        for m, c in sorted(self.d.items()):
            if not m:
                parts.append(str(c))
            else:
                s = "*".join(m)
                if c == 1:
                    parts.append(s)
                elif c == -1:
                    parts.append("-" + s)
                else:
                    parts.append("%s*%s" % (c, s))
        return " + ".join(parts).replace("+ -", "- ")

    __repr__ = __str__


def P(x):
    if isinstance(x, str):
        return Poly.atom(x)
    return Poly.of(x)


ZERO = Poly.const(0)
ONE = Poly.const(1)
