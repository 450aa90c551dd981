"""Matrix-term domain.

Abstract memory: a Buffer is a flat array of coefficients with a persistent log of
region writes.  A region is a strided 2-D View; the value written to it is a MatVal,
a linear combination of placed words over factors (views of input data, symmetric
completions, abstract block operators, inverses of triangular parts, ...).
Everything is normalised so that two equal effects have equal representations;
whatever cannot be represented becomes Unk, and Unk never supports a verdict.
"""
import zlib

from poly import Poly, P, ZERO, ONE


class Undecided(Exception):
    pass


class Definite(Undecided):
    """a construct that is wrong for some sizes allowed on the partition"""

    def __init__(self, what, where=""):
        super().__init__(what)
        self.what, self.where = what, where


class Unk:
    """a value the domain does not represent"""
    __slots__ = ("why",)

    def __init__(self, why="?"):
        self.why = why

    def __repr__(self):
        return "Unk(%s)" % self.why


def is_unk(x):
    return isinstance(x, Unk)


# --------------------------------------------------------------------------- facts
class Env(dict):
    """a pseudo-random assignment of the atoms"""

    def __init__(self, k, free):
        self.k, self.free_ = k, free

    def child(self):
        e = Env(self.k, self.free_)
        e.update(self)
        return e

    def __missing__(self, a):
        h = zlib.crc32(("%s/%d" % (a, self.k)).encode())
        if a in self.free_:
            v = h % 7 - 3
        elif "<" in a:
            v = h % (1 + self.k // 4)
        else:
            v = h % (4 + 3 * self.k) + (self.k % 3)
        self[a] = v
        return v


def evalp(p, env):
    t = 0
    for m, c in p.d.items():
        for a in m:
            c = c * env[a]
        t += c
    return t


class Facts:
    """What the current partition assumes about integer symbols."""

    def __init__(self):
        self.sub = {}          # atom -> Poly (equalities)
        self.ge = []           # polys known >= 0
        self.ne = []           # polys known != 0
        self.free = set()      # atoms that may be negative
        self.preds = {}        # opaque predicates -> bool
        self.cache = {}

    def copy(self):
        f = Facts()
        f.sub = dict(self.sub)
        f.ge = list(self.ge)
        f.ne = list(self.ne)
        f.free = set(self.free)
        f.preds = dict(self.preds)
        return f

    def norm(self, p):
        if not isinstance(p, Poly):
            p = Poly.of(p)
        if self.sub:
            for _ in range(8):
                q = p.subs(self.sub)
                if q is p or q == p:
                    break
                p = q
        return p

    def strip(self, p):
        """p without the common factors known to be nonzero"""
        p = self.norm(p)
        if len(p.d) < 1 or p.is_const():
            return p
        ms = list(p.d)
        for a in sorted(set(ms[0])):
            while all(a in m for m in p.d):
                x = Poly.atom(a)
                if not (self.nonneg(x - 1) or any(self.norm(q) in (x, -x) for q in self.ne)):
                    break
                d = {}
                for m, c in p.d.items():
                    m = list(m)
                    m.remove(a)
                    d[tuple(m)] = c
                p = Poly(d)
        return p

    def add_eq0(self, p):
        p = self.strip(p)
        if p.is_zero():
            return True
        if p.is_const():
            return False
        if len(p.d) > 1 and not (p.atoms() & self.free) and not any("$" in a for a in p.atoms()) and (all(c > 0 for c in p.d.values()) or all(c < 0 for c in p.d.values())):
            # a sum of nonnegative terms vanishes: every term does
            for m in list(p.d):
                if not self.add_eq0(Poly({m: 1})):
                    return False
            return True
        self.cache = {}
        # orient: solve for an atom that occurs linearly with a unit coefficient
        best = None
        for a in sorted(p.atoms(), key=lambda s: (s.count("("), len(s), s), reverse=True):
            sp = p.split(a)
            if sp is None:
                continue
            k, rest = sp
            if k.is_const() and k.const_value() in (1, -1):
                best = (a, rest * (-1 if k.const_value() == 1 else 1))
                break
        if best is None:
            # product of nonnegative atoms = 0: cannot orient
            self.ge.append(-p)
            self.ge.append(p)
            return True
        a, v = best
        self.sub[a] = v
        for k in list(self.sub):
            if k != a:
                self.sub[k] = self.sub[k].subs({a: v})
        return True

    def add_ge0(self, p):
        self.cache = {}
        self.ge.append(p)

    def add_ne0(self, p):
        self.cache = {}
        self.ne.append(p)

    def infeasible(self):
        ps = []
        for q in self.ge:
            q = self.norm(q)
            if q.is_const():
                if q.const_value() < 0:
                    return True
                continue
            ps.append(q)
        for q in self.ne:
            if self.norm(q).is_zero():
                return True
        for q in ps[-2:]:
            # q >= 0 contradicts -q-1 >= 0
            if self._nonneg(-q - 1, 1):
                return True
        return False

    def eq(self, a, b):
        d = self.norm(P(a) - P(b))
        return d.is_zero()

    def _simple(self, p):
        for m, c in p.d.items():
            if c < 0:
                return False
            if m and any(a in self.free for a in m):
                # even powers of the same atom only
                if not all(m.count(a) % 2 == 0 for a in m if a in self.free):
                    return False
        return True

    def nonneg(self, p, depth=2):
        p = self.norm(p)
        k = (p, depth)
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = False if self._refuted(p) else self._nonneg(p, depth)
        return r

    def models(self):
        """assignments of the atoms that satisfy every fact"""
        self._refuted(ONE - 2)
        return [env for env in self.cache.get("models") or () if all(evalp(self.norm(q), env) != 0 for q in self.ne)]

    def _refuted(self, p):
        """some assignment satisfying every fact makes p negative: no derivation of p >= 0 can exist"""
        if all(c >= 0 for c in p.d.values()) and not self.free:
            return False
        ms = self.cache.get("models")
        if ms is None:
            ge = [self.norm(f) for f in self.ge]
            ms = []
            for k in range(24):
                if len(ms) >= 5:
                    break
                env = Env(k, self.free)
                if all(evalp(f, env) >= 0 for f in ge):
                    ms.append(env)
            self.cache["models"] = ms
        return any(evalp(p, env) < 0 for env in ms)

    def differs(self, a, b):
        """some assignment satisfying every fact separates a and b"""
        p = self.norm(P(a) - P(b))
        if p.is_zero() or any("<" in x or "(" in x for x in p.atoms()):
            return False
        self._refuted(ONE)
        self._refuted(-ONE)
        return any(evalp(p, env) != 0 for env in self.cache.get("models") or ())

    def _ges(self):
        g = self.cache.get("ge")
        if g is None:
            g = []
            seen = set()
            for f in self.ge:
                f = self.norm(f)
                if f.is_zero() or f in seen or all(c >= 0 for c in f.d.values()):
                    continue
                seen.add(f)
                g.append((f, [m for m, c in f.d.items() if c < 0]))
            self.cache["ge"] = g
            self.cache["maxneg"] = max([len(x[1]) for x in g] or [0])
        return g

    def _nonneg(self, p, depth):
        """p is normalised"""
        neg = [m for m, c in p.d.items() if c < 0]
        if not neg:
            return self._simple(p)
        if depth <= 0 or p.is_const():
            return False
        ges = self._ges()
        if len(neg) > depth * self.cache["maxneg"]:
            return False
        for f, fn in ges:
            # multiply the fact by atoms so that a negative monomial cancels
            mults = {(): 1}
            for m in neg:
                for g in fn:
                    if not g:
                        if m and not any(a in self.free for a in m):
                            mults[m] = 1
                        continue
                    mm = list(m)
                    ok = True
                    for a in g:
                        if a in mm:
                            mm.remove(a)
                        else:
                            ok = False
                            break
                    if ok and (not self.free or all(a not in self.free for a in mm)):
                        mults[tuple(mm)] = 1
            for mm in mults:
                q = p - (f * Poly({mm: 1}) if mm else f)
                k = (q, depth - 1)
                r = self.cache.get(k)
                if r is None:
                    r = self.cache[k] = False if self._refuted(q) else self._nonneg(q, depth - 1)
                if r:
                    return True
        return False

    def positive(self, p):
        p = self.norm(p)
        if self.nonneg(p - 1):
            return True
        for q in self.ne:
            q = self.norm(q)
            if (q == p or q == -p) and self.nonneg(p):
                return True
        return False

    def zero(self, p):
        return self.norm(p).is_zero()

    def nonzero(self, p):
        p = self.norm(p)
        p = self.strip(p)
        if p.is_const():
            return not p.is_zero()
        for q in self.ne:
            q = self.norm(q)
            if q == p or q == -p:
                return True
        return self.nonneg(p - 1) or self.nonneg(-p - 1)

    # intervals [a, a+n)
    def disjoint(self, a, n, b, m):
        return self.nonneg(P(b) - P(a) - P(n)) or self.nonneg(P(a) - P(b) - P(m))

    def inside(self, a, n, b, m):
        """[a,a+n) within [b,b+m)"""
        return self.nonneg(P(a) - P(b)) and self.nonneg(P(b) + P(m) - P(a) - P(n))


# --------------------------------------------------------------------------- views
class View:
    __slots__ = ("off", "r", "c", "rs", "cs")

    def __init__(self, off, r, c, rs, cs):
        self.off, self.r, self.c, self.rs, self.cs = P(off), P(r), P(c), P(rs), P(cs)

    def norm(self, F):
        off, r, c, rs, cs = [F.norm(x) for x in (self.off, self.r, self.c, self.rs, self.cs)]
        if r == 1:
            rs = ZERO
        if c == 1:
            cs = ZERO
        return View(off, r, c, rs, cs)

    def T(self):
        return View(self.off, self.c, self.r, self.cs, self.rs)

    def key(self):
        return (self.off, self.r, self.c, self.rs, self.cs)

    def __eq__(self, o):
        return isinstance(o, View) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "[%s: %s x %s, strides %s,%s]" % self.key()

    def sub(self, r0, r, c0, c):
        return View(self.off + P(r0) * self.rs + P(c0) * self.cs, r, c, self.rs, self.cs)

    def span(self):
        """number of elements from the first to one past the last, when strides are nonneg"""
        return (self.r - 1) * self.rs + (self.c - 1) * self.cs + 1

    def atoms(self):
        s = set()
        for x in self.key():
            s |= x.atoms()
        return s

    def subs(self, mp):
        return View(*[x.subs(mp) for x in self.key()])


# --------------------------------------------------------------------------- factors
# factor: (kind, payload..., op)   op in 'N','T','C','J'
#   ('v', buf, off, r, c, rs, cs, op)      op in N/J (transposition is a stride swap)
#   ('sym', buf, off, n, ld, uplo, kind, op)  symmetric/hermitian completion of a stored triangle
#   ('tri', buf, off, n, ld, uplo, diag, op, inv)
#   ('H', name, r0, r, c0, c, op)          block of an abstract operator
#   ('op', name, r, c, op)                 opaque square/rect operator
#   ('ones', r, c)
TOG_T = {"N": "T", "T": "N", "C": "J", "J": "C"}
TOG_J = {"N": "J", "J": "N", "T": "C", "C": "T"}


def sub_factor_poly(f, fn):
    return tuple(fn(x) if isinstance(x, Poly) else (sub_factor_poly(x, fn) if isinstance(x, tuple) else x) for x in f)


class PermSet(set):
    """Names of permutation matrices; 'perm:...' names are permutations wherever they come from."""

    def __contains__(self, k):
        return set.__contains__(self, k) or (isinstance(k, str) and k.startswith("perm:"))


class Alg:
    """algebra over MatVal in a given partition (facts) and coefficient field"""

    def __init__(self, facts, cplx):
        self.F = facts
        self.cplx = cplx
        self.sym_ops = {}      # abstract operators with a symmetry: name -> 'S'/'H'
        self.perm = PermSet()
        self.rkzero = {}       # leaf dimension atom -> rank of the leaf (rank zero: the block vanishes)
        self.pairs = {}        # (left buffer, right buffer) -> (rows, cols, inner, value of the product)
        self.symbufs = {}      # buffers holding a symmetric (hermitian) operator: leading dimension, kind
        self.symblocks = {}    # operator -> diagonal leaves stored through one triangle
        self.defs = {}         # dense leaf buffers -> the operator block they hold
        self.svd = {}          # (u, s, vt) -> (rows, cols, kept, value)
        self.snapnames = {}
        self.snaps = {}        # name -> (rows, value): composite values read at a place not decided yet
        self.rewrites = []     # list of (word tuple, MatVal-items) exact rewriting of adjacent factors

    # ---- factor utilities
    def nf(self, f):
        F = self.F
        f = sub_factor_poly(f, F.norm)
        k = f[0]
        if k == "v":
            _, b, off, r, c, rs, cs, op = f
            if not self.cplx:
                op = "N"
            if r == 1:
                rs = ZERO
            if c == 1:
                cs = ZERO
            if b in self.defs:
                x = self.block_of(b, off, r, c, rs, cs, op)
                if x is not None:
                    return x
            if b in self.symbufs:
                x = self.symnf(b, off, r, c, rs, cs, op)
                if x is not None:
                    return x
            return ("v", b, off, r, c, rs, cs, op)
        if not self.cplx and k not in ("diag", "sub"):
            if k == "ones":
                return f
            op = f[-1] if k != "tri" else f[7]
            n = {"C": "T", "J": "N"}.get(op, op)
            if n != op:
                f = f[:-1] + (n,) if k != "tri" else f[:7] + (n,) + f[8:]
        if k == "diag":
            return ("diag", self.nf(f[1]), f[2])
        if k == "sub":
            g = self.nf(f[1])
            R, C = self.fdims(g)
            if f[2].is_zero() and f[4].is_zero() and F.eq(f[3], R) and F.eq(f[5], C):
                return g
            return ("sub", g) + f[2:]
        if k == "sym":
            kind, op = f[6], f[7]
            if not self.cplx:
                kind = "S"
            if kind == "S":
                op = {"T": "N", "C": "J"}.get(op, op)
            else:
                op = {"C": "N", "T": "J"}.get(op, op)
            f = f[:6] + (kind, op)
            if f[1] in self.defs:
                ts, ss, hf, sg, uplo, pref, sn = self.defs[f[1]]
                if sn and f[6] == (sg if self.cplx else "S") and f[5] == uplo and f[2].is_zero() and F.eq(f[3], ts) and (F.eq(f[4], ts) or F.eq(ts, ONE)) and (sg != "N"):
                    # the triangle holds a symmetric (hermitian) block: written with the operation of the case
                    if not self.cplx:
                        op = {"N": "N", "T": "T", "C": "T", "J": "N"}[pref]
                    elif sg == "S":
                        same = {"N": "N", "T": "N", "C": "J", "J": "J"}
                        op = pref if same[op] == same[pref] else op
                    else:
                        same = {"N": "N", "C": "N", "T": "J", "J": "J"}
                        op = pref if same[op] == same[pref] else op
                    return self.nf(hf[:6] + (op,))
        if k == "op" and f[1] in self.perm and f[-1] in "CJ":
            f = f[:-1] + ({"C": "T", "J": "N"}[f[-1]],)
        if k == "op" and f[1] in self.sym_ops:
            kind = self.sym_ops[f[1]] if self.cplx else "S"
            op = f[-1]
            if kind == "S":
                op = {"T": "N", "C": "J"}.get(op, op)
            else:
                op = {"C": "N", "T": "J"}.get(op, op)
            f = f[:-1] + (op,)
        if k == "H" and self.cplx and f[1] in self.symblocks:
            for to, ts, so, ss, sg, pref, sn in self.symblocks[f[1]]:
                if F.preds.get(("symeq", sn, sg)) and F.eq(f[3], ts) and F.eq(f[5], ss) and F.eq(f[2], to) and F.eq(f[4], so):
                    same = {"N": "N", "T": "N", "C": "J", "J": "J"} if sg == "S" else {"N": "N", "C": "N", "T": "J", "J": "J"}
                    if same[f[6]] == same[pref]:
                        f = f[:6] + (pref,)
        if k == "H" and f[1] in self.sym_ops:
            kind = self.sym_ops[f[1]] if self.cplx else "S"
            _, nm, r0, r, c0, c, op = f
            if kind == "S" and op in "TC":
                op = TOG_T[op]
                r0, r, c0, c = c0, c, r0, r
            elif kind == "H" and op in "TC":
                # H^C = H, H^T = conj(H)
                op = {"C": "N", "T": "J"}[op]
                r0, r, c0, c = c0, c, r0, r
            f = ("H", nm, r0, r, c0, c, op)
        return f

    def symnf(self, b, off, r, c, rs, cs, op):
        """blocks of a symmetric (hermitian) operator read by columns"""
        F = self.F
        ld, kind = self.symbufs[b]
        if not self.cplx:
            kind = "S"
        if op in "TC":
            r, c, rs, cs, op = c, r, cs, rs, TOG_T[op]
        if (F.eq(r, ONE) or F.eq(rs, ONE)) and (F.eq(c, ONE) or F.eq(cs, ld)):
            return ("v", b, off, r, c, rs, cs, op)
        q = self._coords(off, c, r, cs, rs, ld)
        if q is None:
            return None
        # transposed storage of the c x r block at q: the mirrored r x c block
        i, j = q
        if kind == "H":
            op = {"N": "J", "J": "N"}[op]
        return ("v", b, F.norm(j + i * ld), r, c, ONE if r != 1 else ZERO, F.norm(P(ld)) if c != 1 else ZERO, op)

    def _coords(self, off, r, c, rs, cs, ld):
        F = self.F
        if not ((F.eq(r, ONE) or F.eq(rs, ONE)) and (F.eq(c, ONE) or F.eq(cs, ld))):
            return None
        q = _polydiv(F.norm(off), F.norm(ld)) if not off.is_zero() else ZERO
        i = F.norm(off - q * ld)
        if F.nonneg(i) and F.nonneg(ld - i - r):
            return i, q
        return None

    def block_of(self, b, off, r, c, rs, cs, op):
        F = self.F
        ts, ss, hf, sg, uplo, pref, sn = self.defs[b]
        if sn and not (F.preds.get(("symeq", sn, "N")) or F.preds.get(("symeq", sn, sg)) is False):
            return None
        if r.is_zero() or c.is_zero():
            return None
        for tr in (False, True):
            if tr:
                r, c, rs, cs = c, r, cs, rs
            if not ((F.eq(r, ONE) or F.eq(rs, ONE)) and (F.eq(c, ONE) or F.eq(cs, ts))):
                continue
            q = _polydiv(F.norm(off), F.norm(ts)) if not off.is_zero() else ZERO
            r0 = F.norm(off - q * ts)
            if not (F.nonneg(r0) and F.nonneg(ts - r0 - r)):
                continue
            _, nm, a, m, d, n, o = hf
            g = ("H", nm, a + r0, r, d + q, c, "N")
            o = op
            if tr:
                o = TOG_T[op]
            return self.nf(g[:6] + (o,))
        return None

    def fdims(self, f):
        k = f[0]
        if k == "v":
            return f[3], f[4]
        if k == "sym":
            return f[3], f[3]
        if k == "tri":
            return f[3], f[3]
        if k == "H":
            r, c = f[3], f[5]
            return (c, r) if f[6] in "TC" else (r, c)
        if k == "op":
            r, c = f[2], f[3]
            return (c, r) if f[-1] in "TC" else (r, c)
        if k == "ones":
            return f[1], f[2]
        if k == "sub":
            return f[3], f[5]
        if k == "diag":
            return f[2], f[2]
        raise Undecided("fdims " + str(f))

    def fT(self, f):
        k = f[0]
        if k == "v":
            _, b, off, r, c, rs, cs, op = f
            return self.nf(("v", b, off, c, r, cs, rs, op))
        if k == "ones":
            return ("ones", f[2], f[1])
        if k == "diag":
            return f
        if k == "tri":
            return self.nf(f[:7] + (TOG_T[f[7]],) + f[8:])
        if k == "sub":
            return self.nf(("sub", self.fT(f[1]), f[4], f[5], f[2], f[3]))
        return self.nf(f[:-1] + (TOG_T[f[-1]],))

    def fJ(self, f):
        if not self.cplx:
            return f
        k = f[0]
        if k == "ones":
            return f
        if k == "diag":
            return ("diag", self.fJ(f[1]), f[2])
        if k == "tri":
            return self.nf(f[:7] + (TOG_J[f[7]],) + f[8:])
        if k == "sub":
            return self.nf(("sub", self.fJ(f[1])) + f[2:])
        return self.nf(f[:-1] + (TOG_J[f[-1]],))

    def frestrict(self, f, axis, a, m):
        """rows (axis 0) or columns (axis 1) [a, a+m) of a factor"""
        F = self.F
        R, C = self.fdims(f)
        full = C if axis else R
        if F.zero(a) and F.eq(m, full):
            return f
        k = f[0]
        if k == "v":
            _, b, off, r, c, rs, cs, op = f
            if axis == 0:
                return self.nf(("v", b, off + P(a) * rs, m, c, rs, cs, op))
            return self.nf(("v", b, off + P(a) * cs, r, m, rs, cs, op))
        if k == "H":
            _, nm, r0, r, c0, c, op = f
            if (axis == 0) == (op in "NJ"):
                return self.nf(("H", nm, r0 + P(a), P(m), c0, c, op))
            return self.nf(("H", nm, r0, r, c0 + P(a), P(m), op))
        if k == "ones":
            return ("ones", P(m), C) if axis == 0 else ("ones", R, P(m))
        if k == "sub":
            if axis == 0:
                return self.nf(("sub", f[1], f[2] + P(a), P(m), f[4], f[5]))
            return self.nf(("sub", f[1], f[2], f[3], f[4] + P(a), P(m)))
        if axis == 0:
            return self.nf(("sub", f, P(a), P(m), ZERO, C))
        return self.nf(("sub", f, ZERO, R, P(a), P(m)))

    # ---- coefficients
    def cJ(self, p):
        if not self.cplx:
            return p
        r = Poly({})
        for m, c in p.d.items():
            mm = []
            for a in m:
                if a.startswith("~$"):
                    mm.append(a[1:])
                elif a.startswith("$"):
                    mm.append("~" + a)
                else:
                    mm.append(a)
            r = r + Poly({tuple(sorted(mm)): c})
        return r

    # ---- MatVal constructors
    def zero(self, r, c):
        return MatVal(P(r), P(c), {})

    def of_factor(self, f, coef=ONE):
        f = self.nf(f)
        r, c = self.fdims(f)
        if self.F.zero(r) or self.F.zero(c):
            return MatVal(r, c, {})
        return MatVal(r, c, {(ZERO, r, ZERO, c, (f,)): coef})

    def view(self, buf, v, op="N"):
        return self.of_factor(("v", buf, v.off, v.r, v.c, v.rs, v.cs, op))

    def ident(self, n):
        return MatVal(P(n), P(n), {(ZERO, P(n), ZERO, P(n), ()): ONE})

    # ---- normal form
    def norm(self, M):
        if is_unk(M):
            return M
        F = self.F
        out = {}
        for (ro, rr, co, cc, w), coef in M.items.items():
            coef = F.norm(coef)
            if coef.is_zero():
                continue
            ro, rr, co, cc = F.norm(ro), F.norm(rr), F.norm(co), F.norm(cc)
            if rr.is_zero() or cc.is_zero():
                continue
            w = tuple(self.nf(f) for f in w)
            # vanishing inner dimension
            dead = False
            for f in w:
                a, b = self.fdims(f)
                if a.is_zero() or b.is_zero():
                    dead = True
                if self.rkzero and f[0] == "H":
                    for at in f[3].atoms() | f[5].atoms():
                        if at in self.rkzero and F.zero(self.rkzero[at]):
                            dead = True
            if dead:
                continue
            w = self.simplify_word(w)
            if isinstance(w, Unk):
                return w
            if self.snaps or ((self.pairs or self.svd) and len(w) > 1):
                x = self.unsnap(w) if self.snaps else None
                if x is None and (self.pairs or self.svd) and len(w) > 1:
                    x = self.expand_pair(w)
                if x is not None:
                    for (so, sr, to, tc, w2), c2 in self.place(x, M.r, M.c, ro, co).items.items():
                        k = (so, sr, to, tc, w2)
                        v = out.get(k, ZERO) + coef * c2
                        if v.is_zero():
                            out.pop(k, None)
                        else:
                            out[k] = v
                    continue
            k = (ro, rr, co, cc, w)
            v = out.get(k, ZERO) + coef
            if v.is_zero():
                out.pop(k, None)
            else:
                out[k] = v
        return MatVal(F.norm(M.r), F.norm(M.c), out)

    def simplify_word(self, w):
        w = list(w)
        ch = True
        while ch:
            ch = False
            for i in range(len(w) - 1):
                a, b = w[i], w[i + 1]
                # permutation / orthogonal inverse pairs
                if a[0] == "op" and b[0] == "op" and a[1] == b[1] and a[1] in self.perm and {a[-1], b[-1]} in ({"N", "T"}, {"N", "C"}):
                    del w[i:i + 2]
                    ch = True
                    break
                if a[0] == "tri" and b[0] == "tri" and a[:8] == b[:8] and a[8] != b[8]:
                    del w[i:i + 2]
                    ch = True
                    break
                if a[0] == "diag" and b[0] == "diag" and a == b and a[1][0] == "v" and a[1][1].startswith("sqrt("):
                    w[i:i + 2] = [("diag", self.nf(("v", a[1][1][5:-1]) + a[1][2:]), a[2])]
                    ch = True
                    break
                if a[0] == "v" and a == b and a[1].startswith("sqrt(") and self.F.eq(a[3], ONE) and self.F.eq(a[4], ONE):
                    w[i:i + 2] = [self.nf(("v", a[1][5:-1]) + a[2:])]
                    ch = True
                    break
                for pat, rep in self.rewrites:
                    if tuple(w[i:i + len(pat)]) == pat:
                        w[i:i + len(pat)] = list(rep)
                        ch = True
                        break
                if ch:
                    break
        return tuple(w)

    def expand_pair(self, w):
        """products of two factors whose exact value is known (low-rank factors of a block)"""
        for i in range(len(w) - 2):
            a, d, b = w[i:i + 3]
            if d[0] == "v" and self.F.eq(d[3], ONE) and self.F.eq(d[4], ONE):
                d = ("diag", d, ONE)
            if a[0] != "v" or b[0] != "v" or d[0] != "diag" or d[1][0] != "v":
                continue
            k = self.svd.get((a[1], d[1][1], b[1]))
            if k is None:
                continue
            m, n, t, val = k
            F = self.F
            if not (F.eq(a[4], t) and F.eq(b[3], t) and F.zero(d[1][2]) and F.eq(d[2], t)):
                continue
            if not ((F.eq(a[5], ONE) or F.eq(a[3], ONE)) and (F.eq(a[6], m) or F.eq(t, ONE)) and (F.eq(b[5], ONE) or F.eq(t, ONE)) and (F.eq(b[6], n) or F.eq(b[4], ONE))):
                continue
            if a[7] != "N" or b[7] != "N":
                continue
            bo = _polydiv(F.norm(b[2]), F.norm(n))
            if not F.zero(bo * n - b[2]):
                continue
            x = self.sub(val, a[2], a[3], bo, b[4])
            for f in reversed(w[:i]):
                x = self.mul(self.of_factor(f), x)
            for f in w[i + 3:]:
                x = self.mul(x, self.of_factor(f))
            return None if is_unk(x) else x
        for i in range(len(w) - 1):
            a, b = w[i], w[i + 1]
            if a[0] != "v" or b[0] != "v":
                continue
            tr = False
            d = self.pairs.get((a[1], b[1]))
            if d is None:
                d = self.pairs.get((b[1], a[1]))
                tr = True
                a, b = self.fT(b), self.fT(a)
            if d is None:
                continue
            m, n, rank, val = d
            F = self.F
            (_, _, o1, r1, c1, rs1, cs1, op1), (_, _, o2, r2, c2, rs2, cs2, op2) = a, b
            if op1 != op2 or not F.eq(c1, rank) or not F.eq(r2, rank):
                continue
            one_row, one_col = F.eq(r1, ONE), F.eq(c2, ONE)
            if not ((F.eq(rs1, ONE) or one_row) and (F.eq(cs1, m) or F.eq(rank, ONE))):
                continue
            if not ((F.eq(rs2, ONE) or F.eq(rank, ONE)) and (F.eq(cs2, rank) or one_col)):
                continue
            bo = _polydiv(F.norm(o2), F.norm(rank))
            if not F.zero(bo * rank - o2):
                continue
            x = self.sub(val, o1, r1, bo, c2)
            if is_unk(x):
                continue
            if op1 == "J":
                x = self.J(x)
            if tr:
                x = self.T(x)
            for f in reversed(w[:i]):
                x = self.mul(self.of_factor(f), x)
            for f in w[i + 2:]:
                x = self.mul(x, self.of_factor(f))
            return None if is_unk(x) else x
        return None

    # ---- operations
    def add(self, A, B, ca=ONE, cb=ONE):
        if is_unk(A):
            return A
        if is_unk(B):
            return B
        out = {}
        for M, k in ((A, P(ca)), (B, P(cb))):
            for key, v in M.items.items():
                x = out.get(key, ZERO) + v * k
                out[key] = x
        return self.norm(MatVal(A.r, A.c, out))

    def scale(self, k, A):
        if is_unk(A):
            return A
        if isinstance(k, MatVal):
            if self.F.eq(A.c, ONE):
                return self.mul(A, k)
            if self.F.eq(A.r, ONE):
                return self.mul(k, A)
            return Unk("block scaled by an element")
        return self.norm(MatVal(A.r, A.c, {key: v * P(k) for key, v in A.items.items()}))

    def T(self, A):
        if is_unk(A):
            return A
        return MatVal(A.c, A.r, {(co, cc, ro, rr, tuple(self.fT(f) for f in reversed(w))): v for (ro, rr, co, cc, w), v in A.items.items()})

    def J(self, A):
        if is_unk(A) or not self.cplx:
            return A
        return MatVal(A.r, A.c, {(ro, rr, co, cc, tuple(self.fJ(f) for f in w)): self.cJ(v) for (ro, rr, co, cc, w), v in A.items.items()})

    def op(self, o, A):
        if o == "N":
            return A
        if o == "T":
            return self.T(A)
        if o == "C":
            return self.J(self.T(A))
        if o == "J":
            return self.J(A)
        return Unk("op %s" % o)

    def mul(self, A, B):
        if is_unk(A):
            return A
        if is_unk(B):
            return B
        F = self.F
        if F.zero(A.c) or F.zero(B.r):
            return self.zero(A.r, B.c)
        if not F.eq(A.c, B.r):
            return Unk("inner dimensions %s / %s" % (F.norm(A.c), F.norm(B.r)))
        out = MatVal(A.r, B.c, {})
        for (ro, rr, co, cc, w1), v1 in A.items.items():
            for (so, sr, to, tc, w2), v2 in B.items.items():
                x1, x2 = (ro, rr, co, cc, w1), (so, sr, to, tc, w2)
                if F.eq(co, so) and F.eq(cc, sr):
                    pass
                elif F.disjoint(co, cc, so, sr):
                    continue
                elif F.inside(so, sr, co, cc):
                    x1 = self.irestrict(x1, 1, P(so), P(sr))
                elif F.inside(co, cc, so, sr):
                    x2 = self.irestrict(x2, 0, P(co), P(cc))
                else:
                    return Unk("partial overlap [%s,+%s) / [%s,+%s)" % (co, cc, so, sr))
                if x1 is None or x2 is None:
                    continue
                key = (x1[0], x1[1], x2[2], x2[3], x1[4] + x2[4])
                out.items[key] = out.items.get(key, ZERO) + v1 * v2
        return self.norm(out)

    def irestrict(self, item, axis, a, m):
        """restrict an item to the absolute rows/columns [a,a+m) that lie inside it; placement stays absolute"""
        ro, rr, co, cc, w = item
        if axis == 0:
            if not w:
                d = a - ro
                return (a, m, co + d, m, w)
            return (a, m, co, cc, (self.frestrict(w[0], 0, a - ro, m),) + w[1:])
        if not w:
            d = a - co
            return (ro + d, m, a, m, w)
        return (ro, rr, a, m, w[:-1] + (self.frestrict(w[-1], 1, a - co, m),))

    def snapshot(self, A, r0, r, c0, c):
        """name a composite value so that a block of it can be written before its place is decided"""
        A = self.norm(A)
        if is_unk(A) or any("<" in a for a in A.poly_atoms()) or any(f[0] == "v" and f[1] in self.snaps for it in A.items for f in it[4]):
            return None
        key = str(A)
        nm = self.snapnames.setdefault(key, "snap#%d" % len(self.snapnames))
        self.snaps[nm] = (A.r, A)
        return self.of_factor(("v", nm, P(r0) + P(c0) * A.r, P(r), P(c), ONE, A.r, "N"))

    def unsnap(self, w):
        """a block of a named composite value, once its place is decided"""
        for i, f in enumerate(w):
            if f[0] != "v" or f[1] not in self.snaps:
                continue
            _, nm, off, r, c, rs, cs, op = f
            ld, val = self.snaps[nm]
            for tr in (False, True):
                a = (c, r, cs, rs) if tr else (r, c, rs, cs)
                q = self._coords(off, *a, ld)
                if q is None:
                    continue
                x = self.sub(val, q[0], a[0], q[1], a[1], snap=False)
                if is_unk(x):
                    continue
                if tr:
                    x = self.T(x)
                if op == "J":
                    x = self.J(x)
                for g in reversed(w[:i]):
                    x = self.mul(self.of_factor(g), x)
                for g in w[i + 1:]:
                    x = self.mul(x, self.of_factor(g))
                return None if is_unk(x) else x
        return None

    def sub(self, A, r0, r, c0, c, snap=True):
        """block of a MatVal"""
        if is_unk(A):
            return A
        F = self.F
        items = dict(A.items)
        for axis, a, m, full in ((0, P(r0), P(r), A.r), (1, P(c0), P(c), A.c)):
            if F.zero(a) and F.eq(m, full):
                continue
            nxt = {}
            for it, v in items.items():
                o, n = (it[0], it[1]) if axis == 0 else (it[2], it[3])
                if F.inside(o, n, a, m):
                    x = it
                elif F.disjoint(o, n, a, m):
                    continue
                elif F.inside(a, m, o, n):
                    x = self.irestrict(it, axis, a, m)
                else:
                    # overlap with a decidable intersection
                    lo = o if F.nonneg(o - a) else (a if F.nonneg(a - o) else None)
                    hi = (o + n) if F.nonneg(a + m - o - n) else ((a + m) if F.nonneg(o + n - a - m) else None)
                    if lo is None or hi is None:
                        x = self.snapshot(A, r0, r, c0, c) if snap else None
                        if x is not None:
                            return x
                        return Unk("block [%s,+%s) of [%s,+%s)" % (F.norm(a), F.norm(m), F.norm(o), F.norm(n)))
                    x = self.irestrict(it, axis, lo, hi - lo)
                if axis == 0:
                    x = (x[0] - a,) + x[1:]
                else:
                    x = x[:2] + (x[2] - a,) + x[3:]
                nxt[x] = nxt.get(x, ZERO) + v
            items = nxt
        return self.norm(MatVal(P(r), P(c), items))

    def place(self, A, r, c, r0, c0):
        """embed A at (r0,c0) of an r x c zero matrix"""
        if is_unk(A):
            return A
        return self.norm(MatVal(P(r), P(c), {(ro + P(r0), rr, co + P(c0), cc, w): v for (ro, rr, co, cc, w), v in A.items.items()}))

    def reshape_flat(self, A, d, v):
        """A: L x 1 value with flat single-view items; the r x c view at displacement d with strides v.rs, v.cs"""
        if is_unk(A):
            return A
        F = self.F
        out = {}
        for (ro, rr, co, cc, w), k in A.items.items():
            if len(w) == 1 and w[0][0] == "ones":
                if not (F.zero(ro) and F.eq(rr, A.r)):
                    return Unk("reshape of a partial constant")
                out[(ZERO, v.r, ZERO, v.c, (("ones", v.r, v.c),))] = k
                continue
            if len(w) != 1 or w[0][0] != "v":
                return Unk("reshape of a product")
            if not (F.zero(ro) and F.eq(rr, A.r)):
                return Unk("reshape of a placed item")
            _, b, off, r, c, rs, cs, op = w[0]
            f = self.nf(("v", b, off + d * rs, v.r, v.c, v.rs * rs, v.cs * rs, op))
            key = (ZERO, v.r, ZERO, v.c, (f,))
            out[key] = out.get(key, ZERO) + k
        return self.norm(MatVal(v.r, v.c, out))

    def equal(self, A, B):
        """True / False / None(undecided)"""
        if is_unk(A) or is_unk(B):
            return None
        A, B = self.norm(A), self.norm(B)
        if is_unk(A) or is_unk(B):
            return None
        if not (self.F.eq(A.r, B.r) and self.F.eq(A.c, B.c)):
            if self.F.zero(A.r * A.c) and self.F.zero(B.r * B.c):
                return True
            return False
        D = self.add(A, B, ONE, -ONE)
        if is_unk(D):
            return None
        if not D.items:
            return True
        for (ro, rr, co, cc, w), k in D.items.items():
            for f in w:
                if f[0] == "unk":
                    return None
        D = self.refine(D)
        if is_unk(D):
            return None
        if any(f[0] == "v" and f[1] in self.snaps for it in D.items for f in it[4]):
            return None
        return not D.items

    def refine(self, D):
        """cut every item of a non-vanishing difference along the block boundaries of the other items"""
        F = self.F
        for rnd in range(3):
            start = set(D.items)
            for axis in (0, 1):
                cuts = []
                for it in D.items:
                    o, n = (it[0], it[1]) if axis == 0 else (it[2], it[3])
                    for x in (o, F.norm(o + n)):
                        if x not in cuts:
                            cuts.append(x)
                if len(cuts) <= 2 or len(cuts) > 40:
                    continue
                for x in cuts:
                    nxt = {}
                    ch = False
                    for it, k in D.items.items():
                        o, n = (it[0], it[1]) if axis == 0 else (it[2], it[3])
                        lo, hi = F.norm(x - o), F.norm(o + n - x)
                        if not it[4] and not F.eq(it[1], it[3]):
                            parts = [it]
                        elif lo.is_zero() or hi.is_zero() or not (F.nonneg(lo) and F.nonneg(hi)):
                            parts = [it]
                        else:
                            parts = [self.irestrict(it, axis, o, lo), self.irestrict(it, axis, x, hi)]
                            ch = True
                        for q in parts:
                            nxt[q] = nxt.get(q, ZERO) + k
                    if ch:
                        D = self.norm(MatVal(D.r, D.c, nxt))
                        if is_unk(D) or not D.items:
                            return D
            # inner dimensions
            dims = []
            for it in D.items:
                for f in it[4][:-1]:
                    d = F.norm(self.fdims(f)[1])
                    if d not in dims:
                        dims.append(d)
            if 1 < len(dims) <= 12:
                for it in list(D.items):
                    if it not in D.items:
                        continue
                    w = it[4]
                    for i in range(len(w) - 1):
                        n = F.norm(self.fdims(w[i])[1])
                        for d in dims:
                            if d == n:
                                continue
                            rest = F.norm(n - d)
                            if rest.is_zero() or not F.nonneg(rest) or F.norm(rest) not in dims:
                                continue
                            k = D.items[it]
                            nxt = dict(D.items)
                            del nxt[it]
                            for a, m in ((ZERO, d), (d, rest)):
                                w2 = w[:i] + (self.frestrict(w[i], 1, a, m), self.frestrict(w[i + 1], 0, a, m)) + w[i + 2:]
                                q = it[:4] + (w2,)
                                nxt[q] = nxt.get(q, ZERO) + k
                            D2 = self.norm(MatVal(D.r, D.c, nxt))
                            if is_unk(D2):
                                return D2
                            if not D2.items:
                                return D2
                            if len(D2.items) < len(D.items):
                                D = D2
                                break
                        if it not in D.items:
                            break
            if set(D.items) == start:
                break
        return D


class MatVal:
    __slots__ = ("r", "c", "items")

    def __init__(self, r, c, items):
        self.r, self.c, self.items = r, c, items

    def __repr__(self):
        if not self.items:
            return "0(%s x %s)" % (self.r, self.c)
        parts = []
        for (ro, rr, co, cc, w), v in sorted(self.items.items(), key=lambda t: str(t[0])):
            s = " ".join(show_factor(f) for f in w) if w else "I"
            pl = ""
            if not (ro.is_zero() and co.is_zero() and rr == self.r and cc == self.c):
                pl = "@(%s,%s; %sx%s)" % (ro, co, rr, cc)
            parts.append("(%s)*%s%s" % (v, s, pl))
        return " + ".join(parts)

    def factors(self):
        for (ro, rr, co, cc, w) in self.items:
            for f in w:
                yield f

    def poly_atoms(self):
        s = set()
        for (ro, rr, co, cc, w), v in self.items.items():
            for x in (ro, rr, co, cc, v):
                s |= x.atoms()
            for f in w:
                s |= factor_atoms(f)
        return s

    def subs(self, mp):
        return MatVal(self.r.subs(mp), self.c.subs(mp), {
            (ro.subs(mp), rr.subs(mp), co.subs(mp), cc.subs(mp), tuple(sub_factor_poly(f, lambda p: p.subs(mp)) for f in w)): v.subs(mp)
            for (ro, rr, co, cc, w), v in self.items.items()})


def factor_atoms(f):
    s = set()
    for x in f:
        if isinstance(x, Poly):
            s |= x.atoms()
        elif isinstance(x, tuple):
            s |= factor_atoms(x)
    return s


def show_factor(f):
    k = f[0]
    if k == "v":
        _, b, off, r, c, rs, cs, op = f
        o = "" if op == "N" else "^" + op
        return "%s[%s:%sx%s|%s,%s]%s" % (b, off, r, c, rs, cs, o)
    if k == "sym":
        return "%s(%s[%s:%s|%s],%s)^%s" % ({"S": "sym", "H": "herm"}[f[6]], f[1], f[2], f[3], f[4], f[5], f[7])
    if k == "H":
        return "%s[%s+%s,%s+%s]^%s" % f[1:]
    if k == "op":
        return "%s^%s" % (f[1], f[-1])
    return str(f)


# --------------------------------------------------------------------------- buffers
class Node:
    __slots__ = ("prev", "view", "val", "line")

    def __init__(self, prev, view, val, line):
        self.prev, self.view, self.val, self.line = prev, view, val, line


class Buffer:
    _n = 0

    def __init__(self, name, size, base="init", elem="s"):
        Buffer._n += 1
        self.name = name
        self.size = size
        self.base = base          # 'init' | 'zero' | 'uninit' | Unk
        self.head = None
        self.elem = elem
        self.freed = False
        self.uid = Buffer._n

    def __repr__(self):
        return "<%s>" % self.name

    def label_(self):
        return getattr(self, "label", None) or self.name


class Memory:
    def __init__(self, alg):
        self.alg = alg
        self.F = alg.F

    def base_read(self, buf, v):
        if isinstance(buf.base, Unk):
            return buf.base
        if buf.base == "zero":
            return self.alg.zero(v.r, v.c)
        nm = getattr(buf, "alias", None) or buf.name
        if callable(buf.base):
            return buf.base(v)
        if buf.base == "uninit":
            return self.alg.view(nm if nm.startswith("uninit:") else "uninit:" + nm, v)
        if isinstance(buf.base, tuple) and buf.base[0] == "fill":
            return self.alg.norm(MatVal(v.r, v.c, {(ZERO, v.r, ZERO, v.c, (("ones", v.r, v.c),)): buf.base[1]}))
        return self.alg.view(nm, v)

    def read(self, buf, v):
        if getattr(buf, "renumbered", False):
            return Unk("direct access to a renumbered buffer")
        return self._read(buf, buf.head, v.norm(self.F), 0)

    def read_at(self, buf, head, v):
        return self._read(buf, head, v.norm(self.F), 0)

    def _fits(self, W, R):
        """R as a block of W (same orientation): (r0, c0) or None; False when provably disjoint"""
        F = self.F
        d = F.norm(R.off - W.off)
        rs_w, cs_w = W.rs, W.cs
        # choose the column stride
        if W.c == 1 and R.c == 1:
            # column vectors
            if W.r == 1 and R.r == 1:
                return (ZERO, ZERO) if d.is_zero() else None
            s = W.rs if W.r != 1 else R.rs
            if R.r != 1 and W.r != 1 and R.rs != W.rs:
                return None
            q = d.div(s) if not s.is_zero() else None
            return None if q is None else (q, ZERO)
        if W.r == 1 and R.r == 1:
            s = W.cs if W.c != 1 else R.cs
            if R.c != 1 and W.c != 1 and R.cs != W.cs:
                return None
            q = d.div(s) if not s.is_zero() else None
            return None if q is None else (ZERO, q)
        rs = W.rs if W.r != 1 else R.rs
        cs = W.cs if W.c != 1 else R.cs
        if R.r != 1 and W.r != 1 and R.rs != W.rs:
            return None
        if R.c != 1 and W.c != 1 and R.cs != W.cs:
            return None
        # d = r0*rs + c0*cs
        return self._split(d, rs, cs)

    def _split(self, d, rs, cs):
        """solve d = r0*rs + c0*cs with one of the strides equal to 1"""
        if rs.is_zero():
            q = d.div(cs)
            return None if q is None else (ZERO, q)
        if cs.is_zero():
            q = d.div(rs)
            return None if q is None else (q, ZERO)
        if cs == 1 and rs != 1:
            x = self._split(d, cs, rs)
            return None if x is None else (x[1], x[0])
        if rs != 1:
            q = d.div(cs)
            if q is not None:
                return (ZERO, q)
            q = d.div(rs)
            return None if q is None else (q, ZERO)
        if cs == 1 or cs.is_const():
            q = d.div(cs)
            return (ZERO, q) if q is not None else (d, ZERO)
        # polynomial division of d by the (possibly polynomial) column stride
        if len(cs.d) == 1:
            (m, k), = cs.d.items()
            q, rem = {}, {}
            for mm, c in d.d.items():
                l = list(mm)
                ok = True
                for a in m:
                    if a in l:
                        l.remove(a)
                    else:
                        ok = False
                        break
                if ok and (c % k == 0 if isinstance(c, int) and isinstance(k, int) else True):
                    t = tuple(l)
                    q[t] = q.get(t, 0) + (c // k if isinstance(c, int) and isinstance(k, int) else c / k)
                else:
                    rem[mm] = c
            return Poly(rem), Poly(q)
        # multi-term stride: try q among constants and atoms
        q = _polydiv(d, cs)
        rem = d - q * cs
        if not rem.is_zero() and not q.is_zero() and self.F.nonneg(cs - d) and self.F.nonneg(cs + d):
            return (d, ZERO)
        return (rem, q)

    def _flat(self, W):
        """contiguous block as (off, len) or None"""
        F = self.F
        if W.r == 1 and W.c == 1:
            return W.off, ONE
        if W.c == 1 and W.rs == 1:
            return W.off, W.r
        if W.r == 1 and W.cs == 1:
            return W.off, W.c
        if W.rs == 1 and W.cs == W.r:
            return W.off, F.norm(W.r * W.c)
        if W.cs == 1 and W.rs == W.c:
            return W.off, F.norm(W.r * W.c)
        return None

    def _disjoint(self, W, R):
        F = self.F
        # whole spans
        a, b = W.off, R.off
        sa, sb = W.span(), R.span()
        if F.nonneg(b - a - sa) or F.nonneg(a - b - sb):
            return True
        return False

    def _read(self, buf, node, R, depth):
        F, A = self.F, self.alg
        if R.r.is_zero() or R.c.is_zero():
            return A.zero(R.r, R.c)
        if depth > 60:
            return Unk("read depth")
        if node is None:
            return self.base_read(buf, R)
        W = node.view
        if W is None:
            if isinstance(node.val, tuple):
                for lo, hi in node.val[2] if len(node.val) > 2 else ():
                    if not (F.nonneg(lo - R.off - R.span(), 3) or F.nonneg(R.off - hi, 3)):
                        break
                else:
                    if len(node.val) > 2:       # disjoint from everything the loop writes
                        return self._read(buf, node.prev, R, depth + 1)
                return A.view(node.val[1], R)
            if hasattr(node.val, "cands"):
                return self._famread(buf, node, R, depth)
            return node.val if is_unk(node.val) else Unk("havoc")
        W = W.norm(F)
        if W.r.is_zero() or W.c.is_zero():
            return self._read(buf, node.prev, R, depth + 1)
        # exact
        if W == R:
            return A.norm(node.val)
        if W == R.T().norm(F):
            return A.T(A.norm(node.val))
        if self._disjoint(W, R):
            return self._read(buf, node.prev, R, depth + 1)
        # same memory range, contiguous, different shapes
        fw, fr = self._flat(W), self._flat(R)
        if W.c == 1 and (W.rs == 1 or W.r == 1) and not (R.c == 1 and (R.rs == 1 or R.r == 1)):
            # flat write, 2-D read
            d = F.norm(R.off - W.off)
            if F.nonneg(d) and F.nonneg(W.r - d - R.span()):
                x = A.reshape_flat(A.norm(node.val), d, R)
                return x
            # split the flat write into columns of R
            for RR, tr in ((R, False), (R.T(), True)):
                if RR.rs == 1 and not RR.cs.is_zero():
                    q, rem = None, None
                    n = W.r.div(RR.cs)
                    if n is None:
                        n2 = _polydiv(W.r, RR.cs)
                        if F.eq(n2 * RR.cs, W.r):
                            n = n2
                    if n is None:
                        continue
                    W2 = View(W.off, RR.cs, n, ONE, RR.cs).norm(F)
                    val2 = A.reshape_flat(A.norm(node.val), ZERO, W2)
                    x = self._blockread(buf, node, W2, val2, RR.norm(F), depth)
                    return A.T(x) if tr else x
            return Unk("flat write / 2-D read")
        if fw is not None and fr is not None and R.c == 1 and not (W.c == 1):
            # flat read of a 2-D write: only single-view values can be flattened
            if F.eq(fw[0], fr[0]) and F.eq(fw[1], fr[1]):
                return self._flatten(node.val, W, R)
        x = self._blockread(buf, node, W, node.val, R, depth)
        if is_unk(x):
            y = self._blockread(buf, node, W.T().norm(F), A.T(A.norm(node.val)), R, depth)
            if not is_unk(y):
                return y
        return x

    def _famread(self, buf, node, R, depth):
        F, A = self.F, self.alg
        fam = node.val
        if F.nonneg(fam.lo - R.off - R.span()) or F.nonneg(R.off - fam.hi):
            return self._read(buf, node.prev, R, depth + 1)
        for q in fam.cands(R):
            W, val = fam.at(q)
            if not (F.nonneg(R.off - W.off) and F.nonneg(W.off + W.span() - R.off - R.span())):
                continue
            x = self._read(buf, Node(None, W, val, node.line), R, depth + 1)
            return x
        return Unk("family of regions")

    def _flatten(self, val, W, R):
        A = self.alg
        val = A.norm(val)
        if is_unk(val):
            return val
        out = {}
        for (ro, rr, co, cc, w), k in val.items.items():
            full = self.F.zero(ro) and self.F.zero(co) and self.F.eq(rr, val.r) and self.F.eq(cc, val.c)
            if not full or len(w) != 1:
                return Unk("flatten")
            if w[0][0] == "ones":
                out[(ZERO, R.r, ZERO, ONE, (("ones", R.r, ONE),))] = k
                continue
            if w[0][0] != "v":
                return Unk("flatten")
            _, b, off, r, c, rs, cs, op = w[0]
            # source must have the same contiguous order as W
            if W.rs == 1 and (rs == 1 or r == 1) and (cs == r or c == 1):
                pass
            elif W.cs == 1 and (cs == 1 or c == 1) and (rs == c or r == 1):
                pass
            else:
                return Unk("flatten order")
            f = A.nf(("v", b, off, R.r, ONE, ONE, ZERO, op))
            key = (ZERO, R.r, ZERO, ONE, (f,))
            out[key] = out.get(key, ZERO) + k
        return A.norm(MatVal(R.r, R.c, out))

    def _blockread(self, buf, node, W, val, R, depth):
        F, A = self.F, self.alg
        p = self._fits(W, R)
        if p is None:
            return Unk("incompatible strides %s / %s" % (W, R))
        r0, c0 = F.norm(p[0]), F.norm(p[1])
        cs = W.cs if W.c != 1 else R.cs
        if not cs.is_const() and len(cs.d) > 1 and (W.rs if W.r != 1 else R.rs) == 1 and not (F.inside(r0, R.r, ZERO, W.r) and F.inside(c0, R.c, ZERO, W.c)) and not self._same_grid(W, R, r0, c0):
            # the quotient by the stride is only known up to one column
            for r1, c1 in ((r0 - cs, c0 + 1), (r0 + cs, c0 - 1)):
                r1, c1 = F.norm(r1), F.norm(c1)
                if self._same_grid(W, R, r1, c1):
                    r0, c0 = r1, c1
                    break
        # R occupies rows [r0, r0+R.r), cols [c0, c0+R.c) in W's coordinates
        rin = F.inside(r0, R.r, ZERO, W.r)
        cin = F.inside(c0, R.c, ZERO, W.c)
        if rin and cin:
            return A.sub(A.norm(val), r0, R.r, c0, R.c)
        # the column-wise layout must be non-overlapping for block reasoning: rows within a column stride
        if F.disjoint(r0, R.r, ZERO, W.r) or F.disjoint(c0, R.c, ZERO, W.c):
            # coordinates disjoint; sound when both stay inside one leading dimension
            if self._same_grid(W, R, r0, c0):
                return self._read(buf, node.prev, R, depth + 1)
            return Unk("wrap-around")
        if not self._same_grid(W, R, r0, c0):
            return Unk("wrap-around")
        # overlapping: split R
        def bounds(o, n, full):
            lo = ZERO if F.nonneg(-o) else (o if F.nonneg(o) else None)
            hi = full if F.nonneg(o + n - full) else (o + n if F.nonneg(full - o - n) else None)
            return lo, hi
        rl, rh = bounds(r0, R.r, W.r)
        cl, ch = bounds(c0, R.c, W.c)
        if None in (rl, rh, cl, ch):
            return Unk("undetermined overlap")
        inner = A.sub(A.norm(val), rl, rh - rl, cl, ch - cl)
        res = A.place(inner, R.r, R.c, rl - r0, cl - c0)
        pieces = [
            (ZERO, rl - r0, ZERO, R.c),
            (rh - r0, r0 + R.r - rh, ZERO, R.c),
            (rl - r0, rh - rl, ZERO, cl - c0),
            (rl - r0, rh - rl, ch - c0, c0 + R.c - ch),
        ]
        for a, n, b, m in pieces:
            n, m = F.norm(n), F.norm(m)
            if n.is_zero() or m.is_zero():
                continue
            x = self._read(buf, node.prev, R.sub(a, n, b, m).norm(F), depth + 1)
            res = A.add(res, A.place(x, R.r, R.c, a, b))
            if is_unk(res):
                return res
        return res

    def _same_grid(self, W, R, r0, c0):
        """rows of both views stay inside one leading dimension of the common grid"""
        F = self.F
        rs = W.rs if W.r != 1 else R.rs
        cs = W.cs if W.c != 1 else R.cs
        if W.c == 1 and R.c == 1:
            return True
        if W.r == 1 and R.r == 1 and r0.is_zero():
            return True
        if rs.is_zero() or cs.is_zero():
            return True
        lo = ZERO if F.nonneg(r0) else (r0 if F.nonneg(-r0) else None)
        if lo is None:
            return False
        if rs == 1:
            return F.nonneg(cs - (W.r - lo)) and F.nonneg(cs - (r0 + R.r - lo))
        if cs == 1:
            lo = ZERO if F.nonneg(c0) else (c0 if F.nonneg(-c0) else None)
            return lo is not None and F.nonneg(rs - (W.c - lo)) and F.nonneg(rs - (c0 + R.c - lo))
        return F.nonneg(cs - rs * (W.r - lo)) and F.nonneg(cs - rs * (r0 + R.r - lo))

    def write(self, buf, v, val, line=0):
        v = v.norm(self.F)
        if not is_unk(val):
            val = self.alg.norm(val)
        buf.head = Node(buf.head, v, val, line)

    def havoc(self, buf, why, line=0):
        buf.head = Node(buf.head, None, Unk(why), line)


def _polydiv(p, q):
    """quotient polynomial by matching leading monomials (best effort)"""
    res = Poly({})
    rem = p
    lead = max(q.d, key=lambda m: (len(m), m)) if q.d else None
    if lead is None:
        return res
    for _ in range(20):
        hit = None
        for m, c in rem.d.items():
            l = list(m)
            ok = True
            for a in lead:
                if a in l:
                    l.remove(a)
                else:
                    ok = False
                    break
            if ok:
                hit = Poly({tuple(l): c // q.d[lead] if isinstance(c, int) and c % q.d[lead] == 0 else c})
                break
        if hit is None:
            break
        res = res + hit
        rem = rem - hit * q
    return res
