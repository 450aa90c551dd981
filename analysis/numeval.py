"""Decides whether two matrix terms that differ as terms differ as functions, by evaluating both with
pseudo-random uninterpreted entries in GF(p)[i] at one size vector (polynomial identity testing: a
difference is definite, agreement says the normal form was too weak).  None: some factor is not understood."""
import zlib
from fractions import Fraction
from poly import Poly
from terms import is_unk, Undecided

PR = 2147483647
CAP = 80


class Cannot(Exception):
    pass


def h(name, salt):
    a = zlib.crc32(("%s|%s" % (name, salt)).encode())
    b = zlib.crc32(("%s!%s" % (salt, name)).encode())
    return (a * 4294967291 + b * 97) % PR


class NumEval:
    def __init__(self, A, env, salt):
        self.A, self.env, self.salt = A, env, salt
        self.cx = A.cplx
        bad = set()
        for a, b in A.pairs:
            bad |= {a, b}
        for k in A.svd:
            bad |= set(k)
        self.badbuf = bad
        self.badops = set()
        for pat, rep in A.rewrites:
            for f in pat:
                self.badops.add(f[1])
        self.memo = {}

    # -- scalars
    def rnd(self, name):
        return (h(name, self.salt), h("im:" + name, self.salt) if self.cx else 0)

    @staticmethod
    def mulc(x, y):
        return ((x[0] * y[0] - x[1] * y[1]) % PR, (x[0] * y[1] + x[1] * y[0]) % PR)

    @staticmethod
    def conj(x):
        return (x[0], (-x[1]) % PR)

    def num(self, c):
        c = Fraction(c)
        return (c.numerator * pow(c.denominator, PR - 2, PR) % PR, 0)

    def coef(self, p):
        t = (0, 0)
        for m, c in p.d.items():
            x = self.num(c)
            for a in m:
                if a.startswith("$"):
                    x = self.mulc(x, self.rnd(a))
                elif a.startswith("~$"):
                    x = self.mulc(x, self.conj(self.rnd(a[1:])))
                else:
                    x = self.mulc(x, self.num(self.env[a]))
            t = ((t[0] + x[0]) % PR, (t[1] + x[1]) % PR)
        return t

    def size(self, p):
        t = Fraction(0)
        for m, c in p.d.items():
            c = Fraction(c)
            for a in m:
                if "$" in a:
                    raise Cannot("scalar in a size")
                c = c * self.env[a]
            t += c
        if t.denominator != 1:
            raise Cannot("fractional size")
        return int(t)

    # -- factors
    def entry_sym(self, nm, i, j, kind):
        if i < j:
            x = self.rnd("%s(%d,%d)" % (nm, j, i))
            return self.conj(x) if kind == "H" else x
        x = self.rnd("%s(%d,%d)" % (nm, i, j))
        if i == j and kind == "H":
            x = (x[0], 0)
        return x

    def buf(self, b, a):
        if b in self.badbuf or b in self.A.defs:
            raise Cannot("related buffer " + b)
        if b.startswith("sqrt("):
            raise Cannot("square root")
        if b in self.A.snaps:
            ld, val = self.A.snaps[b]
            k = ("snap", b)
            if k not in self.memo:
                self.memo[k] = self.mat(val)
            ld = self.size(ld)
            M = self.memo[k]
            if ld <= 0 or not 0 <= a < ld * len(M[0] if M else []):
                raise Cannot("snapshot")
            return M[a % ld][a // ld]
        if b in self.A.symbufs:
            ld, kind = self.A.symbufs[b]
            ld = self.size(ld)
            return self.entry_sym(b, a % ld, a // ld, kind if self.cx else "S")
        return self.rnd("%s[%d]" % (b, a))

    def wrap(self, M, op):
        if op in "TC":
            M = [list(x) for x in zip(*M)] if M else M
        if op in "CJ" and self.cx:
            M = [[self.conj(x) for x in r] for r in M]
        return M

    def factor(self, f):
        if f in self.memo:
            return self.memo[f]
        r = self.memo[f] = self._factor(f)
        if len(r) > CAP or (r and len(r[0]) > CAP):
            raise Cannot("too large")
        return r

    def _factor(self, f):
        S, k = self.size, f[0]
        if k == "v":
            _, b, off, r, c, rs, cs, op = f
            off, r, c, rs, cs = S(off), S(r), S(c), S(rs), S(cs)
            if r > CAP or c > CAP:
                raise Cannot("too large")
            return self.wrap([[self.buf(b, off + i * rs + j * cs) for j in range(c)] for i in range(r)], "J" if op in "JC" else "N")
        if k == "ones":
            r, c = S(f[1]), S(f[2])
            return [[(1, 0)] * c for _ in range(r)]
        if k == "H":
            _, nm, r0, r, c0, c, op = f
            r0, r, c0, c = S(r0), S(r), S(c0), S(c)
            if r > CAP or c > CAP:
                raise Cannot("too large")
            if nm in self.A.symblocks:
                raise Cannot("symmetric leaves")
            kind = self.A.sym_ops.get(nm)
            if kind:
                g = lambda i, j: self.entry_sym(nm, i, j, kind if self.cx else "S")
            else:
                g = lambda i, j: self.rnd("%s(%d,%d)" % (nm, i, j))
            return self.wrap([[g(r0 + i, c0 + j) for j in range(c)] for i in range(r)], op)
        if k == "op":
            nm, r, c, op = f[1], S(f[2]), S(f[3]), f[-1]
            if nm in self.badops:
                raise Cannot("operator with relations")
            if max(r, c) > CAP:
                raise Cannot("too large")
            if nm in self.A.perm:
                o = sorted(range(r), key=lambda i: h("%s<%d" % (nm, i), self.salt))
                return self.wrap([[(1, 0) if o[i] == j else (0, 0) for j in range(c)] for i in range(r)], op)
            kind = self.A.sym_ops.get(nm)
            return self.wrap([[self.entry_sym(nm, i, j, kind) if kind else self.rnd("%s(%d,%d)" % (nm, i, j)) for j in range(c)] for i in range(r)], op)
        if k == "sub":
            M = self.factor(f[1])
            a, m, b, n = S(f[2]), S(f[3]), S(f[4]), S(f[5])
            if a < 0 or b < 0 or a + m > len(M) or (M and b + n > len(M[0])):
                raise Cannot("sub")
            return [r[b:b + n] for r in M[a:a + m]]
        if k == "diag":
            v = self.factor(f[1])
            e = [x for r in v for x in r]
            return [[e[i] if i == j else (0, 0) for j in range(len(e))] for i in range(len(e))]
        if k == "sym":
            _, b, off, n, ld, uplo, kind, op = f
            off, n, ld = S(off), S(n), S(ld)
            if n > CAP:
                raise Cannot("too large")

            def g(i, j):
                low = i >= j
                if i != j and low != (uplo == "L"):
                    x = self.buf(b, off + j + i * ld)
                    return self.conj(x) if kind == "H" else x
                x = self.buf(b, off + i + j * ld)
                return (x[0], 0) if i == j and kind == "H" else x
            return self.wrap([[g(i, j) for j in range(n)] for i in range(n)], op)
        raise Cannot("factor " + k)

    def word(self, w, rr):
        """product, right to left not needed: sizes are tiny"""
        M = None
        for f in w:
            X = self.factor(f)
            if M is None:
                M = X
                continue
            if M and len(M[0]) != len(X):
                raise Cannot("dimensions")
            c = len(X[0]) if X else 0
            R = []
            for row in M:
                o = []
                for j in range(c):
                    a = b = 0
                    for x, xr in zip(row, X):
                        y = xr[j]
                        a += x[0] * y[0] - x[1] * y[1]
                        b += x[0] * y[1] + x[1] * y[0]
                    o.append((a % PR, b % PR))
                R.append(o)
            M = R
        return M

    def mat(self, V):
        r, c = self.size(V.r), self.size(V.c)
        if r > CAP or c > CAP or r < 0 or c < 0:
            raise Cannot("too large")
        out = [[(0, 0)] * c for _ in range(r)]
        for (ro, rr, co, cc, w), k in V.items.items():
            ro, rr, co, cc = self.size(ro), self.size(rr), self.size(co), self.size(cc)
            if rr <= 0 or cc <= 0:
                continue
            if ro < 0 or co < 0 or ro + rr > r or co + cc > c:
                raise Cannot("item outside")
            k = self.coef(k)
            M = self.word(w, rr) if w else [[(1, 0) if i == j else (0, 0) for j in range(cc)] for i in range(rr)]
            if len(M) != rr or (M and len(M[0]) != cc):
                raise Cannot("dimensions")
            for i in range(rr):
                for j in range(cc):
                    x = self.mulc(k, M[i][j])
                    y = out[ro + i][co + j]
                    out[ro + i][co + j] = ((x[0] + y[0]) % PR, (x[1] + y[1]) % PR)
        return out


def definite(A, got, want):
    """True: the terms differ for sure; False: they agree at every sample; None: cannot be evaluated"""
    if is_unk(got) or is_unk(want):
        return None
    F = A.F
    from terms import Env
    F._refuted(Poly.const(-1))
    envs = list(F.cache.get("models") or ())
    if not envs:
        ats = set()
        for x in (got, want):
            ats |= {a for a in x.poly_atoms() if "$" not in a}
        if not ats:
            envs = [Env(0, F.free)]
    agree = 0
    for n, env in enumerate(envs[:4]):
        try:
            ev = NumEval(A, env, "s%d" % n)
            a, b = ev.mat(A.norm(got)), ev.mat(A.norm(want))
        except (Cannot, KeyError, IndexError, ZeroDivisionError, Undecided):
            continue
        if a != b:
            return True
        if a and a[0]:
            agree += 1
    return False if agree >= 1 else None
