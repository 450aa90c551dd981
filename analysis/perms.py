"""Renumberings held in integer arrays.

An array P declared as a permutation maps each of its ranges [o, o+n) onto itself.  A buffer that is only
accessed at positions  sum_k c_k * P_k[e_k] + rest  (the same arrays and the same coefficients at every access)
is replaced by the buffer accessed at  sum_k c_k * e_k + rest : both hold the same data up to the renumbering, and
distinct positions of one are distinct positions of the other.  Mixed direct and renumbered accesses are not decided."""
from poly import Poly, P, ZERO, ONE
from terms import *


def declare(ip, name, ranges, size=None):
    """integer array, a permutation of each range (offset, length)"""
    from interp import IBuf, Vec
    b = IBuf(name, size, "perm")
    b.ranges = [(P(o), P(n)) for o, n in ranges]
    ip.permarrays[name] = b
    return Vec(b, size if size is not None else Poly.atom(name + ".size"))


def concrete(ip, b):
    """one permutation that maps every declared range onto itself"""
    rs = []
    for o, n in b.ranges:
        o, n = ip.F.norm(o), ip.F.norm(n)
        if not (o.is_const() and n.is_const()):
            return None
        rs.append((int(o.const_value()), int(n.const_value())))
    cells = {}
    for o, n in rs:
        for k in range(o, o + n):
            cells.setdefault(k, frozenset(i for i, (p, q) in enumerate(rs) if p <= k < p + q))
    groups = {}
    for k, g in sorted(cells.items()):
        groups.setdefault(g, []).append(k)
    w = list(ip.permarrays.values()).index(b) if b in ip.permarrays.values() else 0
    if w % 2:       # different arrays hold different renumberings
        return {k: ks[(2 * len(ks) - 2 - i) % len(ks)] for ks in groups.values() for i, k in enumerate(ks)}
    return {k: ks[(i + 1) % len(ks)] for ks in groups.values() for i, k in enumerate(ks)}


def value(ip, b, off):
    """element of a permutation array"""
    if ip.sized is not None:
        if off.is_const():
            t = concrete(ip, b)
            if t is None:
                return Unk("renumbering of unknown size")
            k = t.get(int(off.const_value()))
            return Unk("renumbering out of range") if k is None else P(k)
        return Unk("renumbering at an unknown place")
    nm = "%s[%s]" % (b.src, off)
    ip.permatoms[nm] = (b, off)

    def again(q):
        return value(ip, b, ip.F.norm(q))
    ip.fn_atoms[nm] = (again, off)
    return Poly.atom(nm)


def matrix(ip, name, o, n, tr):
    """the renumbering of a range as a matrix: (P x)[i] = x[P[o+i]-o]"""
    A = ip.A
    o, n = ip.F.norm(P(o)), ip.F.norm(P(n))
    if ip.sized is not None:
        b = ip.permarrays[name]
        k = int(n.const_value())
        m = A.zero(n, n)
        one = A.eye(ONE) if hasattr(A, "eye") else None
        for i in range(k):
            j = int(value(ip, b, o + i).const_value() - o.const_value())
            r, c = (i, j) if tr == "N" else (j, i)
            m = A.add(m, A.place(MatVal(ONE, ONE, {(ZERO, ONE, ZERO, ONE, ()): ONE}), n, n, P(r), P(c)))
        return m
    nm = "perm:%s@%s+%s" % (name, o, n)
    A.perm.add(nm)
    return A.of_factor(("op", nm, n, n, tr))


class Bind:
    """buf holds an m x n block (leading dimension ld) whose rows / columns are renumbered"""

    def __init__(self, ip, buf, m, n=ONE, ld=None, row=None, col=None, off=ZERO, layout="c"):
        """row, col: (array name, offset) or None; off: position of the block in the buffer"""
        self.ip, self.buf, self.m, self.n = ip, buf, P(m), P(n)
        self.row, self.col, self.off = row, col, P(off)
        self.view = View(self.off, self.m, self.n, ONE, P(ld if ld is not None else m)) if layout == "c" else View(self.off, self.m, self.n, P(ld if ld is not None else n), ONE)
        if ip.sized is not None:
            return
        from interp import Buffer
        v = self.virt = Buffer(buf.name + "~", buf.size, "init")
        v.hints = list(getattr(buf, "hints", []))
        ip.M.write(v, self.view, self.renum(ip.M.read(buf, self.view), True), (None, 0))
        ip.permbufs.setdefault(buf.uid, []).append(self)

    def renum(self, x, fwd):
        A = self.ip.A
        if is_unk(x):
            return x
        if self.row:
            x = A.mul(matrix(self.ip, self.row[0], self.row[1], self.m, "N" if fwd else "T"), x)
        if self.col:
            x = A.mul(x, matrix(self.ip, self.col[0], self.col[1], self.n, "T" if fwd else "N"))
        return x

    def final(self, view=None):
        """the value in the buffer's own numbering"""
        ip = self.ip
        if ip.sized is not None:
            return ip.M.read(self.buf, self.view)
        if self.buf.head is not None:
            if self.virt.head.prev is None:     # only direct accesses
                return ip.M.read(self.buf, self.view)
            return Unk("direct and renumbered accesses")
        return self.renum(ip.M.read(self.virt, self.view), False)


def decode(ip, buf, off):
    """(buffer, offset) behind an access, or None when it is not a renumbered access of a bound buffer"""
    bs = ip.permbufs.get(buf.uid)
    F = ip.F
    ats = [a for a in off.atoms() if a in ip.permatoms]
    if not bs or not ats:
        return None
    for b in bs:
        want = []
        if b.row:
            want.append((b.row, b.view.rs, b.m))
        if b.col:
            want.append((b.col, b.view.cs, b.n))
        if len(want) != len(ats):
            continue
        mp, left = {}, list(want)
        ok = True
        for a in ats:
            arr, e = ip.permatoms[a]
            s = off.split(a)
            if s is None:
                ok = False
                break
            k = s[0]
            for w in left:
                (nm, o), c, n = w
                if nm == arr.src and F.eq(k, c) and F.nonneg(e - o) and F.nonneg(P(o) + n - 1 - e):
                    mp[a] = e
                    left.remove(w)
                    break
            else:
                ok = False
                break
        if ok and not left:
            return b.virt, F.norm(off.subs(mp))
    return None
