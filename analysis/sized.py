"""Second look at an obligation the size-generic analysis leaves undecided: the same abstract
interpretation with every size fixed to a small constant, so that loops are unrolled and memory is
resolved element by element.  It can only refute (a definite difference at these sizes); it proves nothing."""
import re, zlib
import poly
from poly import Poly, ZERO, ONE, P
from terms import *
import interp as I

TABLES = [
    {"m": 3, "n": 4, "k": 5, "mu": 2, "r": 2},
    {"m": 4, "n": 3, "k": 2, "mu": 3, "r": 1},
]
PATS = [(re.compile(r"^[mnkts]\d$|^[a-z]{2}\d$"), (1, 2, 3)), (re.compile(r"^[A-Za-z]{1,2}[ts]?0$"), (5, 7)), (re.compile(r"^r[A-Za-z]{1,2}\d?$|^rk_\w+$|^rank\W?\d+$|^rk#\d+$"), (2, 1)), (re.compile(r"^trank#\d+$"), (1, 1))]


class Inst(dict):
    def __init__(self, k, extra=None):
        dict.__init__(self)
        self.k = k
        self.update({a: Poly.const(v) for a, v in TABLES[k].items()})
        self.update({a: Poly.const(v) for a, v in (extra or {}).items()})
        self.no = set()

    def get(self, name, d=None):
        x = dict.get(self, name)
        if x is None and name not in self.no:
            for pat, vals in PATS:
                if pat.match(name):
                    x = self[name] = Poly.const(vals[zlib.crc32(("%s/%d" % (name, self.k)).encode()) % len(vals)])
                    break
            else:
                self.no.add(name)
        return x


def ints(v):
    t = [v.off, v.r, v.c, v.rs, v.cs]
    if all(x.is_const() for x in t):
        t = [x.const_value() for x in t]
        if all(isinstance(x, int) or x.denominator == 1 for x in t):
            return [int(x) for x in t]
    return None


class SizedMemory(Memory):
    CAP = 400

    def _cover(self, node):
        v = node.view.norm(self.F)
        t = ints(v)
        if t is None:
            return None
        o, r, c, rs, cs = t
        return {o + i * rs + j * cs: (i, j) for i in range(r) for j in range(c)}

    def _read(self, buf, node, R, depth):
        A = self.alg
        t = ints(R.norm(self.F))
        if t is None:
            n = node
            while n is not None:            # exact matches only: sizes that are not constants do not mix with constants
                if n.view is None or not (n.view.norm(self.F) == R or n.view.T().norm(self.F) == R):
                    return Unk("region of unknown place")
                n = n.prev
            return Memory._read(self, buf, node, R, depth)
        o, r, c, rs, cs = t
        if r * c > self.CAP:
            return Unk("large region")
        todo = {}
        for i in range(r):
            for j in range(c):
                todo.setdefault(o + i * rs + j * cs, []).append((i, j))
        parts = []
        n = node
        while todo and n is not None:
            if n.view is None:
                return n.val if is_unk(n.val) else Unk("loop")
            cv = self._cover(n)
            if cv is None:
                return Unk("region of unknown place")
            hit = [a for a in todo if a in cv]
            if hit:
                if is_unk(n.val):
                    return n.val
                parts.append((n, {p: cv[a] for a in hit for p in todo[a]}))
                for a in hit:
                    del todo[a]
            n = n.prev
        if todo:
            parts.append((None, {p: a for a, ps in todo.items() for p in ps}))
        if not parts:
            return A.zero(R.r, R.c)
        out = None
        for nd, mp in parts:
            x = self._part(buf, nd, mp, R, r, c, o, rs, cs)
            out = x if out is None else A.add(out, x)
            if is_unk(out):
                return out
        return out

    def _part(self, buf, nd, mp, R, r, c, o, rs, cs):
        A = self.alg
        if nd is None:
            if len(mp) == r * c:
                return self.base_read(buf, R)
            out = A.zero(R.r, R.c)
            for (i, j), a in mp.items():
                out = A.add(out, A.place(self.base_read(buf, View(P(a), ONE, ONE, ONE, ZERO)), R.r, R.c, P(i), P(j)))
            return out
        val = A.norm(nd.val)
        if is_unk(val):
            return val
        # one block in one orientation
        i0 = min(i for i, j in mp)
        j0 = min(j for i, j in mp)
        i1 = max(i for i, j in mp)
        j1 = max(j for i, j in mp)
        if len(mp) == (i1 - i0 + 1) * (j1 - j0 + 1):
            a, b = mp[(i0, j0)]
            if all(q == (a + i - i0, b + j - j0) for (i, j), q in mp.items()):
                x = A.sub(val, P(a), P(i1 - i0 + 1), P(b), P(j1 - j0 + 1))
                return A.place(x, R.r, R.c, P(i0), P(j0))
            if all(q == (a + j - j0, b + i - i0) for (i, j), q in mp.items()):
                x = A.T(A.sub(val, P(a), P(j1 - j0 + 1), P(b), P(i1 - i0 + 1)))
                return A.place(x, R.r, R.c, P(i0), P(j0))
        out = A.zero(R.r, R.c)
        for (i, j), (a, b) in mp.items():
            out = A.add(out, A.place(A.sub(val, P(a), ONE, P(b), ONE), R.r, R.c, P(i), P(j)))
            if is_unk(out):
                return out
        return out


def install(ip, k):
    ip.sized = k
    ip.M = SizedMemory(ip.A)
    ip.F.sub.update({a: Poly.const(v) for a, v in TABLES[k].items()})


class At:
    """within: sizes are the constants of table k"""

    def __init__(self, k, extra=None):
        self.k, self.extra = k, extra

    def __enter__(self):
        self.old = poly.INST
        poly.INST = Inst(self.k, self.extra)

    def __exit__(self, *a):
        poly.INST = self.old
