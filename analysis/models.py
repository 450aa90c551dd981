"""Effects of the external routines the library calls (BLAS/LAPACK at the Fortran level,
the standard library), in the matrix-term domain."""
from poly import Poly, P, ZERO, ONE
from terms import *
from interp import *
import interp as I
import math
from fractions import Fraction

MODELS = {}


def model(*names):
    def d(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return d


# ------------------------------------------------------------------ helpers
def val(ip, a):
    return ip.lget(a)


def num(ip, a):
    """integer or scalar passed by pointer, reference or value"""
    v = ip.lget(a)
    return num_v(ip, v)


def num_v(ip, v):
    if isinstance(v, PCell):
        v = ip.lget(v.c)
    elif isinstance(v, Ptr):
        v = ip.elem(v.buf, v.off) if v.buf is not None else Unk("null scalar")
    if isinstance(v, MatVal):
        v = ip.to_scalar(v)
    if v is True or v is False:
        v = P(int(v))
    return v


def ch(ip, a):
    v = ip.lget(a)
    if isinstance(v, PCell):
        v = ip.lget(v.c)
    if isinstance(v, StrV):
        return v.s[0] if v.s else Unk("string")
    if isinstance(v, Sym):
        # undetermined flag reaching a kernel
        raise Undecided("symbolic flag %s" % v.name)
    if isinstance(v, str):
        return v
    return v if is_unk(v) else Unk("flag")


def ptr(ip, a):
    v = ip.lget(a)
    if isinstance(v, Vec):
        return Ptr(v.buf, ZERO)
    return v


def line(e):
    return e.get("l", 0) if e else 0


def rd(ip, p, v):
    """read a view relative to pointer p"""
    if not isinstance(p, Ptr):
        return p if is_unk(p) else Unk("not a buffer")
    if p.buf is None:
        if ip.F.zero(v.r * v.c):
            return ip.A.zero(v.r, v.c)
        return Unk("null buffer")
    w = View(p.off + v.off, v.r, v.c, v.rs, v.cs)
    ip.check_view(p.buf, w, "read")
    return ip.M.read(p.buf, w)


def wr(ip, p, v, x, l=0):
    if not isinstance(p, Ptr):
        return ip.wild(p)
    if p.buf is None:
        if not ip.F.zero(v.r * v.c):
            ip.wild("null destination")
        return
    w = View(p.off + v.off, v.r, v.c, v.rs, v.cs)
    ip.check_view(p.buf, w, "write", l)
    ip.mwrite(p.buf, w, x, l)


def cm(r, c, ld):
    return View(ZERO, r, c, ONE, ld)


def anyunk(*xs):
    for x in xs:
        if is_unk(x):
            return x
    return None


def record(ip, name, e, **kw):
    ip.events.append((name, kw, ip.stack[-1] if ip.stack else None, line(e)))


def trans_ok(t):
    return t in ("N", "T", "C")


def acc(ip, alpha, X, beta, p, v, l):
    """p[v] := alpha X + beta p[v]"""
    if ip.F.zero(beta) if isinstance(beta, Poly) else False:
        wr(ip, p, v, ip.A.scale(alpha, X), l)
        return
    old = rd(ip, p, v)
    wr(ip, p, v, ip.A.add(X, old, alpha, beta), l)


def blas(stem):
    return ["%s%s_" % (c, stem) for c in "sdcz"]


@model(*blas("gemm"))
def gemm(ip, o, args, e, ol):
    ta, tb = ch(ip, args[0]), ch(ip, args[1])
    m, n, k = [num(ip, a) for a in args[2:5]]
    al = num(ip, args[5])
    a, lda, b, ldb = ptr(ip, args[6]), num(ip, args[7]), ptr(ip, args[8]), num(ip, args[9])
    be = num(ip, args[10])
    c, ldc = ptr(ip, args[11]), num(ip, args[12])
    u = anyunk(ta, tb, m, n, k, al, lda, ldb, be, ldc)
    if u is not None:
        return lose(ip, c, u)
    A = ip.A.op(ta, rd(ip, a, cm(m, k, lda) if ta == "N" else cm(k, m, lda)))
    B = ip.A.op(tb, rd(ip, b, cm(k, n, ldb) if tb == "N" else cm(n, k, ldb)))
    if ip.F.zero(al):
        X = ip.A.zero(m, n)
    else:
        X = ip.A.mul(A, B)
    acc(ip, al, X, be, c, cm(m, n, ldc), line(e))


def lose(ip, c, why):
    if isinstance(c, Ptr) and c.buf is not None:
        ip.mhavoc(c.buf, str(why))
    else:
        ip.wild(c)


@model(*blas("gemv"))
def gemv(ip, o, args, e, ol):
    t = ch(ip, args[0])
    m, n, al = num(ip, args[1]), num(ip, args[2]), num(ip, args[3])
    a, lda, x, incx, be, y, incy = ptr(ip, args[4]), num(ip, args[5]), ptr(ip, args[6]), num(ip, args[7]), num(ip, args[8]), ptr(ip, args[9]), num(ip, args[10])
    u = anyunk(t, m, n, al, lda, incx, be, incy)
    if u is not None:
        return lose(ip, y, u)
    A = ip.A.op(t, rd(ip, a, cm(m, n, lda)))
    nx, ny = (n, m) if t == "N" else (m, n)
    X = rd(ip, x, View(ZERO, nx, 1, incx, 0))
    acc(ip, al, ip.A.mul(A, X), be, y, View(ZERO, ny, 1, incy, 0), line(e))


def symcomp(ip, A, uplo, kind):
    """symmetric/hermitian completion of the uplo triangle of A"""
    if is_unk(A):
        return A
    A = ip.A.norm(A)
    out = {}
    for (ro, rr, co, cc, w), k in A.items.items():
        if not (ip.F.zero(ro) and ip.F.zero(co) and ip.F.eq(rr, A.r) and ip.F.eq(cc, A.c)) or len(w) != 1:
            return Unk("completion of a product")
        f = w[0]
        if f[0] == "sym":
            g = f
        elif f[0] == "v":
            _, b, off, r, c, rs, cs, op = f
            if rs == 1 or r == 1:
                g = ("sym", b, off, r, cs, uplo, kind, op)
            elif cs == 1:
                fl = "L" if uplo == "U" else "U"
                # completion of X^T: transpose of the completion of X from the other triangle
                g = ip.A.fT(ip.A.nf(("sym", b, off, r, rs, fl, kind, op)))
            else:
                return Unk("completion of strided view")
        elif f[0] == "H" and f[1] in ip.A.sym_ops and ip.F.eq(f[2], f[4]):
            g = f
        else:
            return Unk("completion of %s" % f[0])
        g = ip.A.nf(g)
        out[(ro, rr, co, cc, (g,))] = k
    return ip.A.norm(MatVal(A.r, A.c, out))


def _symv(kind):
    def fn(ip, o, args, e, ol):
        up = ch(ip, args[0])
        n, al = num(ip, args[1]), num(ip, args[2])
        a, lda, x, incx, be, y, incy = ptr(ip, args[3]), num(ip, args[4]), ptr(ip, args[5]), num(ip, args[6]), num(ip, args[7]), ptr(ip, args[8]), num(ip, args[9])
        u = anyunk(up, n, al, lda, incx, be, incy)
        if u is not None:
            return lose(ip, y, u)
        A = symcomp(ip, rd(ip, a, cm(n, n, lda)), up, kind)
        X = rd(ip, x, View(ZERO, n, 1, incx, 0))
        acc(ip, al, ip.A.mul(A, X), be, y, View(ZERO, n, 1, incy, 0), line(e))
    return fn


for _k, _st in (("S", "symv"), ("H", "hemv")):
    for _n in blas(_st):
        MODELS[_n] = _symv(_k)


def _symm(kind):
    def fn(ip, o, args, e, ol):
        sd, up = ch(ip, args[0]), ch(ip, args[1])
        m, n, al = num(ip, args[2]), num(ip, args[3]), num(ip, args[4])
        a, lda, b, ldb, be, c, ldc = ptr(ip, args[5]), num(ip, args[6]), ptr(ip, args[7]), num(ip, args[8]), num(ip, args[9]), ptr(ip, args[10]), num(ip, args[11])
        u = anyunk(sd, up, m, n, al, lda, ldb, be, ldc)
        if u is not None:
            return lose(ip, c, u)
        k = m if sd == "L" else n
        A = symcomp(ip, rd(ip, a, cm(k, k, lda)), up, kind)
        B = rd(ip, b, cm(m, n, ldb))
        X = ip.A.mul(A, B) if sd == "L" else ip.A.mul(B, A)
        acc(ip, al, X, be, c, cm(m, n, ldc), line(e))
    return fn


for _k, _st in (("S", "symm"), ("H", "hemm")):
    for _n in blas(_st):
        MODELS[_n] = _symm(_k)


def tri(ip, A, uplo, diag):
    """('tri') factor of a stored matrix"""
    if is_unk(A):
        return A
    A = ip.A.norm(A)
    if len(A.items) != 1:
        return Unk("triangle of a sum")
    (ro, rr, co, cc, w), k = next(iter(A.items.items()))
    if len(w) != 1 or not (k == 1):
        return Unk("triangle of a product")
    f = w[0]
    if f[0] == "v":
        _, b, off, r, c, rs, cs, op = f
        if rs == 1 or r == 1:
            return ("tri", b, off, r, cs, uplo, diag, op, False)
        if cs == 1:
            fl = "L" if uplo == "U" else "U"
            return ip.A.fT(("tri", b, off, r, rs, fl, diag, op, False))
    if f[0] == "H" and ip.F.eq(f[2], f[4]):
        return ("tri", "H:" + f[1], f[2], f[3], ZERO, uplo if f[6] in "NJ" else ("L" if uplo == "U" else "U"), diag, f[6], False)
    return Unk("triangle of %s" % f[0])


@model(*blas("trsm"))
def trsm(ip, o, args, e, ol):
    sd, up, tr, dg = [ch(ip, a) for a in args[:4]]
    m, n, al = num(ip, args[4]), num(ip, args[5]), num(ip, args[6])
    a, lda, b, ldb = ptr(ip, args[7]), num(ip, args[8]), ptr(ip, args[9]), num(ip, args[10])
    u = anyunk(sd, up, tr, dg, m, n, al, lda, ldb)
    if u is not None:
        return lose(ip, b, u)
    k = m if sd == "L" else n
    f = tri(ip, rd(ip, a, cm(k, k, lda)), up, dg)
    B = rd(ip, b, cm(m, n, ldb))
    if is_unk(f):
        wr(ip, b, cm(m, n, ldb), f, line(e))
        return
    g = f[:8] + (True,)
    g = g if tr == "N" else (ip.A.fT(g) if tr == "T" else ip.A.fJ(ip.A.fT(g)))
    G = ip.A.of_factor(g)
    X = ip.A.mul(G, B) if sd == "L" else ip.A.mul(B, G)
    wr(ip, b, cm(m, n, ldb), ip.A.scale(al, X), line(e))


def permname(ip, p):
    if isinstance(p, Ptr) and isinstance(p.buf, IBuf):
        b = p.buf
        for idx, v, lp in reversed(b.entries):
            if idx is None and getattr(v, "pivname", None):
                return v.pivname
            return None
        if b.base == "init" and ip.F.zero(p.off):
            return "P:" + b.src
    return None


@model(*blas("laswp"))
def laswp(ip, o, args, e, ol):
    n, a, lda, k1, k2, piv, inc = num(ip, args[0]), ptr(ip, args[1]), num(ip, args[2]), num(ip, args[3]), num(ip, args[4]), ptr(ip, args[5]), num(ip, args[6])
    u = anyunk(n, lda, k1, k2, inc)
    nm = permname(ip, piv)
    if u is not None or nm is None or not (isinstance(k1, Poly) and k1 == 1):
        return lose(ip, a, "laswp")
    ip.A.perm.add(nm)
    v = cm(k2, n, lda)
    X = rd(ip, a, v)
    d = ip.F.norm(inc)
    if d == 1:
        f = ("op", nm, k2, k2, "N")
    elif d == -1:
        f = ("op", nm, k2, k2, "T")
    else:
        return lose(ip, a, "laswp increment")
    wr(ip, a, v, ip.A.mul(ip.A.of_factor(f), X), line(e))


class PivFn:
    def __init__(self, nm):
        self.pivname = nm

    def __call__(self, off):
        return Poly.atom("%s[%s]" % (self.pivname, off))


def valkey(M):
    return "{%s}" % M


def fresh_factored(ip, kind, X, n):
    """view of the packed factors computed from X"""
    nm = "%s%s" % (kind, valkey(X))
    return nm


@model(*blas("getrf"))
def getrf(ip, o, args, e, ol):
    m, n, a, lda, piv, info = num(ip, args[0]), num(ip, args[1]), ptr(ip, args[2]), num(ip, args[3]), ptr(ip, args[4]), args[5]
    v = cm(m, n, lda)
    X = rd(ip, a, v)
    if is_unk(X) or anyunk(m, n, lda) is not None:
        lose(ip, a, "getrf of unknown")
        return
    nm = "LU" + valkey(X)
    wr(ip, a, v, ip.A.view(nm, View(ZERO, m, n, ONE, m)), line(e))
    if isinstance(piv, Ptr) and isinstance(piv.buf, IBuf):
        ip.check_view(piv.buf, View(piv.off, m if ip.F.nonneg(n - m) else n if ip.F.nonneg(m - n) else ONE, 1, 1, 0), "write", line(e))
        ip.setattr_(piv.buf, "entries", piv.buf.entries + ((None, PivFn("P:" + nm), None),))


@model(*blas("potrf"))
def potrf(ip, o, args, e, ol):
    up, n, a, lda = ch(ip, args[0]), num(ip, args[1]), ptr(ip, args[2]), num(ip, args[3])
    v = cm(n, n, lda)
    X = rd(ip, a, v)
    if is_unk(X) or anyunk(up, n, lda) is not None:
        lose(ip, a, "potrf of unknown")
        return
    nm = "CH" + str(up) + valkey(X)
    wr(ip, a, v, ip.A.view(nm, View(ZERO, n, n, ONE, n)), line(e))


@model(*blas("getrs"))
def getrs(ip, o, args, e, ol):
    tr, n, nrhs, a, lda, piv, b, ldb = ch(ip, args[0]), num(ip, args[1]), num(ip, args[2]), ptr(ip, args[3]), num(ip, args[4]), ptr(ip, args[5]), ptr(ip, args[6]), num(ip, args[7])
    nm = permname(ip, piv)
    if anyunk(tr, n, nrhs, lda, ldb) is not None or nm is None:
        return lose(ip, b, "getrs")
    A = rd(ip, a, cm(n, n, lda))
    L, U = tri(ip, A, "L", "U"), tri(ip, A, "U", "N")
    if is_unk(L):
        return lose(ip, b, "getrs factors")
    ip.A.perm.add(nm)
    L, U = L[:8] + (True,), U[:8] + (True,)
    w = (U, L, ("op", nm, n, n, "N"))
    W = MatVal(n, n, {(ZERO, n, ZERO, n, w): ONE})
    if tr != "N":
        # inv(op(A)) = op(inv(A))
        W = ip.A.op(tr, W)
    X = rd(ip, b, cm(n, nrhs, ldb))
    wr(ip, b, cm(n, nrhs, ldb), ip.A.mul(ip.A.norm(W), X), line(e))


@model(*blas("potrs"))
def potrs(ip, o, args, e, ol):
    up, n, nrhs, a, lda, b, ldb = ch(ip, args[0]), num(ip, args[1]), num(ip, args[2]), ptr(ip, args[3]), num(ip, args[4]), ptr(ip, args[5]), num(ip, args[6])
    if anyunk(up, n, nrhs, lda, ldb) is not None:
        return lose(ip, b, "potrs")
    A = rd(ip, a, cm(n, n, lda))
    t = tri(ip, A, up, "N")
    if is_unk(t):
        return lose(ip, b, "potrs factor")
    t = t[:8] + (True,)
    tC = ip.A.fJ(ip.A.fT(t))
    w = (tC, t) if up == "L" else (t, tC)
    W = MatVal(n, n, {(ZERO, n, ZERO, n, w): ONE})
    X = rd(ip, b, cm(n, nrhs, ldb))
    wr(ip, b, cm(n, nrhs, ldb), ip.A.mul(ip.A.norm(W), X), line(e))


@model(*blas("axpy"))
def axpy(ip, o, args, e, ol):
    n, al, x, incx, y, incy = num(ip, args[0]), num(ip, args[1]), ptr(ip, args[2]), num(ip, args[3]), ptr(ip, args[4]), num(ip, args[5])
    u = anyunk(n, al, incx, incy)
    if u is not None or not isinstance(x, Ptr) or not isinstance(y, Ptr):
        return lose(ip, y, "axpy")
    if incx == 1 and incy == 1:
        elementwise(ip, [x, y], y, n, lambda vs: ip.A.add(vs[0], vs[1], al, ONE), line(e))
    else:
        X = rd(ip, x, View(ZERO, n, 1, incx, 0))
        acc(ip, al, X, ONE, y, View(ZERO, n, 1, incy, 0), line(e))


@model(*blas("scal"))
def scal(ip, o, args, e, ol):
    n, al, x, incx = num(ip, args[0]), num(ip, args[1]), ptr(ip, args[2]), num(ip, args[3])
    u = anyunk(n, al, incx)
    if u is not None or not isinstance(x, Ptr):
        return lose(ip, x, "scal")
    if incx == 1:
        elementwise(ip, [x], x, n, lambda vs: ip.A.scale(al, vs[0]), line(e))
    else:
        v = View(ZERO, n, 1, incx, 0)
        wr(ip, x, v, ip.A.scale(al, rd(ip, x, v)), line(e))


@model(*(blas("nrm2") + ["dznrm2_", "scnrm2_"]))
def nrm2(ip, o, args, e, ol):
    return Poly.atom("$" + ip.fresh("nrm2"))


# other LAPACK: outputs become unknown through the generic rule (non-const pointers)

# ------------------------------------------------------------------ element-wise ranges
def shapes(ip, ptrs, n):
    """candidate 2-D shapes (r, c) of a flat range of n elements, from what the buffers hold"""
    F = ip.F
    n = F.norm(n)
    out = []
    if ip.sized is not None:
        return out

    def addshape(r, c):
        r, c = F.norm(r), F.norm(c)
        if F.eq(r * c, n) and (r, c) not in out and not (c == 1):
            out.append((r, c))
    for p in ptrs:
        if not isinstance(p, Ptr) or p.buf is None:
            continue
        node = p.buf.head
        k = 0
        while node is not None and k < 12:
            if node.view is not None:
                v = node.view.norm(F)
                if v.rs == 1 and (v.c == 1 or F.eq(v.cs, v.r)):
                    addshape(v.r, v.c)
                    c = _pd(n, v.r)
                    if c is not None:
                        addshape(v.r, c)
                elif v.cs == 1 and F.eq(v.rs, v.c):
                    addshape(v.c, v.r)
                elif v.rs == 1:
                    c = _pd(n, v.cs)
                    if c is not None:
                        addshape(v.cs, c)
                elif v.cs == 1:
                    c = _pd(n, v.rs)
                    if c is not None:
                        addshape(v.rs, c)
            node = node.prev
            k += 1
        for h in getattr(p.buf, "hints", []):
            addshape(*h)
            c = _pd(n, F.norm(h[0]))
            if c is not None:
                addshape(h[0], c)
    # factorisations of the length
    if len(n.d) == 1:
        (m, k), = n.d.items()
        if k == 1 and len(m) == 2:
            addshape(P(m[0]), P(m[1]))
            addshape(P(m[1]), P(m[0]))
    return out


def _pd(n, d):
    q = n.div(d)
    if q is not None:
        return q
    from terms import _polydiv
    q = _polydiv(n, d)
    return q if q * d == n else None


def elementwise(ip, srcs, dst, n, fn, l):
    """dst[0..n) := fn(srcs...) elementwise, in the shape in which the operands are known"""
    F = ip.F
    if is_unk(n):
        return lose(ip, dst, "length")
    n = F.norm(n)
    if n.is_zero():
        return
    for p in list(srcs) + [dst]:
        if not isinstance(p, Ptr):
            return lose(ip, dst, "range")
        if p.buf is None:
            return
    for p in srcs:
        ip.check_view(p.buf, View(p.off, n, 1, 1, 0), "read", l)
    flat = View(ZERO, n, ONE, ONE, ZERO)
    cands = [flat] + [View(ZERO, r, c, ONE, r) for r, c in shapes(ip, list(srcs) + [dst], n)]
    # prefer a 2-D shape that the values are known in
    pre = dst.buf.head
    order = cands[1:] + cands[:1]
    best = None
    for v in order:
        xs = [ip.M.read(p.buf, View(p.off, v.r, v.c, v.rs, v.cs)) for p in srcs]
        if any(is_unk(x) for x in xs):
            if best is None:
                best = (v, xs)
            continue
        best = (v, xs)
        break
    v, xs = best
    y = fn(xs)
    wr(ip, dst, v, y, l)


def apply_elem(ip, fv, k, e):
    """elementwise function as a map on MatVals: affine in its arguments and their conjugates"""
    names = ["$@x%d" % i for i in range(k)]
    args = [Cell(Poly.atom(n)) for n in names]
    r = ip.call_value(fv, args, e) if not callable(fv) else fv([Poly.atom(n) for n in names])
    if isinstance(r, LV):
        r = ip.lget(r.lv)
    if not isinstance(r, Poly):
        return None, Unk("elementwise result %r" % (r,))
    coefs = []
    rest = r
    for i, n in enumerate(names):
        for nm, cj in ((n, False), ("~" + n, True)):
            sp = rest.split(nm)
            if sp is None:
                return None, Unk("non-linear elementwise function")
            kf, rest = sp
            if any("$@x" in a for a in kf.atoms()):
                return None, Unk("non-linear elementwise function")
            if not kf.is_zero():
                coefs.append((i, cj, kf))
    if any("$@x" in a for a in rest.atoms()):
        return None, Unk("non-linear elementwise function")

    def fn(vs):
        r0 = vs[0]
        if is_unk(r0):
            return r0
        out = ip.A.zero(r0.r, r0.c)
        for i, cj, kf in coefs:
            x = ip.A.J(vs[i]) if cj else vs[i]
            out = ip.A.add(out, x, ONE, kf)
        if not rest.is_zero():
            out = ip.A.add(out, ones(ip, r0.r, r0.c, rest))
        return out
    return fn, None


def ones(ip, r, c, k):
    r, c = P(r), P(c)
    if r == 1 and c == 1:
        return ip.A.norm(MatVal(r, c, {(ZERO, r, ZERO, c, ()): k}))
    return ip.A.norm(MatVal(r, c, {(ZERO, r, ZERO, c, (("ones", r, c),)): k}))


# ------------------------------------------------------------------ standard algorithms
def rng(ip, a, b):
    """(Ptr, length) of an iterator range"""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.buf is b.buf:
            return a, ip.F.norm(b.off - a.off)
    return None, None


@model("std::fill", "std::fill_n")
def fill(ip, o, args, e, ol):
    v = num(ip, args[2])
    if e["q"] == "std::fill":
        a, b = val(ip, args[0]), val(ip, args[1])
        if isinstance(a, It) and isinstance(b, It):
            return coll_fill(ip, a, b, val(ip, args[2]))
        p, n = rng(ip, a, b)
    else:
        p, n = val(ip, args[0]), num(ip, args[1])
    if not isinstance(p, Ptr) or is_unk(n) or n is None:
        lose(ip, p, "fill length")
        return Unk("fill")
    if p.buf is None:
        return p
    if isinstance(p.buf, IBuf):
        ifill(ip, p, n, v)
        return Ptr(p.buf, p.off + n)
    if is_unk(v) or isinstance(v, MatVal):
        wr(ip, p, View(ZERO, n, 1, 1, 0), v if is_unk(v) else Unk("fill with data"), line(e))
    else:
        wr(ip, p, View(ZERO, n, 1, 1, 0), ones(ip, n, 1, v) if not v.is_zero() else ip.A.zero(n, 1), line(e))
    return Ptr(p.buf, p.off + n)


def coll_fill(ip, a, b, v):
    ip.setattr_(a.c, "parts", [("unk", "fill")])
    return None


def ifill(ip, p, n, v):
    b = p.buf
    if ip.F.zero(p.off) and b.size is not None and ip.F.eq(n, b.size):
        ip.setattr_(b, "entries", b.entries + ((None, v if isinstance(v, Poly) else Unk("fill"), None),))
        return
    it = ip.fresh("q")
    ip.setattr_(b, "entries", b.entries + ((P(it) + p.off, v, (it, n)),))


@model("std::copy", "std::copy_n", "std::move_range", "std::uninitialized_copy")
def copy(ip, o, args, e, ol):
    if e["q"] == "std::copy_n":
        a, n = val(ip, args[0]), num(ip, args[1])
    else:
        x, y = val(ip, args[0]), val(ip, args[1])
        if isinstance(x, It) and isinstance(y, It):
            return coll_copy(ip, x, y, val(ip, args[2]))
        a, n = rng(ip, x, y)
    d = val(ip, args[2])
    if isinstance(d, tuple) and d and d[0] == "inserter":
        return inserter_copy(ip, a, n, d)
    if not isinstance(a, Ptr) or not isinstance(d, Ptr) or n is None or is_unk(n):
        if isinstance(d, Ptr) and d.buf is not None:
            ip.mhavoc(d.buf, "copy")
        else:
            ip.wild(d)
        return Unk("copy")
    if a.buf is None or d.buf is None:
        return d
    if isinstance(a.buf, IBuf) or isinstance(d.buf, IBuf):
        icopy(ip, a, d, n)
        return Ptr(d.buf, d.off + n)
    same_copy(ip, a, d, n, line(e))
    return Ptr(d.buf, d.off + n)


def icopy(ip, a, d, n):
    if not (isinstance(a.buf, IBuf) and isinstance(d.buf, IBuf)):
        return ip.mhavoc(d.buf, "mixed copy")
    if ip.F.zero(a.off) and ip.F.zero(d.off):
        src, ent = a.buf, a.buf.entries
        snap = IBuf(src.name, src.size, src.base)
        snap.src, snap.entries = src.src, ent
        full = d.buf.size is not None and ip.F.eq(n, d.buf.size)
        fn = (lambda off: ip.iget(snap, off))
        if full:
            ip.setattr_(d.buf, "entries", d.buf.entries + ((None, fn, None),))
            return
    ip.mhavoc(d.buf, "int copy")


def same_copy(ip, a, d, n, l):
    F = ip.F
    # whole-buffer copy into a fresh buffer of the same extent keeps the write log
    if F.zero(a.off) and F.zero(d.off) and a.buf.size is not None and d.buf.size is not None and F.eq(a.buf.size, n) and F.eq(d.buf.size, n) and not barrier_between(ip, a.buf, d.buf):
        ip.check_view(a.buf, View(ZERO, n, 1, 1, 0), "read", l)
        clone_log(ip, a.buf, d.buf, l)
        return
    elementwise(ip, [a], d, n, lambda vs: vs[0], l)


def barrier_between(ip, a, b):
    # log cloning is not journal-friendly inside loop summaries of the destination
    return any(b.uid in s for s in (ip.loop_bufs or []))


def clone_log(ip, src, dst, l):
    """dst := src, sharing the log: reads of dst fall through to src's state"""
    old, oldbase, oldname = dst.head, dst.base, dst.name
    head, base, name = src.head, src.base, src.name

    def undo():
        dst.head, dst.base, dst.alias = old, oldbase, oldalias
    oldalias = getattr(dst, "alias", None)
    ip.journal.append(undo)
    if ip.written_bufs:
        for s in ip.written_bufs:
            s.setdefault(dst.uid, (dst, old))
    dst.head = head
    dst.base = base
    dst.alias = getattr(src, "alias", None) or (src.name if base in ("init", "uninit") else None)
    dst.hints = list(getattr(src, "hints", []))


def coll_copy(ip, x, y, d):
    if isinstance(d, tuple) and d and d[0] == "inserter":
        v = d[1]
        if isinstance(v, Coll):
            vec_insert(ip, v, [("t", It(v, ip.coll_size(v)) if not is_unk(ip.coll_size(v)) else None), ("t", x), ("t", y)], {}, None)
        elif isinstance(v, Vec):
            inserter_copy(ip, None, None, d)
        return d
    if isinstance(d, It) and ip.F.zero(x.i) and ip.F.zero(d.i) and ip.F.eq(y.i, ip.coll_size(x.c)):
        ip.setattr_(d.c, "parts", list(x.c.parts))
        d.c.cache = getattr(x.c, "cache", None) or {}
        return d
    if isinstance(d, It):
        ip.setattr_(d.c, "parts", [("unk", "copy")])
    else:
        ip.wild(d)
    return Unk("coll copy")


def inserter_copy(ip, a, n, d):
    v = d[1]
    if isinstance(v, Vec):
        ip.mhavoc(v.buf, "inserter")
        ip.setattr_(v, "size", ip.F.norm(v.size + n) if isinstance(n, Poly) else Poly.atom(ip.fresh("n")))
    elif isinstance(v, Coll):
        ip.setattr_(v, "parts", [("unk", "inserter")])
    return d


def inserter_transform(ip, a, b, d, fv, e):
    """std::transform of a whole list of known elements at the end of another list"""
    v = d[1]
    if isinstance(v, Coll) and isinstance(a, It) and isinstance(b, It) and fv is not None and a.c is not v and all(p[0] == "one" for p in a.c.parts) and all(p[0] == "one" for p in v.parts):
        i, j = ip.F.norm(a.i), ip.F.norm(b.i)
        if i.is_const() and j.is_const():
            for k in range(int(i.const_value()), min(int(j.const_value()), len(a.c.parts))):
                r = ip.call_value(fv, [("t", ip.coll_get(a.c, P(k)))], e)
                r = ip.lget(r.lv) if isinstance(r, LV) else r
                if r is None or is_unk(r):
                    break
                ip.setattr_(v, "parts", v.parts + [("one", r)])
            else:
                return d
    return inserter_copy(ip, None, None, d)


@model("std::transform")
def transform(ip, o, args, e, ol):
    a, b = val(ip, args[0]), val(ip, args[1])
    p, n = rng(ip, a, b)
    if len(args) == 4:
        srcs, dst, fv = [p], val(ip, args[2]), val(ip, args[3])
    else:
        srcs, dst, fv = [p, val(ip, args[2])], val(ip, args[3]), val(ip, args[4])
    if p is None or not isinstance(dst, Ptr) or any(not isinstance(s, Ptr) for s in srcs) or is_unk(n):
        if isinstance(dst, Ptr) and dst.buf is not None:
            ip.mhavoc(dst.buf, "transform")
        elif isinstance(dst, It):
            ip.setattr_(dst.c, "parts", [("unk", "transform")])
        elif isinstance(dst, tuple) and dst and dst[0] == "inserter":
            return inserter_transform(ip, a, b, dst, fv if len(args) == 4 else None, e)
        else:
            ip.wild(dst)
        return Unk("transform")
    if dst.buf is None:
        return dst
    if isinstance(dst.buf, IBuf) or any(isinstance(s.buf, IBuf) for s in srcs):
        ip.mhavoc(dst.buf, "int transform")
        return Ptr(dst.buf, dst.off + n)
    fn, err = apply_elem(ip, fv, len(srcs), e)
    if fn is None:
        fn = lambda vs: err
    elementwise(ip, srcs, dst, n, fn, line(e))
    return Ptr(dst.buf, dst.off + n)


def functor(fn):
    def mk(ip, o, args, e, ol):
        return Functor2(fn)
    return mk


class Functor2:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, vs):
        return self.fn(vs)


FUNCTORS = {
    "std::plus": lambda v: v[0] + v[1],
    "std::minus": lambda v: v[0] - v[1],
    "std::multiplies": lambda v: v[0] * v[1],
    "std::negate": lambda v: -v[0],
}


@model("std::conj")
def conj(ip, o, args, e, ol):
    return ip.sconj(num(ip, args[0]))


@model("htool::conj_if_complex_dummy")
def cdummy(ip, o, args, e, ol):
    return NotImplemented


@model("std::real", "std::complex::real")
def real(ip, o, args, e, ol):
    v = num(ip, args[0]) if args else o
    if not ip.cplx:
        return v
    if isinstance(v, Poly) and v.is_const():
        return v
    return Poly.atom("$re(%s)" % (v,)) if isinstance(v, Poly) else Unk("real part")


@model("std::imag", "std::complex::imag")
def imag(ip, o, args, e, ol):
    v = num(ip, args[0]) if args else o
    if isinstance(v, Poly) and v.is_const():
        return ZERO
    return Poly.atom("$im(%s)" % (v,)) if isinstance(v, Poly) else Unk("imag part")


def opaque_fn(nm):
    def fn(ip, o, args, e, ol):
        vs = [num(ip, a) for a in args]
        u = anyunk(*vs)
        if u is not None:
            return u
        return Poly.atom("$%s(%s)" % (nm, ",".join(str(v) for v in vs)))
    return fn


for _n in ("abs", "norm", "sqrt", "pow", "log", "cos", "sin", "acos", "floor", "ceil", "fabs", "exp", "log10", "arg"):
    MODELS["std::" + _n] = opaque_fn(_n)
    MODELS[_n] = opaque_fn(_n)


@model("std::abs")
def sabs(ip, o, args, e, ol):
    v = num(ip, args[0])
    if isinstance(v, Poly) and v.is_const():
        return P(abs(v.const_value()))
    return opaque_fn("abs")(ip, o, args, e, ol)


@model("std::sqrt", "sqrt")
def ssqrt(ip, o, args, e, ol):
    v = num(ip, args[0])
    if isinstance(v, Poly) and v.is_const() and v.const_value() in (0, 1):
        return v
    if isinstance(v, MatVal) and len(v.items) == 1:
        (k, c), = v.items.items()
        if c == 1 and len(k[4]) == 1 and k[4][0][0] == "v":
            f = k[4][0]
            return ip.A.of_factor(("v", "sqrt(%s)" % f[1]) + f[2:7] + ("N",))
    return opaque_fn("sqrt")(ip, o, args, e, ol)


def const_fn(nm, fn):
    """libm on constants"""
    old = opaque_fn(nm)

    def go(ip, o, args, e, ol):
        vs = [num(ip, a) for a in args]
        if all(isinstance(v, Poly) and v.is_const() for v in vs):
            try:
                r = fn(*[float(v.const_value()) for v in vs])
                return P(Fraction(r))
            except (ValueError, OverflowError, ZeroDivisionError):
                return Unk(nm)
        return old(ip, o, args, e, ol)
    MODELS["std::" + nm] = MODELS[nm] = go


for _n, _f in (("log", math.log), ("floor", math.floor), ("ceil", math.ceil), ("pow", math.pow), ("log10", math.log10)):
    const_fn(_n, _f)


def _minmax(which):
    def fn(ip, o, args, e, ol):
        vs = [num(ip, a) for a in args[:2]]
        if len(vs) < 2 or anyunk(*vs) is not None or not all(isinstance(v, Poly) for v in vs):
            return Unk("min/max")
        a, b = [ip.F.norm(v) for v in vs]
        F = ip.F
        if F.nonneg(a - b):
            return b if which == "min" else a
        if F.nonneg(b - a):
            return a if which == "min" else b
        x, y = sorted([str(a), str(b)])
        pre = "$" if ip.coef_only(a) or ip.coef_only(b) else ""
        at = Poly.atom("%s%s(%s,%s)" % (pre, which, x, y))
        if not pre:
            s = -1 if which == "min" else 1
            F.add_ge0((at - a) * s)
            F.add_ge0((at - b) * s)
            if which == "min" and not (F.nonneg(a) and F.nonneg(b)):
                F.free.add(str(at))
        return at
    return fn


MODELS["std::min"] = _minmax("min")
MODELS["std::max"] = _minmax("max")


@model("std::iota")
def iota(ip, o, args, e, ol):
    p, n = rng(ip, val(ip, args[0]), val(ip, args[1]))
    v = num(ip, args[2])
    if p is not None and isinstance(p.buf, IBuf) and isinstance(v, Poly):
        it = ip.fresh("q")
        ip.setattr_(p.buf, "entries", p.buf.entries + ((P(it) + p.off, v + P(it), (it, n)),))
    elif p is not None:
        ip.mhavoc(p.buf, "iota")


@model("std::accumulate")
def accumulate(ip, o, args, e, ol):
    a, b = val(ip, args[0]), val(ip, args[1])
    init = num(ip, args[2])
    p, n = rng(ip, a, b)
    if p is not None and len(args) == 3 and isinstance(p.buf, IBuf) and isinstance(init, Poly):
        if n.is_const() and n.const_value() <= 64:
            xs = [ip.iget(p.buf, p.off + i) for i in range(int(n.const_value()))]
            if all(isinstance(x, Poly) for x in xs):
                for x in xs:
                    init = init + x
                return init
        return init + Poly.atom("sum(%s,%s,%s)" % (p.buf.name, p.off, n))
    if p is not None and p.buf is not None and not isinstance(p.buf, IBuf) and len(args) in (3, 4) and not is_unk(init):
        if len(args) == 4 and not is_sum(ip, val(ip, args[3]), e):
            return Unk("accumulate")
        v = data_range(ip, p, n, e)
        return v if is_unk(v) else scalar_sum(ip, init, ip.A.mul(ones(ip, 1, n, ONE), v))
    return Unk("accumulate")


def data_range(ip, p, n, e):
    ip.check_view(p.buf, View(p.off, n, 1, 1, 0), "read", line(e))
    return ip.M.read(p.buf, View(p.off, n, ONE, ONE, ZERO))


def scalar_sum(ip, init, v):
    if is_unk(v):
        return v
    return v if isinstance(init, Poly) and init.is_zero() else ip.A.add(ip.to_mat(init), v)


def on_atoms(ip, fv, names, e):
    """what a function gives on symbolic numbers"""
    r = ip.call_value(fv, [Cell(Poly.atom(n)) for n in names], e) if not callable(fv) else fv([Poly.atom(n) for n in names])
    return ip.lget(r.lv) if isinstance(r, LV) else r


def is_sum(ip, fv, e):
    r = on_atoms(ip, fv, ["$@x0", "$@x1"], e)
    return isinstance(r, Poly) and r == Poly.atom("$@x0") + Poly.atom("$@x1")


@model("std::inner_product")
def inner_product(ip, o, args, e, ol):
    p, n = rng(ip, val(ip, args[0]), val(ip, args[1]))
    q = val(ip, args[2])
    init = num(ip, args[3])
    if p is None or not isinstance(q, Ptr) or p.buf is None or q.buf is None or is_unk(n) or is_unk(init) or isinstance(p.buf, IBuf) or isinstance(q.buf, IBuf):
        return Unk("inner_product")
    ck, sx, sy = ONE, "N", "N"
    if len(args) == 6:
        if not is_sum(ip, val(ip, args[4]), e):
            return Unk("inner_product")
        r = on_atoms(ip, val(ip, args[5]), ["$@x0", "$@x1"], e)
        if not isinstance(r, Poly):
            return Unk("inner_product")
        for cx in ("", "~"):
            for cy in ("", "~"):
                sp = r.split(cx + "$@x0")
                sp = sp and sp[0].split(cy + "$@x1")
                if sp and sp[1].is_zero() and not sp[0].is_zero() and r == sp[0] * Poly.atom(cx + "$@x0") * Poly.atom(cy + "$@x1"):
                    ck, sx, sy = sp[0], "J" if cx else "N", "J" if cy else "N"
                    break
            else:
                continue
            break
        else:
            return Unk("inner_product of this kind")
    x, y = data_range(ip, p, n, e), data_range(ip, q, n, e)
    if is_unk(x) or is_unk(y):
        return x if is_unk(x) else y
    A = ip.A
    v = A.mul(A.T(A.op(sx, x)), A.op(sy, y))
    return scalar_sum(ip, init, v if is_unk(v) else A.scale(ck, v))


@model("std::swap")
def swap(ip, o, args, e, ol):
    a, b = val(ip, args[0]), val(ip, args[1])
    if isinstance(a, (Obj, Vec, Coll)) or isinstance(b, (Obj, Vec, Coll)):
        # contents swap
        if isinstance(a, Vec) and isinstance(b, Vec):
            x, y = (a.buf, a.size), (b.buf, b.size)
            ip.setattr_(a, "buf", y[0]); ip.setattr_(a, "size", y[1])
            ip.setattr_(b, "buf", x[0]); ip.setattr_(b, "size", x[1])
            return None
        if isinstance(a, Obj) and isinstance(b, Obj):
            fa, fb = dict(a.f), dict(b.f)
            for k in set(fa) | set(fb):
                ip.setfield(a, k, fb.get(k, Unk("swap")))
                ip.setfield(b, k, fa.get(k, Unk("swap")))
            return None
        return Unk("swap")
    ip.lset(args[0], b)
    ip.lset(args[1], a)


@model("std::move", "std::forward", "std::as_const", "std::addressof_ref", "std::ref", "std::cref")
def move(ip, o, args, e, ol):
    if len(args) == 3:
        return copy(ip, o, args, dict(e, q="std::copy"), ol)
    return LV(args[0])


@model("std::exchange")
def exchange(ip, o, args, e, ol):
    old = val(ip, args[0])
    ip.lset(args[0], val(ip, args[1]))
    return old


@model("std::distance")
def distance(ip, o, args, e, ol):
    a, b = val(ip, args[0]), val(ip, args[1])
    return ip.binop("-", b, a, e)


@model("std::advance")
def advance(ip, o, args, e, ol):
    ip.lset(args[0], ip.binop("+", val(ip, args[0]), num(ip, args[1]), e))


@model("std::next")
def nxt(ip, o, args, e, ol):
    return ip.binop("+", val(ip, args[0]), num(ip, args[1]) if len(args) > 1 else ONE, e)


@model("std::prev")
def prv(ip, o, args, e, ol):
    return ip.binop("-", val(ip, args[0]), num(ip, args[1]) if len(args) > 1 else ONE, e)


@model("std::begin", "std::cbegin")
def sbegin(ip, o, args, e, ol):
    return vec_begin(ip, val(ip, args[0]))


@model("std::end", "std::cend")
def send(ip, o, args, e, ol):
    return vec_end(ip, val(ip, args[0]))


@model("std::for_each")
def for_each(ip, o, args, e, ol):
    import loops
    a, b, fv = val(ip, args[0]), val(ip, args[1]), val(ip, args[2])
    loops.for_each(ip, a, b, lambda l: ip.call_value(fv, [l], e), e)
    return fv


def quantifier(stop, result):
    """all_of / any_of / none_of on a range of constant length"""
    def fn(ip, o, args, e, ol):
        a, b, fv = val(ip, args[0]), val(ip, args[1]), val(ip, args[2])
        n = None
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.buf is b.buf and isinstance(a.buf, IBuf):
            n = ip.F.norm(b.off - a.off)
            get = lambda i: ip.iget(a.buf, a.off + i)
        elif isinstance(a, It) and isinstance(b, It) and a.c is b.c and a.rev == b.rev and not a.rev:
            n = ip.F.norm(b.i - a.i)
            get = lambda i: ip.lget(ip.index_lv(a.c, a.i + i))
        if n is None or not n.is_const() or n.const_value() > 64:
            return Unk(e["q"])
        for i in range(int(n.const_value())):
            r = ip.call_value(fv, [Cell(get(i))], e)
            if is_unk(r):
                return r
            if ip.truth(r) is stop:
                return result
        return not result
    return fn


MODELS["std::all_of"] = quantifier(False, False)
MODELS["std::any_of"] = quantifier(True, True)
MODELS["std::none_of"] = quantifier(True, False)


def known_range(ip, a, b, cap=64):
    """the lvalues of a range of constant length, or None"""
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.buf is b.buf and a.buf is not None and isinstance(a.buf, IBuf):
        n = ip.F.norm(b.off - a.off)
        if n.is_const() and 0 <= n.const_value() <= cap:
            return [Cell(ip.iget(a.buf, a.off + i)) for i in range(int(n.const_value()))]
    if isinstance(a, It) and isinstance(b, It) and a.c is b.c and not a.rev and not b.rev:
        n = ip.F.norm(b.i - a.i)
        if n.is_const() and 0 <= n.const_value() <= cap:
            return [ip.index_lv(a.c, a.i + i) for i in range(int(n.const_value()))]
    return None


def holds_for(ip, fv, lv, e):
    """does the predicate hold for this element? (None: unknown)"""
    r = ip.call_value(fv, [lv], e)
    r = ip.lget(r.lv) if isinstance(r, LV) else r
    return None if r is None or is_unk(r) else bool(ip.truth(r))


def filtered_copy(keep):
    def fn(ip, o, args, e, ol):
        a, b, d, fv = val(ip, args[0]), val(ip, args[1]), val(ip, args[2]), val(ip, args[3])
        ls = known_range(ip, a, b)
        v = d[1] if isinstance(d, tuple) and d and d[0] == "inserter" else None
        if ls is not None and isinstance(v, Coll) and v is not getattr(a, "c", None) and all(p[0] == "one" for p in v.parts):
            new = []
            for l in ls:
                t = holds_for(ip, fv, l, e)
                if t is None:
                    break
                if t is keep:
                    new.append(("one", ip.copyval(ip.lget(l))))
            else:
                if ip.append_log:
                    for x in new:
                        ip.append_log[-1].append((v, x))
                ip.setattr_(v, "parts", v.parts + new)
                return d
        forget_target(ip, d, e["q"])
        return Unk(e["q"])
    return fn


MODELS["std::copy_if"] = filtered_copy(True)
MODELS["std::remove_copy_if"] = filtered_copy(False)


@model("std::count_if")
def count_if(ip, o, args, e, ol):
    ls = known_range(ip, val(ip, args[0]), val(ip, args[1]))
    k = 0
    for l in ls if ls is not None else []:
        t = holds_for(ip, val(ip, args[2]), l, e)
        if t is None:
            ls = None
            break
        k += t
    return P(k) if ls is not None else Unk("count_if")


@model("std::remove_if")
def remove_if(ip, o, args, e, ol):
    a, b, fv = val(ip, args[0]), val(ip, args[1]), val(ip, args[2])
    ls = known_range(ip, a, b)
    if ls is not None and isinstance(a, It) and all(p[0] == "one" for p in a.c.parts) and ip.F.norm(a.i).is_const():
        kept = []
        for l in ls:
            t = holds_for(ip, fv, l, e)
            if t is None:
                break
            if not t:
                kept.append(("one", ip.lget(l)))
        else:
            i = int(ip.F.norm(a.i).const_value())
            rest = [("one", Unk("moved-from"))] * (len(ls) - len(kept))
            ip.setattr_(a.c, "parts", a.c.parts[:i] + kept + rest + a.c.parts[i + len(ls):])
            return It(a.c, a.i + len(kept))
    forget_target(ip, a, "remove_if")
    return Unk("remove_if")


def forget_target(ip, d, why):
    """everything an iterator could write through is lost"""
    if isinstance(d, tuple) and d and d[0] == "inserter":
        inserter_copy(ip, None, None, d)
    elif isinstance(d, It):
        ip.setattr_(d.c, "parts", [("unk", why)])
    elif isinstance(d, Ptr):
        if d.buf is not None:
            ip.mhavoc(d.buf, why)
    elif is_unk(d):
        ip.wild(d)


@model("std::find_if")
def find_if(ip, o, args, e, ol):
    a, b = val(ip, args[0]), val(ip, args[1])
    if ip.on_find_if:
        r = ip.on_find_if(ip, "find_if", a, b, e)
        if r is not None:
            return r
    ls = known_range(ip, a, b)
    if ls is not None and isinstance(a, It):
        for i, l in enumerate(ls):
            t = holds_for(ip, val(ip, args[2]), l, e)
            if t is None:
                break
            if t:
                return It(a.c, a.i + i)
        else:
            return b
    return Unk("find_if")


@model("std::numeric_limits::epsilon")
def eps(ip, o, args, e, ol):
    return Poly.atom("$eps")


@model("std::to_string")
def to_string(ip, o, args, e, ol):
    return StrV()


@model("std::chrono::_V2::steady_clock::now", "std::chrono::_V2::system_clock::now", "omp_get_wtime")
def now(ip, o, args, e, ol):
    return Sym("now")


@model("omp_get_num_threads", "omp_get_max_threads")
def nthreads(ip, o, args, e, ol):
    if ip.sched is not None:
        return Poly.of(2 if ip.team is not None or e.get("q") == "omp_get_max_threads" else 1)
    return Poly.atom("nthreads")


@model("omp_get_thread_num")
def tnum(ip, o, args, e, ol):
    return Poly.of(ip.team[0]) if ip.team is not None else ZERO


# ------------------------------------------------------------------ logger
@model("htool::Logger::get_instance")
def logger(ip, o, args, e, ol):
    return LV(Cell(Obj("htool::Logger", "logger")))


@model("htool::Logger::log")
def log(ip, o, args, e, ol):
    lv = val(ip, args[0])
    record(ip, "log", e, level=getattr(lv, "name", "?"))
    ip.logged.append((getattr(lv, "name", "?"), ip.stack[-1]["q"] if ip.stack else "?", line(e)))
    return None


@model("htool::Logger::set_current_log_level", "htool::Logger::set_current_writer")
def lognop(ip, o, args, e, ol):
    return None


# ------------------------------------------------------------------ smart pointers
@model("std::make_unique", "std::make_shared")
def make_ptr(ip, o, args, e, ol):
    t = strip_t(e["targs"][0]) if e.get("targs") else I.targ(e["t"])
    if t in FLT_T or t in INT_T or t == "bool":
        return Smart(Cell(val(ip, args[0]) if args else ZERO), None, t)
    f = ip.pick_ctor(t, args, e)
    if f is NotImplemented:
        v = ip.construct_std(t, args, e)
        return Smart(v if v is not None else Obj(t), None, t)
    if f is None:
        ob = Obj(t)
        ob.tag["opaque"] = True
        return Smart(ob, None, t)
    args = ip.convert_args(f, args)
    k = "ctor:" + f["q"]
    # contracts are keyed by the class name
    ck = "ctor:" + f["clsname"] if "ctor:" + f["clsname"] in ip.contracts else None
    if ck:
        r = ip.contracts[ck](ip, f, args, e)
        if r is not NotImplemented:
            return Smart(r, None, t)
    if f.get("defaulted") and (f.get("copyctor") or f.get("movector")):
        return Smart(ip.copy_obj(val(ip, args[0]), f.get("movector")), None, t)
    if not f["hasbody"]:
        ob = Obj(t)
        ob.tag["opaque"] = True
        return Smart(ob, None, t)
    return Smart(ip.construct(f, t, args), None, t)


def smart_get(ip, o, args, e, ol):
    if isinstance(o, Smart):
        if o.t is None:
            return PObj(None)
        if o.t == "lazy":
            r = ip.truth(ip.isnull(o))
            if r:
                return PObj(None)
        t = ip.smart_target(o)
        if isinstance(t, Cell):
            return PCell(t)
        return PObj(t)
    return Unk("get on %r" % (o,))


def smart_reset(ip, o, args, e, ol):
    v = val(ip, args[0]) if args else PObj(None)
    if isinstance(o, Smart) and isinstance(v, PObj):
        ip.setattr_(o, "t", v.o)
    return None


def smart_assign(ip, o, args, e, ol):
    v = val(ip, args[0]) if len(args) else None
    if isinstance(v, PObj):
        v = Smart(v.o, None, o.elt if isinstance(o, Smart) else None)
    if isinstance(o, Smart) and isinstance(v, Smart):
        if v.t == "lazy":
            ip.setattr_(o, "name", v.name)
        ip.setattr_(o, "t", v.t)
        if isinstance(o, Smart) and "unique_ptr" in e["q"] and v is not o:
            ip.setattr_(v, "t", None)
        return LV(ol) if ol is not None else None
    ip.lset(ol, v)
    return LV(ol)


def smart_release(ip, o, args, e, ol):
    r = smart_get(ip, o, args, e, ol)
    if isinstance(o, Smart):
        ip.setattr_(o, "t", None)
    return r


# ------------------------------------------------------------------ containers
def vec_begin(ip, o):
    if isinstance(o, Vec):
        return Ptr(o.buf, ZERO)
    if isinstance(o, Coll):
        return It(o, ZERO)
    if isinstance(o, Ptr):
        return o
    return Unk("begin")


def vec_end(ip, o):
    if isinstance(o, Vec):
        return Ptr(o.buf, o.size)
    if isinstance(o, Coll):
        n = ip.coll_size(o)
        return It(o, n) if not is_unk(n) else Unk("end")
    return Unk("end")


def vec_size(ip, o):
    if isinstance(o, Vec):
        return o.size
    if isinstance(o, Coll):
        return ip.coll_size(o)
    return Unk("size of %r" % (o,))


def vec_resize(ip, o, args, e, ol):
    n = num(ip, args[0])
    if is_unk(n):
        if isinstance(o, Vec):
            ip.setattr_(o, "size", Poly.atom(ip.fresh("n")))
            ip.mhavoc(o.buf, "resize")
        elif isinstance(o, Coll):
            ip.setattr_(o, "parts", [("unk", "resize")])
        return None
    n = ip.F.norm(n)
    if isinstance(o, Vec):
        old = o.size
        if ip.F.eq(old, n):
            return None
        fillv = num(ip, args[1]) if len(args) > 1 else ZERO
        if ip.F.zero(old):
            if isinstance(o.buf, IBuf):
                b = IBuf(ip.fresh("vec"), n, fillv if isinstance(fillv, Poly) else "zero")
            else:
                b = Buffer(ip.fresh("vec"), n, "zero")
                if isinstance(fillv, Poly) and not fillv.is_zero():
                    b.base = ("fill", fillv)
            ip.setattr_(o, "buf", b)
            ip.setattr_(o, "size", n)
            return None
        if isinstance(o.buf, IBuf):
            b = IBuf(ip.fresh("vec"), n, Unk("resized"))
            if ip.F.nonneg(old - n):
                b = ip.copy_vec(o).buf
                b.size = n
            elif old.is_const() and n.is_const():
                b = IBuf(ip.fresh("vec"), n, "zero")
                b.entries = tuple((P(i), ip.iget(o.buf, P(i)), None) for i in range(int(old.const_value())))
            else:
                snap = ip.copy_vec(o).buf
                b.entries = ((None, lambda off: ip.iget(snap, off) if ip.F.nonneg(old - 1 - off) else (ZERO if ip.F.nonneg(off - old) else Unk("resized")), None),)
        else:
            b = ip.clone_buf(o.buf, n)
            if not ip.F.nonneg(old - n):
                if b.base in ("init", "uninit"):
                    pass
                ip.M.write(b, View(old, n - old, 1, 1, 0), ip.A.zero(n - old, 1))
        ip.setattr_(o, "buf", b)
        ip.setattr_(o, "size", n)
        return None
    if isinstance(o, Coll):
        cs = ip.coll_size(o)
        fv = val(ip, args[1]) if len(args) > 1 else None

        def fresh():
            # the new elements are copies of the argument, or value-initialised
            return ip.copyval(fv) if len(args) > 1 else ip.default_zero(o.elt)
        if not is_unk(cs) and ip.F.eq(cs, n):
            return None
        if not is_unk(cs) and ip.F.zero(cs):
            if n.is_const() and n.const_value() <= 64:
                ip.setattr_(o, "parts", [("one", fresh()) for _ in range(int(n.const_value()))])
            elif len(args) > 1 and not (isinstance(fv, PObj) and fv.o is None):
                ip.setattr_(o, "parts", [("unk", "resize")])
            else:
                ip.setattr_(o, "parts", [("sym0", o.elt, n, None)])
            return None
        if n.is_zero():
            ip.setattr_(o, "parts", [])
            return None
        if not is_unk(cs) and n.is_const() and cs.is_const() and all(p[0] == "one" for p in o.parts):
            k = int(n.const_value())
            ps = list(o.parts[:k])
            while len(ps) < k:
                ps.append(("one", fresh()))
            ip.setattr_(o, "parts", ps)
            return None
        ip.setattr_(o, "parts", [("unk", "resize")])
        return None
    return None


def vec_push(ip, o, args, e, ol):
    if isinstance(o, Vec):
        v = num(ip, args[0])
        n = o.size
        if ip.append_log:
            ip.append_log[-1].append((o, v))
        if isinstance(o.buf, IBuf):
            b = ip.copy_vec(o).buf
            b.size = n + 1
            b.entries = b.entries + ((n, v if isinstance(v, Poly) else Unk("pushed"), None),)
            if ip.F.zero(n):
                b.base = "uninit"
        else:
            b = ip.clone_buf(o.buf, n + 1)
            ip.M.write(b, View(n, 1, 1, 0, 0), ip.to_mat(v) if isinstance(v, (Poly, MatVal)) else Unk("pushed"))
        ip.setattr_(o, "buf", b)
        ip.setattr_(o, "size", n + 1)
        return None
    if isinstance(o, Coll):
        emp = e["q"].endswith("emplace_back") or e["q"].endswith("emplace")
        if emp and not (len(args) == 1 and not isinstance(val(ip, args[0]), (Poly,))):
            el = strip_t(o.elt)
            f = ip.pick_ctor(el, args, e)
            if f not in (None, NotImplemented) and f["hasbody"]:
                v = ip.construct(f, el, ip.convert_args(f, args))
            else:
                v = ip.construct_std(el, args, e)
                if v is None:
                    v = Obj(el)
        else:
            v = val(ip, args[0])
            if isinstance(v, PObj) and strip_t(o.elt).split("<")[0] in ("std::unique_ptr", "std::shared_ptr"):
                v = Smart(v.o)
            if isinstance(v, Obj) and strip_t(o.elt) == v.cls:
                v = ip.copy_obj(v, True)
            elif isinstance(v, (Vec, Coll)):
                v = ip.copyval(v)
        ip.coll_append(o, v)
        return None
    return None


def vec_clear(ip, o, args, e, ol):
    if isinstance(o, Vec):
        ip.setattr_(o, "size", ZERO)
        b = IBuf(ip.fresh("vec"), ZERO, "zero") if isinstance(o.buf, IBuf) else Buffer(ip.fresh("vec"), ZERO, "zero")
        ip.setattr_(o, "buf", b)
    elif isinstance(o, Coll):
        ip.setattr_(o, "parts", [])
    elif isinstance(o, StrV):
        o.s = ""
    return None


def vec_index(ip, o, args, e, ol):
    i = num(ip, args[0])
    if isinstance(o, (Vec, Coll, Ptr)) and isinstance(i, Poly):
        return LV(ip.index_lv(o, i))
    if isinstance(o, Obj):
        return Unk("map index")
    return Unk("index %r [%r]" % (o, i))


def vec_assign(ip, o, args, e, ol):
    if len(args) == 2:
        a, b = val(ip, args[0]), val(ip, args[1])
        if isinstance(a, Poly) and isinstance(o, Vec):
            n = ip.F.norm(a)
            v = num(ip, args[1])
            bf = IBuf(ip.fresh("vec"), n, v if isinstance(v, Poly) else Unk("assign")) if isinstance(o.buf, IBuf) else Buffer(ip.fresh("vec"), n, ("fill", v) if isinstance(v, Poly) and not v.is_zero() else ("zero" if isinstance(v, Poly) else Unk("assign")))
            ip.setattr_(o, "buf", bf)
            ip.setattr_(o, "size", n)
            return None
        p, n = rng(ip, a, b)
        if p is not None and isinstance(o, Vec):
            v = range_vec(ip, p, n)
            ip.setattr_(o, "buf", v.buf)
            ip.setattr_(o, "size", v.size)
            return None
    if isinstance(o, Vec):
        ip.mhavoc(o.buf, "assign")
    elif isinstance(o, Coll):
        ip.setattr_(o, "parts", [("unk", "assign")])
    return None


def range_vec(ip, p, n):
    if isinstance(p.buf, IBuf):
        b = IBuf(ip.fresh("vec"), n, Unk("range"))
        snap = IBuf(p.buf.name, p.buf.size, p.buf.base)
        snap.src, snap.entries = p.buf.src, p.buf.entries
        off0 = p.off
        b.entries = ((None, lambda off: ip.iget(snap, off + off0), None),)
        return Vec(b, n)
    b = Buffer(ip.fresh("vec"), n, "zero")
    if p.buf is not None:
        if ip.F.zero(p.off) and p.buf.size is not None and ip.F.eq(p.buf.size, n):
            b = ip.clone_buf(p.buf, n)
        else:
            elementwise(ip, [p], Ptr(b, ZERO), n, lambda vs: vs[0], 0)
    return Vec(b, n)


def vec_insert(ip, o, args, e, ol):
    pos = val(ip, args[0])
    if isinstance(o, Coll) and len(args) == 2 and isinstance(pos, It) and pos.c is o and all(p[0] == "one" for p in o.parts) and ip.F.norm(pos.i).is_const():
        k = int(ip.F.norm(pos.i).const_value())
        if 0 <= k <= len(o.parts):
            ip.setattr_(o, "parts", o.parts[:k] + [("one", val(ip, args[1]))] + o.parts[k:])
            return It(o, P(k))
    if isinstance(o, Coll) and len(args) == 3:
        a, b = val(ip, args[1]), val(ip, args[2])
        cs = ip.coll_size(o)
        if isinstance(pos, It) and isinstance(a, It) and isinstance(b, It) and not is_unk(cs) and ip.F.eq(pos.i, cs) and ip.F.zero(a.i) and ip.F.eq(b.i, ip.coll_size(a.c)):
            if len(a.c.parts) == 1 and a.c.parts[0][0] == "sym":
                sym = a.c.parts[0]
                np = ("symref", a.c, sym[2], None)
                parts = [np]
            else:
                parts = list(a.c.parts)
            if ip.append_log:
                for x in parts:
                    ip.append_log[-1].append((o, x))
            ip.setattr_(o, "parts", o.parts + parts)
            return None
    if isinstance(o, Vec):
        a, b = (val(ip, args[1]), val(ip, args[2])) if len(args) == 3 else (None, None)
        p, n = rng(ip, a, b) if a is not None else (None, None)
        if p is not None and ip.F.zero(o.size) :
            v = range_vec(ip, p, n)
            ip.setattr_(o, "buf", v.buf)
            ip.setattr_(o, "size", v.size)
            return None
        ip.mhavoc(o.buf, "insert")
        ip.setattr_(o, "size", Poly.atom(ip.fresh("n")))
    elif isinstance(o, Coll):
        ip.setattr_(o, "parts", [("unk", "insert")])
    return Unk("insert")


def vec_assign_op(ip, o, args, e, ol):
    v = val(ip, args[0])
    mv = isinstance(v, (Vec, Coll))
    if isinstance(o, Vec) and isinstance(v, Vec):
        if o is v:
            return LV(ol)
        if isinstance(v.buf, Buffer) or isinstance(v.buf, IBuf):
            c = ip.copy_vec(v)
            ip.setattr_(o, "buf", c.buf)
            ip.setattr_(o, "size", c.size)
        return LV(ol)
    if isinstance(o, Coll) and isinstance(v, Coll):
        if o is v:
            return LV(ol)
        c = ip.copyval(v)
        ip.setattr_(o, "parts", c.parts)
        o.cache = c.cache
        o.name = v.name
        o.domain = getattr(v, "domain", None)
        if str((e.get("pt") or [""])[-1]).rstrip().endswith("&&") and all(p[0] == "one" for p in v.parts):
            ip.setattr_(v, "parts", [])
        return LV(ol)
    if isinstance(v, Tup):
        x = ip.vec_of(e.get("ot") or (e["args"][0].get("t") if e.get("args") else "") or "std::vector<int>", v.vs)
        if isinstance(o, Vec) and isinstance(x, Vec):
            ip.setattr_(o, "buf", x.buf)
            ip.setattr_(o, "size", x.size)
            return LV(ol)
        if isinstance(o, Coll) and isinstance(x, Coll):
            ip.setattr_(o, "parts", x.parts)
            return LV(ol)
    ip.lset(ol, v if not isinstance(v, (Vec, Coll)) else ip.copyval(v))
    return LV(ol)


def it_rel(op):
    def fn(ip, o, args, e, ol):
        xs = ([o] if o is not None else []) + [val(ip, a) for a in args]
        return ip.binop(op, xs[0], xs[1], e)
    return fn


def it_deref(ip, o, args, e, ol):
    v = o if o is not None else val(ip, args[0])
    return LV(ip.deref(v))


def it_arrow(ip, o, args, e, ol):
    v = o if o is not None else val(ip, args[0])
    if isinstance(v, It):
        x = ip.coll_get(v.c, v.i)
        return PCell(("t", x)) if isinstance(x, Smart) else (x if isinstance(x, PObj) else (PObj(x) if isinstance(x, Obj) else x))
    if isinstance(v, Smart):
        t = ip.pointee(v)
        return PObj(t) if isinstance(t, Obj) else PCell(t)
    return v


def it_inc(d, post):
    def fn(ip, o, args, e, ol):
        l = ol if ol is not None else args[0]
        v = ip.lget(l)
        n = ip.binop("+", v, P(d), e)
        ip.lset(l, n)
        return v if post else LV(l)
    return fn


def generic(ip, q, obj, args, e, ol):
    """standard containers, iterators and smart pointers by member name"""
    if q is None:
        return NotImplemented
    if not q.startswith(("std::", "__gnu_cxx::")) and "::" in q:
        return NotImplemented
    name = q.split("::")[-1]
    cls = "::".join(q.split("::")[:-1])
    if q.startswith("std::chrono"):
        return Sym("time")
    # streams and strings carry no matrix data
    if any(x in cls for x in ("basic_ostream", "basic_ofstream", "basic_ios", "ios_base", "basic_istream", "basic_string", "basic_ifstream", "stringstream")):
        if name == "size" or name == "length":
            return Poly.atom(ip.fresh("strlen"))
        return StrV()
    if name.startswith("operator<<") or name == "setprecision" or name == "setw" or name in ("endl", "flush"):
        return LV(args[0]) if args else StrV()
    if name == "operator+" and any(isinstance(ip.lget(a), StrV) for a in args):
        return StrV()
    if cls in ("std::complex",) or (cls == "std" and name.startswith("operator") and len(args) + (obj is not None) == 2 and all(isinstance(num(ip, a), (Poly, MatVal, Unk)) for a in args)):
        return complex_op(ip, name, obj, args, e, ol)
    if cls == "std" and name == "operator-" and len(args) == 1 and isinstance(num(ip, args[0]), (Poly, MatVal)):
        v = num(ip, args[0])
        return -v if isinstance(v, Poly) else ip.A.scale(P(-1), v)
    if cls in ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access"):
        if name == "get":
            return smart_get(ip, obj, args, e, ol)
        if name == "reset":
            return smart_reset(ip, obj, args, e, ol)
        if name == "release":
            return smart_release(ip, obj, args, e, ol)
        if name == "operator=":
            return smart_assign(ip, obj, args, e, ol)
        if name == "operator*":
            return LV(("t", ip.pointee(obj))) if not isinstance(obj, Smart) or not isinstance(obj.t, Cell) else LV(obj.t)
        if name == "operator->":
            t = ip.pointee(obj)
            return PObj(t) if isinstance(t, Obj) else (t if is_unk(t) else PCell(("t", t)))
        if name.startswith("operator bool"):
            r = ip.isnull(obj)
            return r.neg() if isinstance(r, Cond) else not r
        return NotImplemented
    if cls == "std" and name in ("operator==", "operator!=") and len(args) == 2:
        a, b = val(ip, args[0]), val(ip, args[1])
        r = ip.binop("==" if name == "operator==" else "!=", a, b, e)
        return r
    if cls in ("std::vector", "std::array", "std::deque", "std::stack", "std::queue", "std::initializer_list"):
        o = obj
        if name in ("size",):
            return vec_size(ip, o)
        if name == "empty":
            n = vec_size(ip, o)
            return Cond("eq", n) if isinstance(n, Poly) else n
        if name in ("data", "begin", "cbegin"):
            return vec_begin(ip, o)
        if name in ("end", "cend"):
            return vec_end(ip, o)
        if name in ("rbegin", "crbegin", "rend", "crend") and isinstance(o, Coll):
            if "end" in name:
                return It(o, P(-1), True)
            n = ip.coll_size(o)
            return It(o, n - 1, True) if not is_unk(n) else Unk("rbegin")
        if name in ("operator[]", "at"):
            return vec_index(ip, o, args, e, ol)
        if name == "front":
            return LV(ip.index_lv(o, ZERO))
        if name in ("back",) or (name == "top"):
            n = vec_size(ip, o)
            return LV(ip.index_lv(o, n - 1)) if isinstance(n, Poly) else n
        if name in ("push_back", "emplace_back", "push", "emplace") and not (name == "emplace" and cls == "std::vector"):
            return vec_push(ip, o, args, e, ol)
        if name == "resize":
            return vec_resize(ip, o, args, e, ol)
        if name in ("clear",):
            return vec_clear(ip, o, args, e, ol)
        if name in ("reserve", "shrink_to_fit"):
            return None
        if name == "assign":
            return vec_assign(ip, o, args, e, ol)
        if name == "insert":
            return vec_insert(ip, o, args, e, ol)
        if name == "operator=":
            return vec_assign_op(ip, o, args, e, ol)
        if name in ("swap",):
            return swap(ip, None, [ol, args[0]], e, None)
        if name == "pop" and cls == "std::queue" and isinstance(o, Coll) and o.parts and o.parts[0][0] == "one":
            ip.setattr_(o, "parts", o.parts[1:])
            return None
        if (name == "pop_back" or (name == "pop" and cls != "std::queue")) and isinstance(o, Coll) and o.parts and o.parts[-1][0] == "one":
            if cls != "std::vector":
                if not hasattr(o, "popped"):
                    o.popped = None
                ip.setattr_(o, "popped", (len(o.parts) - 1, o.parts[-1][1]))
            ip.setattr_(o, "parts", o.parts[:-1])
            return None
        if name == "fill" and isinstance(o, Vec):
            return fill(ip, None, [("t", Ptr(o.buf, ZERO)), ("t", o.size), args[0]], dict(e, q="std::fill_n"), None)
        if name == "pop_back" and isinstance(o, Vec) and isinstance(o.size, Poly):
            ip.setattr_(o, "size", ip.F.norm(o.size - 1))
            return None
        if name == "erase" and isinstance(o, Coll) and len(args) in (1, 2) and all(p[0] == "one" for p in o.parts):
            a = val(ip, args[0])
            b = val(ip, args[1]) if len(args) == 2 else It(o, a.i + 1) if isinstance(a, It) else None
            if isinstance(a, It) and isinstance(b, It) and a.c is o and b.c is o and not a.rev and not b.rev and ip.F.norm(a.i).is_const() and ip.F.norm(b.i).is_const():
                i, j = int(ip.F.norm(a.i).const_value()), int(ip.F.norm(b.i).const_value())
                if 0 <= i <= j <= len(o.parts):
                    ip.setattr_(o, "parts", o.parts[:i] + o.parts[j:])
                    return It(o, P(i))
        if isinstance(o, (Vec,)):
            ip.mhavoc(o.buf, name)
            if name not in ("max_size", "capacity", "get_allocator"):
                ip.setattr_(o, "size", Poly.atom(ip.fresh("n")))
        elif isinstance(o, Coll):
            ip.setattr_(o, "parts", [("unk", name)])
        return Unk("vector::" + name)
    if "__normal_iterator" in cls or cls == "__gnu_cxx" or "reverse_iterator" in cls:
        if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "operator-", "operator+"):
            return it_rel(name[8:])(ip, obj, args, e, ol)
        if name == "operator*":
            return it_deref(ip, obj, args, e, ol)
        if name == "operator->":
            return it_arrow(ip, obj, args, e, ol)
        if name == "operator++":
            return it_inc(1, len(args) == 1)(ip, obj, args[:0] if obj is not None else args, e, ol)
        if name == "operator--":
            return it_inc(-1, len(args) == 1)(ip, obj, args, e, ol)
        if name in ("operator+=", "operator-="):
            n = num(ip, args[0])
            v = ip.binop("+" if name == "operator+=" else "-", obj, n, e)
            ip.lset(ol, v)
            return LV(ol)
        if name == "operator[]":
            return LV(ip.index_lv(obj, num(ip, args[0])))
        if name == "operator=":
            ip.lset(ol, val(ip, args[0]))
            return LV(ol)
        if name == "base":
            return obj
        return NotImplemented
    if cls == "std::function" and name in ("operator()",):
        return ip.call_value(obj, args, e)
    if cls == "std::function" and name == "operator bool":
        return isinstance(obj, (Closure, MemPtr, Functor2))
    if cls in ("std::pair", "std::tuple"):
        if name == "operator=":
            v = val(ip, args[0])
            if isinstance(obj, Tie):
                vs = None
                if isinstance(v, Tup):
                    vs = v.vs
                elif isinstance(v, Obj) and "first" in v.f:
                    vs = [v.f["first"], v.f["second"]]
                for i, l in enumerate(obj.lvs):
                    ip.lset(l, ip.copyval(vs[i]) if vs and i < len(vs) else Unk("tie"))
                return obj
            ip.lset(ol, v)
            return LV(ol)
    if name in ("get",) and cls == "std" and args:
        v = val(ip, args[0])
        if isinstance(v, Tup) and e.get("targs"):
            try:
                return LV(("t", v.vs[int(e["targs"][0])]))
            except Exception:
                return Unk("get")
    if name in ("make_pair", "make_tuple") and cls == "std":
        return mkpair(ip, [val(ip, a) for a in args])
    if name in ("sort", "stable_sort", "reverse", "nth_element", "partition") and cls == "std":
        p = val(ip, args[0])
        if ip.on_reorder and name in ("sort", "stable_sort", "reverse") and ip.on_reorder(ip, name, p, val(ip, args[1]), e):
            return None
        if isinstance(p, Ptr) and p.buf is not None:
            ip.mhavoc(p.buf, name)
        elif isinstance(p, It):
            ip.setattr_(p.c, "parts", [("unk", name)])
        return None
    if name == "back_inserter":
        return ("inserter", val(ip, args[0]))
    if name == "tie":
        return Tie(list(args))
    return NotImplemented


class Tie:
    """std::tie: a tuple of references"""

    def __init__(self, lvs):
        self.lvs = lvs


def mkpair(ip, vs):
    o = Obj("std::pair")
    o.f["first"], o.f["second"] = vs[0], vs[1] if len(vs) > 1 else None
    return o if len(vs) == 2 else Tup(vs)


def complex_op(ip, name, obj, args, e, ol):
    op = name[8:]
    if obj is not None or ol is not None:
        a = ip.lget(ol) if ol is not None else obj
        if op == "=":
            v = num(ip, args[0])
            ip.lset(ol, v, line(e))
            return LV(ol)
        if op in ("+=", "-=", "*=", "/="):
            v = ip.binop(op[0], a, num(ip, args[0]), dict(e, t="double"))
            ip.lset(ol, v, line(e))
            return LV(ol)
        if name in ("real",):
            return real(ip, a, [], e, None)
        if name == "imag":
            return imag(ip, a, [], e, None)
        return Unk("complex " + name)
    xs = [num(ip, a) for a in args]
    if len(xs) == 1:
        if op == "-":
            return -xs[0] if isinstance(xs[0], Poly) else (ip.A.scale(P(-1), xs[0]) if isinstance(xs[0], MatVal) else xs[0])
        return xs[0]
    if op in ("+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">="):
        return ip.binop(op, xs[0], xs[1], dict(e, t="double"))
    return Unk("complex op")
