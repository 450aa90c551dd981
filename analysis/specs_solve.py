"""Triangular solves, LU and Cholesky factorizations, dense and hierarchical."""
from spec import *
from specs_dense import fns, scal_t, argcells
from hmodel3 import *
from specs_prod import kind_of

PROP = "C05"


def scase(out, f, label, build, **opt):
    T = scal_t(f)

    def setup(ip, f):
        s = Spec(ip, T)
        return build(ip, f, s, STree(ip, s, T))
    out.append(Case(f, label, setup, "complex" in T, PROP, opt))


def is_h(f, i):
    return "HMatrix<" in f["params"][i]["t"]


FL = [(u, t, d) for u in "LU" for t in "NTC" for d in "NU"]


def done(s, ip, ht, got, want, what, bf):
    if ip.logged:
        return [Outcome("throw", "reported as unsupported")]
    return [s.compare(got, want, what, bf)] + s.frame() + s.alarms()


def hsolve_cases(ir):
    out = []
    for q in ("matrix_solve", "lrmat_solve", "matrix_solve_row_major", "hmatrix_solve"):
        for f in fns(ir, "htool::internal_triangular_hmatrix_" + q):
            cx = "complex" in scal_t(f)
            for side in ("L" if q.endswith("row_major") else "LR"):
                for up, tr, dg in FL:
                    structs = [("O", None, True, 2)]
                    if q == "matrix_solve_row_major":
                        structs = [("H", None, True, 2), ("D", None, True, 2), ("H", None, False, 2), ("H", None, True, 3), ("H", None, False, 3)]
                    if q == "hmatrix_solve":
                        structs = [(a, b, c, k) for a in "HD" for b in "HDL" for c in (True, False) for k in (2, 3)]
                    for sa, sb, cons, kk in structs:
                        def b(ip, f, s, ht, q=q, side=side, up=up, tr=tr, dg=dg, sa=sa, sb=sb, cons=cons, kk=kk):
                            sp = lambda x: [x + str(i + 1) for i in range(kk)]
                            N, M = ht.cluster("n", sp("n"), cons), ht.cluster("m", sp("m"), cons)
                            A = ht.node("A", N, N, sa)
                            sz = lambda c: c.f["m_size"]
                            al = s.scalar("alpha")
                            r, c = (N, M) if side == "L" else (M, N)
                            if q == "hmatrix_solve":
                                B = ht.node("B", r, c, sb, out=True)
                                init = ht.value(B, True)
                            elif q == "lrmat_solve":
                                B = s.lowrank("B", sz(r), sz(c), "rB", True)
                                init = s.lr(B)
                            elif q == "matrix_solve_row_major":
                                B = s.matrix("B", sz(c), sz(r), True)
                                init = s.val(B)
                            else:
                                B = s.matrix("B", sz(r), sz(c), True)
                                init = s.val(B)

                            def checks(ip):
                                x = ip.A.T(init) if q == "matrix_solve_row_major" else init
                                w = ht.inv_apply(A, side, up, tr, dg, ip.A.scale(al, x))
                                if is_unk(w):
                                    return [Outcome("undecided", str(w))]
                                if q == "matrix_solve_row_major":
                                    w = ip.A.T(w)
                                if q == "hmatrix_solve":
                                    got, bf = ht.value(B), ht.lastbuf(B)
                                else:
                                    got, bf = s.finalof(B)
                                r_ = done(s, ip, ht, got, w, "op(A) X = alpha B" if side == "L" else "X op(A) = alpha B", bf)
                                return r_ + (s.dims(B, sz(r), sz(c)) if q in ("lrmat_solve", "matrix_solve") else [])
                            return None, argcells([side, up, tr, dg, al, A, B]), checks
                        scase(out, f, "side=%s UPLO=%s trans=%s diag=%s A:%s%s%s%s" % (side, up, tr, dg, sa, " B:" + sb if sb else "", "" if cons else " above the partition", " three blocks" if kk == 3 else ""), b,
                              thorough=(kk == 3 and (dg == "U" or (tr == "C" and not cx) or not cons)), cost=kk)
    return out


def blocks(ht, H):
    ch = {}
    offs = []
    for c, ro, co, dg in H.tag["hn"]["kids"]:
        ch[(str(ro), str(co))] = c
        if ro is co or ht.ip.F.eq(ro, co):
            offs.append(str(ro))
    return [[ch.get((a, b)) for b in offs] for a in offs]


def fact_cases(ir):
    out = []
    for q in ("lu_factorization", "cholesky_factorization"):
        for f in fns(ir, "htool::" + q):
            i = 0 if q[0] == "l" else 1
            if not is_h(f, i):
                continue
            for up in (" " if q[0] == "l" else "LU"):
                for st, kk, half, cons in (("D", 2, False, True), ("H", 2, False, True), ("H", 3, False, True), ("H", 2, True, True), ("H", 3, True, True), ("L", 2, False, True), ("H", 3, False, False)):
                    if half and up != "L":
                        continue

                    def b(ip, f, s, ht, q=q, up=up, st=st, kk=kk, half=half, cons=cons):
                        N = ht.cluster("n", ["n%d" % (i + 1) for i in range(kk)], cons)
                        H = ht.node("H", N, N, st, out=True, lower=half)
                        H.tag["hn"]["cons"] = cons
                        W = None
                        if st == "H":
                            bl = blocks(ht, H)
                            W = [[None if c is None else ht.value(c, True) for c in r] for r in bl]
                        else:
                            W0 = ht.value(H, True)

                        def checks(ip):
                            if ip.logged:
                                return [Outcome("throw", "reported as unsupported")]
                            if st == "L":
                                return [Outcome("violation", "factorization of a low-rank block is not reported")]
                            A = ip.A
                            kind = "LU" if q[0] == "l" else "CH" + up
                            if st == "D":
                                return [s.compare(ht.value(H), ht.factored(kind, W0), "the dense block is factorized", ht.lastbuf(H))] + s.frame() + s.alarms()
                            cj = "C" if A.cplx else "T"
                            inv = lambda v, u, d, t: ht.opaque_inv(v, u, d, t)
                            res = []
                            for k in range(kk):
                                W[k][k] = P_ = ht.factored(kind, W[k][k])
                                for j in range(k + 1, kk):
                                    if kind == "LU":
                                        W[k][j] = A.mul(inv(P_, "L", "U", "N"), W[k][j])
                                        W[j][k] = A.mul(W[j][k], inv(P_, "U", "N", "N"))
                                    elif up == "L":
                                        x = inv(P_, "L", "N", "T")
                                        W[j][k] = A.mul(W[j][k], A.J(x) if cj == "C" else x)
                                    else:
                                        x = inv(P_, "U", "N", "T")
                                        W[k][j] = A.mul(A.J(x) if cj == "C" else x, W[k][j])
                                for i_ in range(k + 1, kk):
                                    for j in range(k + 1, kk):
                                        if kind == "LU":
                                            W[i_][j] = A.add(W[i_][j], A.mul(W[i_][k], W[k][j]), ONE, -ONE)
                                        elif up == "L" and i_ >= j:
                                            W[i_][j] = A.add(W[i_][j], A.mul(W[i_][k], A.op(cj, W[j][k])), ONE, -ONE)
                                        elif up == "U" and i_ <= j:
                                            W[i_][j] = A.add(W[i_][j], A.mul(A.op(cj, W[k][i_]), W[k][j]), ONE, -ONE)
                            for i_ in range(kk):
                                for j in range(kk):
                                    if kind == "CHL" and i_ < j or kind == "CHU" and i_ > j or bl[i_][j] is None:
                                        continue
                                    res.append(s.compare(ht.value(bl[i_][j]), W[i_][j], "block (%d,%d) of the factorization" % (i_, j), ht.lastbuf(bl[i_][j])))
                            return res + s.frame() + s.alarms()
                        return None, argcells(([] if q[0] == "l" else [up]) + [H]), checks
                    scase(out, f, "%s%s %d blocks%s%s" % ("" if up == " " else "UPLO=%s " % up, st, kk, " half stored" if half else "", "" if cons else " above the partition"), b)
    for q in ("internal_lu_solve", "internal_cholesky_solve", "lu_solve", "cholesky_solve"):
        for f in fns(ir, "htool::" + q):
            if not is_h(f, 1):
                continue
            for fl in ("NTC" if "lu" in q else "LU"):
                def b(ip, f, s, ht, q=q, fl=fl):
                    N = ht.cluster("n", ["n1", "n2"], off=0)
                    N2 = N
                    A = ht.node("A", N, N2, "O")
                    n = N.f["m_size"]
                    X = s.matrix("X", n, "mu", True)
                    x0 = s.val(X)

                    def checks(ip):
                        x = x0
                        if not q.startswith("internal"):
                            x = ip.A.mul(ht.permop(N2, "N"), x)
                        w = ht.lu_apply(A, fl, x) if "lu" in q else ht.chol_apply(A, fl, x)
                        if is_unk(w):
                            return [Outcome("undecided", str(w))]
                        if not q.startswith("internal"):
                            w = ip.A.mul(ht.permop(N, "T"), w)
                        got, bf = s.finalof(X)
                        return done(s, ip, ht, got, w, "solution with the factors", bf) + s.dims(X, n, "mu")
                    return None, argcells([fl, A, X]), checks
                scase(out, f, "flag=%s" % fl, b)
    return out


def cases(ir):
    return hsolve_cases(ir) + fact_cases(ir)


class LastPiv:
    """pivots left by LAPACK: the last one designates the last row"""

    def __init__(self, ip, nm, n):
        self.ip, self.pivname, self.n = ip, nm, n

    def __call__(self, off):
        F = self.ip.F
        if F.eq(off, self.n - 1) or (F.nonneg(off - self.n + 1) and F.nonneg(self.n - 1 - off)):
            return self.n
        return Poly.atom("%s[%s]" % (self.pivname, self.ip.F.norm(off)))


def pivots(ip, A, n):
    b = IBuf(A.name + ".pivots", None)
    b.entries = ((None, LastPiv(ip, "P:" + A.name + ".pivots", n), None),)
    return Vec(b, n)


def dense_cases(ir):
    out = []

    def dcase(f, label, build, **opt):
        T = scal_t(f)

        def setup(ip, f):
            return build(ip, f, Spec(ip, T))
        out.append(Case(f, label, setup, "complex" in T, PROP, opt))

    def tf(ip, A, up, dg, inv=True):
        n = A.f["m_number_of_rows"]
        return ("tri", A.tag["buf"].name, ZERO, n, n, up, dg, "N", inv)

    def fac(ip, A, piv):
        """the packed factors of a matrix left by lu_factorization"""
        nm = "P:" + A.name + ".pivots"
        ip.A.perm.add(nm)
        n = A.f["m_number_of_rows"]
        return ("op", nm, n, n, "N")

    for f in fns(ir, "htool::triangular_matrix_matrix_solve"):
        for side in "LR":
            for up, tr, dg in FL:
                for piv in (False, True):
                    def b(ip, f, s, side=side, up=up, tr=tr, dg=dg, piv=piv):
                        na = "m" if side == "L" else "n"
                        A, B = s.matrix("A", na, na), s.matrix("B", "m", "n", True)
                        A.f["m_pivots"] = pivots(ip, A, P(na) if piv else ZERO)
                        al = s.scalar("alpha")
                        b0 = s.val(B)

                        def checks(ip):
                            G = ip.A
                            k = P(na)
                            W = MatVal(k, k, {(ZERO, k, ZERO, k, (tf(ip, A, up, dg),) + ((fac(ip, A, piv),) if piv and up == "L" else ())): ONE})
                            W = G.op(tr, G.norm(W))
                            w = G.scale(al, G.mul(W, b0) if side == "L" else G.mul(b0, W))
                            got, bf = s.finalof(B)
                            o = s.compare(got, w, "op(A) X = alpha B" if side == "L" else "X op(A) = alpha B", bf)
                            return [o] + s.frame() + s.alarms() + s.dims(B, "m", "n")
                        return None, argcells([side, up, tr, dg, al, A, B]), checks
                    dcase(f, "side=%s UPLO=%s trans=%s diag=%s%s" % (side, up, tr, dg, " with pivots" if piv else ""), b)
    for f in fns(ir, "htool::lu_solve"):
        if is_h(f, 1):
            continue
        for tr in "NTC":
            def b(ip, f, s, tr=tr):
                A, B = s.matrix("A", "n", "n"), s.matrix("B", "n", "mu", True)
                A.f["m_pivots"] = pivots(ip, A, P("n"))
                b0 = s.val(B)

                def checks(ip):
                    k = P("n")
                    W = MatVal(k, k, {(ZERO, k, ZERO, k, (tf(ip, A, "U", "N"), tf(ip, A, "L", "U"), fac(ip, A, True))): ONE})
                    got, bf = s.finalof(B)
                    return [s.compare(got, ip.A.mul(ip.A.op(tr, ip.A.norm(W)), b0), "op(A) X = B from the LU factors", bf)] + s.frame() + s.alarms() + s.dims(B, "n", "mu")
                return None, argcells([tr, A, B]), checks
            dcase(f, "trans=%s" % tr, b)
    for f in fns(ir, "htool::cholesky_solve"):
        if is_h(f, 1):
            continue
        for up in "LU":
            def b(ip, f, s, up=up):
                A, B = s.matrix("A", "n", "n"), s.matrix("B", "n", "mu", True)
                b0 = s.val(B)

                def checks(ip):
                    k = P("n")
                    t = tf(ip, A, up, "N")
                    tc = ip.A.fJ(ip.A.fT(t))
                    W = MatVal(k, k, {(ZERO, k, ZERO, k, (tc, t) if up == "L" else (t, tc)): ONE})
                    got, bf = s.finalof(B)
                    return [s.compare(got, ip.A.mul(ip.A.norm(W), b0), "A X = B from the Cholesky factor", bf)] + s.frame() + s.alarms() + s.dims(B, "n", "mu")
                return None, argcells([up, A, B]), checks
            dcase(f, "UPLO=%s" % up, b)
    for q in ("lu_factorization", "cholesky_factorization"):
        for f in fns(ir, "htool::" + q):
            i = 0 if q[0] == "l" else 1
            if is_h(f, i):
                continue
            for up in (" " if q[0] == "l" else "LU"):
                for shape in (("n", "n"), ("m", "n")) if q[0] == "l" else (("n", "n"),):
                    def b(ip, f, s, up=up, shape=shape, q=q):
                        A = s.matrix("A", shape[0], shape[1], True)
                        a0 = s.val(A)

                        def checks(ip):
                            r, c = P(shape[0]), P(shape[1])
                            nm = ("LU" if q[0] == "l" else "CH" + up) + "{%s}" % ip.A.norm(a0)
                            got, bf = s.finalof(A)
                            o = [s.compare(got, ip.A.view(nm, View(ZERO, r, c, ONE, r)), "the matrix is factorized in place", bf)]
                            if q[0] == "l":
                                pv = A.f["m_pivots"]
                                piv = getattr(pv.buf.entries[-1][1], "pivname", None) if isinstance(pv, Vec) and pv.buf.entries else None
                                if piv is None:
                                    o.append(Outcome("undecided", "pivots"))
                                elif piv == "P:" + nm and shape[0] == shape[1]:
                                    o.append(Outcome("ok", "pivots kept") if ip.F.eq(pv.size, P("n")) else Outcome("violation", "the pivots kept with the matrix are %s instead of n" % pv.size))
                            return o + s.alarms() + s.dims(A, *shape)
                        return None, argcells(([] if q[0] == "l" else [up]) + [A]), checks
                    dcase(f, "%s%sx%s" % ("" if up == " " else "UPLO=%s " % up, *shape), b)
    return out


def cases(ir):
    return hsolve_cases(ir) + fact_cases(ir) + dense_cases(ir)
