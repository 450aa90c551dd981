"""Dense kernels: C := alpha op(A) op(B) + beta C, products with vectors and row-major blocks."""
from spec import *


def fns(ir, q, pred=None):
    r = [f for f in ir.by_q.get(q, []) if f["hasbody"]]
    return [f for f in r if pred is None or pred(f)]


def scal_t(f):
    for p in f["params"]:
        t = strip_t(p["t"])
        if t in ("double", "std::complex<double>"):
            return t
    for p in f["params"] + [{"t": f.get("cls") or ""}, {"t": f["ret"]}]:
        if "std::complex<double>" in p["t"]:
            return "std::complex<double>"
        if "double" in p["t"]:
            return "double"
    return None


def argcells(vals):
    out = []
    for v in vals:
        out.append(v if isinstance(v, (Cell, tuple)) else Cell(v))
    return out


def cases(ir):
    out = []
    for f in fns(ir, "htool::add_matrix_vector_product"):
        T = scal_t(f)
        for tr in "NTC":
            def setup(ip, f, T=T, tr=tr):
                s = Spec(ip, T)
                A = s.matrix("A", "m", "n")
                nx, ny = ("n", "m") if tr == "N" else ("m", "n")
                x, y = s.ptr("x", nx), s.ptr("y", ny, True)
                al, be = s.scalar("alpha"), s.scalar("beta")
                args = argcells([tr, al, A, Ptr(x), be, Ptr(y)])

                def checks(ip):
                    A_ = ip.A
                    v = View(ZERO, P(ny), ONE, ONE, ZERO)
                    want = A_.add(A_.mul(A_.op(tr, s.val(A)), A_.view("x", View(ZERO, P(nx), ONE, ONE, ZERO))), A_.view("y", v), al, be)
                    return [s.compare(ip.M.read(y, v), want, "y = alpha op(A) x + beta y", y)] + s.frame() + s.alarms()
                return None, args, checks
            out.append(Case(f, "trans=" + tr, setup, "complex" in T, "C01"))
    for f in fns(ir, "htool::add_symmetric_matrix_vector_product"):
        T = scal_t(f)
        for up in "LU":
            def setup(ip, f, T=T, up=up):
                s = Spec(ip, T)
                A = s.matrix("A", "n", "n")
                x, y = s.ptr("x", "n"), s.ptr("y", "n", True)
                al, be = s.scalar("alpha"), s.scalar("beta")
                args = argcells([up, al, A, Ptr(x), be, Ptr(y)])

                def checks(ip):
                    A_ = ip.A
                    v = View(ZERO, P("n"), ONE, ONE, ZERO)
                    want = A_.add(A_.mul(s.sym(A, up, "S"), A_.view("x", v)), A_.view("y", v), al, be)
                    return [s.compare(ip.M.read(y, v), want, "y = alpha sym(A) x + beta y", y)] + s.frame() + s.alarms()
                return None, args, checks
            out.append(Case(f, "UPLO=" + up, setup, "complex" in T, "C01"))
    for f in fns(ir, "htool::add_matrix_matrix_product", lambda f: len(f["params"]) == 7 and "Matrix<" in f["params"][6]["t"] and "HMatrix" not in f["params"][6]["t"] and "LowRank" not in f["params"][6]["t"]):
        T = scal_t(f)
        for ta in "NTC":
            for tb in "NTC":
                def setup(ip, f, T=T, ta=ta, tb=tb):
                    s = Spec(ip, T)
                    A = s.matrix("A", *(("m", "k") if ta == "N" else ("k", "m")))
                    B = s.matrix("B", *(("k", "n") if tb == "N" else ("n", "k")))
                    C = s.matrix("C", "m", "n", True)
                    al, be = s.scalar("alpha"), s.scalar("beta")
                    args = argcells([ta, tb, al, A, B, be, C])

                    def checks(ip):
                        A_ = ip.A
                        want = A_.add(A_.mul(A_.op(ta, s.val(A)), A_.op(tb, s.val(B))), s.val(C), al, be)
                        got, b = s.final_matrix(C)
                        return [s.compare(got, want, "C = alpha op(A) op(B) + beta C", b)] + s.frame() + s.alarms()
                    return None, args, checks
                out.append(Case(f, "transa=%s transb=%s" % (ta, tb), setup, "complex" in T, "C01"))
    return out


def row_major(name, r, mu):
    """r x mu block stored row by row"""
    return View(ZERO, P(r), P(mu), P(mu), ONE)


def more_cases(ir):
    out = []
    cxT = "std::complex<double>"
    for f in fns(ir, "htool::add_matrix_matrix_product_row_major"):
        T = scal_t(f)
        for ta in "NTC":
          for tb in "NTC":
            def setup(ip, f, T=T, ta=ta, tb=tb):
                s = Spec(ip, T)
                A = s.matrix("A", "m", "n")
                nx, ny = ("n", "m") if ta == "N" else ("m", "n")
                x, y = s.ptr("x", P(nx) * P("mu"), hints=[("mu", nx) if tb == "N" else (nx, "mu")]), s.ptr("y", P(ny) * P("mu"), True)
                al, be = s.scalar("alpha"), s.scalar("beta")
                args = argcells([ta, tb, al, A, Ptr(x), be, Ptr(y), P("mu")])

                def checks(ip):
                    A_ = ip.A
                    v = row_major("y", ny, "mu")
                    # op(x): x is stored row by row, n x mu (or mu x n when it is transposed)
                    X = A_.view("x", row_major("x", nx, "mu") if tb == "N" else View(ZERO, P(nx), P("mu"), ONE, P(nx)))
                    if tb == "C" and A_.cplx:
                        X = A_.J(X)
                    want = A_.add(A_.mul(A_.op(ta, s.val(A)), X), A_.view("y", v), al, be)
                    return [s.compare(ip.M.read(y, v), want, "Y = alpha op(A) op(X) + beta Y (row major)", y)] + s.frame() + s.alarms()
                return None, args, checks
            out.append(Case(f, "transa=%s transb=%s" % (ta, tb), setup, "complex" in T, "C01"))
    for q, kind in (("htool::add_symmetric_matrix_matrix_product_row_major", "S"), ("htool::add_hermitian_matrix_matrix_product_row_major", "H")):
        for f in fns(ir, q):
            T = scal_t(f)
            for up in "LU":
              for side in "LR":
                def setup(ip, f, T=T, up=up, kind=kind, side=side):
                    s = Spec(ip, T)
                    A = s.matrix("A", "n", "n")
                    shp = ("mu", "n") if side == "L" else ("n", "mu")
                    x, y = s.ptr("x", P("n") * P("mu"), hints=[shp]), s.ptr("y", P("n") * P("mu"), True, hints=[shp])
                    al, be = s.scalar("alpha"), s.scalar("beta")
                    args = argcells([side, up, al, A, Ptr(x), be, Ptr(y), P("mu")])

                    def checks(ip):
                        A_ = ip.A
                        v = row_major("y", "n", "mu") if side == "L" else row_major("y", "mu", "n")
                        M, X = s.sym(A, up, kind), A_.view("x", v)
                        want = A_.add(A_.mul(M, X) if side == "L" else A_.mul(X, M), A_.view("y", v), al, be)
                        return [s.compare(ip.M.read(y, v), want, "Y = alpha sym(A) X + beta Y (row major)", y)] + s.frame() + s.alarms()
                    return None, args, checks
                out.append(Case(f, "side=%s UPLO=%s" % (side, up), setup, "complex" in T, "C01"))
    for q, kind in (("htool::add_symmetric_matrix_matrix_product", "S"), ("htool::add_hermitian_matrix_matrix_product", "H")):
        for f in fns(ir, q):
            if kind == "H" and "complex" not in scal_t(f):
                continue      # does not link for real coefficients (see known findings of C16)
            T = scal_t(f)
            for sd in "LR":
                for up in "LU":
                    def setup(ip, f, T=T, up=up, kind=kind, sd=sd):
                        s = Spec(ip, T)
                        A = s.matrix("A", *(("m", "m") if sd == "L" else ("n", "n")))
                        B, C = s.matrix("B", "m", "n"), s.matrix("C", "m", "n", True)
                        al, be = s.scalar("alpha"), s.scalar("beta")
                        args = argcells([sd, up, al, A, B, be, C])

                        def checks(ip):
                            A_ = ip.A
                            S = s.sym(A, up, kind)
                            X = A_.mul(S, s.val(B)) if sd == "L" else A_.mul(s.val(B), S)
                            want = A_.add(X, s.val(C), al, be)
                            got, b = s.final_matrix(C)
                            return [s.compare(got, want, "C = alpha sym(A) B + beta C", b)] + s.frame() + s.alarms()
                        return None, args, checks
                    out.append(Case(f, "side=%s UPLO=%s" % (sd, up), setup, "complex" in T, "C01"))
    for f in fns(ir, "htool::scale", lambda f: "htool::Matrix<" in f["params"][1]["t"]):
        T = scal_t(f)

        def setup(ip, f, T=T):
            s = Spec(ip, T)
            A = s.matrix("A", "m", "n", True)
            al = s.scalar("alpha")

            def checks(ip):
                got, b = s.final_matrix(A)
                return [s.compare(got, ip.A.scale(al, s.val(A)), "A = alpha A", b)] + s.alarms()
            return None, argcells([al, A]), checks
        out.append(Case(f, "", setup, "complex" in T, "C01"))
    for f in fns(ir, "htool::transpose"):
        T = scal_t(f)

        def setup(ip, f, T=T):
            s = Spec(ip, T)
            A, B = s.matrix("A", "m", "n"), s.matrix("B", "n", "m", True)

            def checks(ip):
                got, b = s.final_matrix(B)
                return [s.compare(got, ip.A.T(s.val(A)), "B = A^T", b)] + s.frame() + s.alarms()
            return None, argcells([A, B]), checks
        out.append(Case(f, "", setup, "complex" in T, "C01"))
    return out


_cases0 = cases


def cases(ir):
    return _cases0(ir) + more_cases(ir)
