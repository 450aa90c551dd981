"""Low-rank kernels: the block U V behaves as the matrix it represents, whatever its rank (0 included)."""
from spec import *
from specs_dense import fns, scal_t, argcells, row_major
import contracts as K

B0 = {"htool::recompression": K.c_recompression, "htool::SVD_truncation": K.c_svd}


def lrarg(f, i):
    return "LowRankMatrix" in f["params"][i]["t"]


def cases(ir):
    out = []

    def case(f, label, build, prop="C02"):
        T = scal_t(f)

        def setup(ip, f):
            s = Spec(ip, T)
            ip.contracts.update({k: v for k, v in B0.items() if k != f["q"]})
            return build(ip, f, s)
        out.append(Case(f, label, setup, "complex" in T, prop))

    for f in fns(ir, "htool::add_lrmat_vector_product"):
        for tr in "NTC":
            def b(ip, f, s, tr=tr):
                L = s.lowrank("A", "m", "n", "r")
                nx, ny = ("n", "m") if tr == "N" else ("m", "n")
                x, y = s.ptr("x", nx), s.ptr("y", ny, True)
                al, be = s.scalar("alpha"), s.scalar("beta")

                def checks(ip):
                    A = ip.A
                    v = View(ZERO, P(ny), ONE, ONE, ZERO)
                    want = A.add(A.mul(A.op(tr, s.lr(L)), A.view("x", View(ZERO, P(nx), ONE, ONE, ZERO))), A.view("y", v), al, be)
                    return [s.compare(ip.M.read(y, v), want, "y = alpha op(UV) x + beta y", y)] + s.frame() + s.alarms()
                return None, argcells([tr, al, L, Ptr(x), be, Ptr(y)]), checks
            case(f, "trans=" + tr, b)
    for f in fns(ir, "htool::add_lrmat_matrix_product_row_major"):
        for tr in "NTC":
          for tb in "NTC":
            def b(ip, f, s, tr=tr, tb=tb):
                L = s.lowrank("A", "m", "n", "r")
                nx, ny = ("n", "m") if tr == "N" else ("m", "n")
                x, y = s.ptr("x", P(nx) * P("mu"), hints=[("mu", nx) if tb == "N" else (nx, "mu")]), s.ptr("y", P(ny) * P("mu"), True, hints=[("mu", ny)])
                al, be = s.scalar("alpha"), s.scalar("beta")

                def checks(ip):
                    A = ip.A
                    v = row_major("y", ny, "mu")
                    X = A.view("x", row_major("x", nx, "mu") if tb == "N" else View(ZERO, P(nx), P("mu"), ONE, P(nx)))
                    if tb == "C" and A.cplx:
                        X = A.J(X)
                    want = A.add(A.mul(A.op(tr, s.lr(L)), X), A.view("y", v), al, be)
                    return [s.compare(ip.M.read(y, v), want, "Y = alpha op(UV) op(X) + beta Y (row major)", y)] + s.frame() + s.alarms()
                return None, argcells([tr, tb, al, L, Ptr(x), be, Ptr(y), P("mu")]), checks
            case(f, "transa=%s transb=%s" % (tr, tb), b)
    # products of two operands, each dense or low rank, into a dense or low-rank result
    for q in ("htool::add_lrmat_matrix_product", "htool::add_matrix_lrmat_product", "htool::add_lrmat_lrmat_product", "htool::add_matrix_matrix_product"):
        for f in fns(ir, q):
            if len(f["params"]) != 7 or not all("Matrix<" in f["params"][i]["t"] and "HMatrix" not in f["params"][i]["t"] for i in (3, 4, 6)):
                continue
            if not any(lrarg(f, i) for i in (3, 4, 6)):
                continue
            for ta in "NTC":
                for tb in "NTC":
                    def b(ip, f, s, ta=ta, tb=tb):
                        mk = lambda i, nm, r, c, rk: s.lowrank(nm, r, c, rk, out=(i == 6)) if lrarg(f, i) else s.matrix(nm, r, c, out=(i == 6))
                        X = mk(3, "A", *(("m", "k") if ta == "N" else ("k", "m")), "ra")
                        Y = mk(4, "B", *(("k", "n") if tb == "N" else ("n", "k")), "rb")
                        C = mk(6, "C", "m", "n", "rc")
                        al, be = s.scalar("alpha"), s.scalar("beta")

                        def checks(ip):
                            A = ip.A
                            want = A.add(A.mul(A.op(ta, s.valof(X)), A.op(tb, s.valof(Y))), s.valof(C), al, be)
                            got, bf = s.finalof(C)
                            return [s.compare(got, want, "C = alpha op(A) op(B) + beta C", bf)] + s.frame() + s.alarms() + s.dims(C, "m", "n")
                        return None, argcells([ta, tb, al, X, Y, be, C]), checks
                    case(f, "transa=%s transb=%s into %s" % (ta, tb, "low rank" if lrarg(f, 6) else "dense"), b)
    for f in fns(ir, "htool::scale", lambda f: lrarg(f, 1)):
        def b(ip, f, s):
            C = s.lowrank("C", "m", "n", "r", out=True)
            al = s.scalar("alpha")

            def checks(ip):
                got, bf = s.finalof(C)
                return [s.compare(got, ip.A.scale(al, s.valof(C)), "C = alpha C", bf)] + s.alarms()
            return None, argcells([al, C]), checks
        case(f, "", b)
    for f in fns(ir, "htool::LowRankMatrix::copy_to_dense"):
        def b(ip, f, s):
            L = s.lowrank("A", "m", "n", "r")
            d = s.ptr("out", P("m") * P("n"), True, hints=[("m", "n")])

            def checks(ip):
                v = View(ZERO, P("m"), P("n"), ONE, P("m"))
                return [s.compare(ip.M.read(d, v), s.lr(L), "out = U V", d)] + s.frame() + s.alarms()
            return L, argcells([Ptr(d)]), checks
        case(f, "", b)
    for f in fns(ir, "htool::add_lrmat_lrmat"):
        for mode in ("extend", "restrict", "same", "disjoint"):
            def b(ip, f, s, mode=mode):
                from hmodel2 import HTree
                ht = HTree(ip, s, scal_t(f))
                M, N = ht.cluster("m", ["m1", "m2", "m3"]), ht.cluster("n", ["n1", "n2", "n3"])
                ch = lambda c, i: c.f["m_children"].parts[i][1].t
                sz = lambda c: c.f["m_size"]
                m1, n1 = sz(ch(M, 0)), sz(ch(N, 0))
                if mode == "extend":
                    cx, cy = (ch(M, 1), ch(N, 1)), (M, N)
                elif mode == "restrict":
                    cx, cy = (M, N), (ch(M, 1), ch(N, 1))
                elif mode == "same":
                    cx = cy = (ch(M, 1), ch(N, 1))
                else:
                    cx, cy = (ch(M, 0), N), (ch(M, 1), N)
                X = s.lowrank("X", sz(cx[0]), sz(cx[1]), "rx")
                Y = s.lowrank("Y", sz(cy[0]), sz(cy[1]), "ry", out=True)

                def checks(ip):
                    A = ip.A
                    if ip.logged:
                        return [Outcome("throw", "reported as unsupported")]
                    x = s.valof(X)
                    if mode == "extend":
                        x = A.place(x, sz(M), sz(N), m1, n1)
                    elif mode == "restrict":
                        x = A.sub(x, m1, sz(cy[0]), n1, sz(cy[1]))
                    elif mode == "disjoint":
                        x = A.zero(sz(cy[0]), sz(cy[1]))
                    got, bf = s.finalof(Y)
                    return [s.compare(got, A.add(s.valof(Y), x), "the overlapping part of X is added to Y", bf)] + s.frame() + s.alarms() + s.dims(Y, sz(cy[0]), sz(cy[1]))
                return None, argcells([X, cx[0], cx[1], Y, cy[0], cy[1]]), checks
            case(f, "block " + mode, b)
    return out
