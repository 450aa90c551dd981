"""Products with a hierarchical matrix: every leaf contributes once, mirrored halves included."""
from spec import *
from specs_dense import fns, scal_t, argcells, row_major
from hmodel import *
import contracts as K

B0 = {"htool::recompression": K.c_recompression, "htool::SVD_truncation": K.c_svd}


def hcase(out, f, label, build, prop="C03"):
    T = scal_t(f)

    def setup(ip, f):
        s = Spec(ip, T)
        ip.contracts.update({k: v for k, v in B0.items() if k != f["q"]})
        hm = HModel(ip, s, T)
        return build(ip, f, s, hm)
    out.append(Case(f, label, setup, "complex" in T, prop))


def shapes(sg):
    return ("square",) if sg == "N" else ("square", "wide", "tall")


def rect(ip, s, hm, A, tr, al, be, view, vw, y, what):
    """block with symmetric leaves that is not square: the mirrored half acts between the entries of its diagonal block"""
    h, A_ = A.tag["h"], ip.A
    nx, ny = (h.n, h.m) if tr == "N" else (h.m, h.n)
    x0, y0 = (h.S0, h.T0) if tr == "N" else (h.T0, h.S0)
    W = A_.op(tr, hm.mirror(A))
    part = A_.mul(W, view("x", h.D0 - x0, h.d))

    def rows(o, r):
        f = (h.T0 + o, r, h.S0, h.n) if tr == "N" else (h.T0, h.m, h.S0 + o, r)
        return A_.mul(A_.op(tr, A_.of_factor(hm.hfac(h.name + ".leaves", *f))), view("x", ZERO, nx))
    o = ip.F.norm(h.D0 - y0)
    out = []
    if ip.F.eq(o, ZERO) and ip.F.eq(h.d, ny):
        segs = [(ZERO, ny, True)]
    else:
        segs = [(ZERO, o, False), (o, h.d, True), (o + h.d, ny - o - h.d, False)]
    for o, r, mirrored in segs:
        want = A_.add(rows(o, r), view("y", o, r), al, be)
        if mirrored:
            want = A_.add(want, part, Poly.of(1), al)
        out.append(s.compare(ip.M.read(y, vw(o, r)), want, what + ("" if len(segs) == 1 else " (rows %s the diagonal block)" % ("of" if mirrored else "outside")), y))
    return out


def cases(ir):
    out = []
    for q in ("htool::sequential_internal_add_hmatrix_vector_product", "htool::openmp_internal_add_hmatrix_vector_product", "htool::internal_add_hmatrix_vector_product"):
        for f in fns(ir, q):
            cx = "complex" in scal_t(f)
            for sg in ("NSH" if cx else "NS"):
                for tr, shape in [(t, z) for t in "NTC" for z in shapes(sg)]:
                    def b(ip, f, s, hm, sg=sg, tr=tr, shape=shape):
                        hm.pref = tr
                        A = hm.root("A", "m", "n", sg, shape=shape)
                        m, n = A.tag["h"].m, A.tag["h"].n
                        nx, ny = (n, m) if tr == "N" else (m, n)
                        x, y = s.ptr("x", nx), s.ptr("y", ny, True)
                        al, be = s.scalar("alpha"), s.scalar("beta")

                        def checks(ip):
                            if ip.logged:
                                return [Outcome("throw", "reported as unsupported")]
                            A_ = ip.A
                            if shape != "square":
                                return rect(ip, s, hm, A, tr, al, be, lambda b, o, r: A_.view(b, View(o, r, ONE, ONE, ZERO)), lambda o, r: View(o, r, ONE, ONE, ZERO), y, "y = alpha op(A) x + beta y") + s.frame() + s.alarms()
                            v = View(ZERO, ny, ONE, ONE, ZERO)
                            want = A_.add(A_.mul(A_.op(tr, hm.value(A)), A_.view("x", View(ZERO, nx, ONE, ONE, ZERO))), A_.view("y", v), al, be)
                            return [s.compare(ip.M.read(y, v), want, "y = alpha op(A) x + beta y", y)] + s.frame() + s.alarms()
                        return None, argcells([tr, al, A, Ptr(x), be, Ptr(y)]), checks
                    hcase(out, f, "trans=%s symmetry=%s%s" % (tr, sg, "" if shape == "square" else " " + shape), b)
    return out


_vec_cases = cases


def rowmajor_cases(ir):
    out = []
    for q in ("htool::sequential_internal_add_hmatrix_matrix_product_row_major", "htool::openmp_internal_add_hmatrix_matrix_product_row_major", "htool::internal_add_hmatrix_matrix_product_row_major"):
        for f in fns(ir, q):
            cx = "complex" in scal_t(f)
            for sg in ("NSH" if cx else "NS"):
                for tr, shape in [(t, z) for t in "NTC" for z in shapes(sg)]:
                    def b(ip, f, s, hm, sg=sg, tr=tr, shape=shape):
                        hm.pref = {"N": "T", "T": "N", "C": "J"}[tr]
                        A = hm.root("A", "m", "n", sg, shape=shape)
                        m, n = A.tag["h"].m, A.tag["h"].n
                        nx, ny = (n, m) if tr == "N" else (m, n)
                        x, y = s.ptr("x", nx * P("mu"), hints=[("mu", nx)]), s.ptr("y", ny * P("mu"), True, hints=[("mu", ny)])
                        al, be = s.scalar("alpha"), s.scalar("beta")

                        def checks(ip):
                            if ip.logged:
                                return [Outcome("throw", "reported as unsupported")]
                            A_ = ip.A
                            if shape != "square":
                                mu = P("mu")
                                rv = lambda o, r: View(o * mu, r, mu, mu, ONE)
                                return rect(ip, s, hm, A, tr, al, be, lambda b, o, r: A_.view(b, rv(o, r)), rv, y, "Y = alpha op(A) X + beta Y (row major)") + s.frame() + s.alarms()
                            v = row_major("y", ny, "mu")
                            want = A_.add(A_.mul(A_.op(tr, hm.value(A)), A_.view("x", row_major("x", nx, "mu"))), A_.view("y", v), al, be)
                            return [s.compare(ip.M.read(y, v), want, "Y = alpha op(A) X + beta Y (row major)", y)] + s.frame() + s.alarms()
                        return None, argcells([tr, "N", al, A, Ptr(x), be, Ptr(y), P("mu")]), checks
                    hcase(out, f, "row major trans=%s symmetry=%s" % (tr, sg), b)
    return out


def small_cases(ir):
    """given trees: a single leaf, two levels; the leaves are collected by the code itself"""
    from hmodel2 import HTree
    out = []
    trees = {"leaf D": None, "leaf L": None, "D/L": lambda i, j: "D" if i == j else "L", "L/D": lambda i, j: "L" if i == j else "D"}
    for p in ("sequential_internal_", "openmp_internal_", "internal_"):
        for row in (False, True):
            q = "htool::%sadd_hmatrix_%s" % (p, "matrix_product_row_major" if row else "vector_product")
            for f in fns(ir, q):
                cx = "complex" in scal_t(f)
                for sg in ("NSH" if cx else "NS"):
                    for tr in "NTC":
                        if sg == "H" and tr == "T" or sg == "S" and tr == "C" and cx:
                            continue          # reported as unsupported
                        for tn in trees:
                            if sg != "N" and tn in ("leaf L", "L/D"):
                                continue      # diagonal blocks are dense
                            for up in ("L" if sg == "N" else "LU"):
                                if tn == "D/L" and up == "U":
                                    continue
                                def setup(ip, f, q=q, row=row, sg=sg, tr=tr, tn=tn, up=up):
                                    s = Spec(ip, scal_t(f))
                                    ht = HTree(ip, s, scal_t(f))
                                    for k in list(ip.contracts):
                                        if k.endswith(("_product_row_major", "hmatrix_vector_product")):
                                            del ip.contracts[k]
                                    M = ht.cluster("m", ["m1", "m2"])
                                    N = ht.cluster("n", ["n1", "n2"]) if sg == "N" else M
                                    kind = tn[-1] if tn.startswith("leaf") else "H"
                                    A = ht.node("A", M, N, kind, sym=sg, uplo=up if sg != "N" else "N", sfl=sg, kids=trees[tn], lower=sg != "N")
                                    m, n = A.tag["hn"]["m"], A.tag["hn"]["n"]
                                    nx, ny = (n, m) if tr == "N" else (m, n)
                                    mu = P("mu") if row else ONE
                                    x = s.ptr("x", nx * mu, hints=[("mu", nx)] if row else ())
                                    y = s.ptr("y", ny * mu, True, hints=[("mu", ny)] if row else ())
                                    al, be = s.scalar("alpha"), s.scalar("beta")
                                    vx, vy = (row_major("x", nx, "mu"), row_major("y", ny, "mu")) if row else (View(ZERO, nx, ONE, ONE, ZERO), View(ZERO, ny, ONE, ONE, ZERO))

                                    def checks(ip):
                                        if ip.logged:
                                            return [Outcome("throw", "reported as unsupported")]
                                        A_ = ip.A
                                        want = A_.add(A_.mul(A_.op(tr, ht.value(A, True)), A_.view("x", vx)), A_.view("y", vy), al, be)
                                        return [s.compare(ip.M.read(y, vy), want, "y = alpha op(A) x + beta y", y)] + s.frame() + s.alarms()
                                    a = [tr] + (["N"] if row else []) + [al, A, Ptr(x), be, Ptr(y)] + ([mu] if row else [])
                                    return None, argcells(a), checks
                                out.append(Case(f, "tree %s trans=%s symmetry=%s%s" % (tn, tr, sg, "" if sg == "N" else " triangle=" + up), setup, cx, "C03", {}))
    return out


def cases(ir):
    return _vec_cases(ir) + rowmajor_cases(ir) + small_cases(ir)
