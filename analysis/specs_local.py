"""Local operators: the product a local operator adds to its part of the result is the one of its block,
in the numbering and layout its caller uses."""
from hmodel3 import *
from specs_dense import fns, scal_t

PROP = "C07"


def member(ir, cls_t, name):
    """the method a call on an object of this class reaches"""
    return [f for f in fns(ir, "htool::LocalOperator::" + name)]


def build_op(ip, s, T, kind, sg, tperm, sperm, rect):
    st = STree(ip, s, T)
    st.c_perm_on = True
    ip.contracts["htool::user_to_cluster"] = lambda ip, f, o, a, e: st.c_perm("P", ip, f, o, a, e)
    ip.contracts["htool::cluster_to_user"] = lambda ip, f, o, a, e: st.c_perm("Q", ip, f, o, a, e)
    tc = st.cluster("tc", ["m"])
    sc = st.cluster("sc", ["n"]) if sg == "N" or rect else tc
    for c in (tc, sc):
        ip.F.add_ge0(c.f["m_offset"])
    o = Obj("htool::Local%s<%s, double>" % (kind, T), "op", True)
    o.f["m_target_cluster"], o.f["m_source_cluster"] = tc, sc
    o.f["m_symmetry"], o.f["m_UPLO"] = sg, "N" if sg == "N" else "L"
    o.f["m_target_use_permutation_to_mvprod"], o.f["m_source_use_permutation_to_mvprod"] = tperm, sperm
    m, n = tc.f["m_size"], sc.f["m_size"]
    if kind == "DenseMatrix":
        M = s.matrix("B", m, n)
        o.f["m_data"] = M
        B = s.val(M) if sg == "N" else s.sym(M, "L", sg)
    else:
        # rows and columns of a block row need not start at the same index: the block is opaque
        M = st.node("B", tc, sc, "O", sym=sg, uplo="N" if sg == "N" else "L", sfl=sg)
        if rect:                # a block row of a symmetric operator is not itself symmetric
            ip.A.symbufs.pop("B", None)
        o.f["m_data"] = M
        B = st.value(M, True)
    return st, o, B, tc, sc


def cases(ir):
    out = []
    for kind in ("DenseMatrix", "HMatrix"):
        for mat in ("vector", "matrix"):
            for tr, nm in (("N", "add_%s_product_global_to_local"), ("T", "add_%s_product_transp_local_to_global")):
                for f in member(ir, kind, nm % mat):
                    T = scal_t(f)
                    for sg in ("NSH" if "complex" in T else "NS"):
                        for tperm in (False, True):
                            for sperm in (False, True):
                              for rect in ((False, True) if sg != "N" and kind == "HMatrix" else (False,)):
                                def b(ip, f, T=T, kind=kind, mat=mat, tr=tr, sg=sg, tperm=tperm, sperm=sperm, rect=rect):
                                    s = Spec(ip, T)
                                    st, o, B, tc, sc = build_op(ip, s, T, kind, sg, tperm, sperm, rect)
                                    A = ip.A
                                    mu = P("mu") if mat == "matrix" else ONE
                                    glob = P("N")
                                    S0, n, m = sc.f["m_offset"], sc.f["m_size"], tc.f["m_size"]
                                    ip.F.add_ge0(glob - S0 - n)
                                    nx, ny = (glob, m) if tr == "N" else (m, glob)
                                    x = s.ptr("x", nx * mu, hints=[(mu, nx)])
                                    y = s.ptr("y", ny * mu, True, hints=[(mu, ny)])
                                    al, be = s.scalar("alpha"), s.scalar("beta")
                                    args = [al, Ptr(x), be, Ptr(y)] + ([mu] if mat == "matrix" else [])
                                    rv = lambda o, r: View(o * mu, r, mu, mu, ONE)

                                    def checks(ip):
                                        if ip.logged:
                                            return [Outcome("throw", "reported as unsupported")]
                                        W = B
                                        if sperm:
                                            W = A.mul(W, st.permop(sc, "N"))
                                        if tperm:
                                            W = A.mul(st.permop(tc, "T"), W)
                                        if tr == "N":
                                            want = A.add(A.mul(W, A.view("x", rv(S0, n))), A.view("y", rv(ZERO, m)), al, be)
                                            return [s.compare(ip.M.read(y, rv(ZERO, m)), want, "y = alpha A x + beta y", y)] + s.frame() + s.alarms()
                                        want = A.add(A.mul(A.T(W), A.view("x", rv(ZERO, m))), A.view("y", rv(S0, n)), al, be)
                                        r = [s.compare(ip.M.read(y, rv(S0, n)), want, "y = alpha A^T x + beta y on the columns of the block", y)]
                                        for o_, k, w in ((ZERO, S0, "before"), (S0 + n, glob - S0 - n, "after")):
                                            r.append(s.compare(ip.M.read(y, rv(o_, k)), A.view("y", rv(o_, k)), "entries %s the columns of the block are left alone" % w, y))
                                        return r + s.frame() + s.alarms()
                                    return o, argcells(args), checks
                                out.append(Case(f, "%s %s trans=%s symmetry=%s renumbered target=%s source=%s%s" % (kind, mat, tr, sg, tperm, sperm, " rectangular" if rect else ""), b, "complex" in T, PROP))
    return out
