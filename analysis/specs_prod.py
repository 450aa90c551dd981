"""Products and sums of hierarchical matrices with dense, low-rank and hierarchical operands."""
from spec import *
from specs_dense import fns, scal_t, argcells, row_major
from hmodel2 import *


def kind_of(t):
    return "H" if "HMatrix<" in t else ("L" if "LowRankMatrix<" in t else "D")


def pcase(out, f, label, build, prop="C04", **opt):
    T = scal_t(f)

    def setup(ip, f):
        s = Spec(ip, T)
        return build(ip, f, s, HTree(ip, s, T))
    out.append(Case(f, label, setup, "complex" in T, prop, opt))


class Oper:
    """an operand of a product, whatever its representation"""

    def __init__(self, ht, kind, name, r, c, out=False, T=None, S=None, storage="O", sg="N", rank=None):
        self.ht, self.s, self.kind, self.name = ht, ht.s, kind, name
        s = ht.s
        self.r, self.c, self.out = P(r), P(c), out
        if kind == "D":
            self.o = s.matrix(name, r, c, out)
        elif kind == "L":
            self.o = s.lowrank(name, r, c, rank or "r" + name, out)
        else:
            self.o = ht.node(name, T, S, storage, sym=sg if storage != "D" or True else "N", uplo="L" if sg != "N" else "N", sfl=sg, out=out)
            self.init = ht.value(self.o, True)

    def before(self):
        return self.init if self.kind == "H" else self.s.valof(self.o)

    def after(self):
        if self.kind == "H":
            return self.ht.value(self.o), self.ht.lastbuf(self.o)
        return self.s.finalof(self.o)


def product_check(s, ip, ta, tb, X, Y, C, al, be):
    def checks(ip):
        A = ip.A
        if ip.logged:
            return [Outcome("throw", "reported as unsupported")]
        want = A.add(A.mul(A.op(ta, X.before()), A.op(tb, Y.before())), C.before(), al, be)
        got, bf = C.after()
        return [s.compare(got, want, "C = alpha op(A) op(B) + beta C", bf)] + s.frame() + s.alarms() + (s.dims(C.o, C.r, C.c) if C.kind != "H" else [])
    return checks


def cases(ir):
    out = []
    # one operand hierarchical, the other dense or low rank; result dense or low rank
    for q in ("htool::internal_add_hmatrix_matrix_product", "htool::internal_add_hmatrix_lrmat_product", "htool::internal_add_matrix_hmatrix_product", "htool::internal_add_lrmat_hmatrix_product"):
        for f in fns(ir, q):
            ks = [kind_of(f["params"][i]["t"]) for i in (3, 4, 6)]
            if ks[2] == "H":
                continue
            cx = "complex" in scal_t(f)
            hi = 0 if ks[0] == "H" else 1
            for sg in ("NSH" if cx else "NS"):
                for ta in "NTC":
                    for tb in "NTC":
                        def b(ip, f, s, ht, ks=ks, sg=sg, ta=ta, tb=tb, hi=hi):
                            ops = []
                            dim = {}
                            # op(A) is m x k, op(B) is k x n
                            shp = [("m", "k") if ta == "N" else ("k", "m"), ("k", "n") if tb == "N" else ("n", "k")]
                            if sg != "N":
                                shp = [("m" if x == "k" and hi == 0 else ("n" if x == "k" and hi == 1 else x) for x in p) for p in shp]
                                shp = [tuple(p) for p in shp]
                            for i, nm in ((0, "A"), (1, "B")):
                                r, c = shp[i]
                                if ks[i] == "H":
                                    Tc = ht.cluster(nm + "t", [r])
                                    Sc = Tc if sg != "N" else ht.cluster(nm + "s", [c])
                                    ops.append(Oper(ht, "H", nm, r, c, T=Tc, S=Sc, storage="O", sg=sg))
                                else:
                                    ops.append(Oper(ht, ks[i], nm, r, c))
                            C = Oper(ht, ks[2], "C", "m", "n", out=True)
                            al, be = s.scalar("alpha"), s.scalar("beta")
                            return None, argcells([ta, tb, al, ops[0].o, ops[1].o, be, C.o]), product_check(s, ip, ta, tb, ops[0], ops[1], C, al, be)
                        pcase(out, f, "transa=%s transb=%s symmetry=%s %s%s into %s" % (ta, tb, sg, ks[0], ks[1], ks[2]), b)
    return out


def hh_cases(ir):
    out = []
    q = "htool::internal_add_hmatrix_hmatrix_product"
    for f in fns(ir, q) + [g for q2 in ("htool::internal_add_hmatrix_lrmat_product", "htool::internal_add_lrmat_hmatrix_product") for g in fns(ir, q2) if kind_of(g["params"][6]["t"]) == "H"]:
        ks = [kind_of(f["params"][i]["t"]) for i in (3, 4, 6)]
        cx = "complex" in scal_t(f)
        for ta in "NTC":
            for tb in "NTC":
                for sa in ("DLH" if ks[0] == "H" else "-"):
                    for sb in ("DLH" if ks[1] == "H" else "-"):
                        for sc in ("DLH" if ks[2] == "H" else "-"):
                            for cons in (True, False):
                                if not cons and not (ta == "N" and tb in "NT"):
                                    continue
                                def b(ip, f, s, ht, ks=ks, ta=ta, tb=tb, sa=sa, sb=sb, sc=sc, cons=cons):
                                    sp = lambda x: [x + "1", x + "2"]
                                    M, N, Kc = ht.cluster("m", sp("m"), cons), ht.cluster("n", sp("n"), cons), ht.cluster("k", sp("k"), cons)
                                    dims = {"M": M, "N": N, "K": Kc}
                                    ca = (M, Kc) if ta == "N" else (Kc, M)
                                    cb = (Kc, N) if tb == "N" else (N, Kc)
                                    sz = lambda c: c.f["m_size"]
                                    mk = lambda i, nm, c, st, o=False: Oper(ht, ks[i], nm, sz(c[0]), sz(c[1]), out=o, T=c[0], S=c[1], storage=st)
                                    X, Y, C = mk(0, "A", ca, sa), mk(1, "B", cb, sb), mk(2, "C", (M, N), sc, True)
                                    al, be = s.scalar("alpha"), s.scalar("beta")
                                    return None, argcells([ta, tb, al, X.o, Y.o, be, C.o]), product_check(s, ip, ta, tb, X, Y, C, al, be)
                                lab = "transa=%s transb=%s A:%s B:%s C:%s%s" % (ta, tb, sa if sa != "-" else ks[0] + "m", sb if sb != "-" else ks[1] + "m", sc if sc != "-" else ks[2] + "m", "" if cons else " above the partition")
                                pcase(out, f, lab, b, thorough=(cx is False and ta != "N" and tb != "N"))
    return out


def leaf_cases(ir):
    """in-place operations on the leaves of a hierarchical matrix"""
    out = []
    for q in ("htool::internal_add_lrmat_hmatrix", "htool::sequential_scale", "htool::openmp_scale"):
        for f in fns(ir, q):
            for st in ("D", "L", "mixed", "leafD", "leafL", "deep"):
                def b(ip, f, s, ht, q=q, st=st):
                    M, N = ht.cluster("m", ["m1", "m2"]), ht.cluster("n", ["n1", "n2"])
                    if st.startswith("leaf"):
                        H = ht.node("H", M, N, st[4], out=True)
                    else:
                        H = ht.node("H", M, N, "H", out=True, kids=lambda i, j: "D" if st == "D" or (st == "mixed" and (i + j) % 2 == 0) else "L")
                    init = ht.value(H, True)
                    m, n = H.tag["hn"]["m"], H.tag["hn"]["n"]
                    if "scale" in q:
                        al = s.scalar("alpha")
                        want = ip.A.scale(al, init)
                        args = argcells([al, H])
                    else:
                        L = s.lowrank("X", m, n, "rx")
                        want = ip.A.add(init, s.lr(L))
                        args = argcells([L, H])

                    def checks(ip):
                        return [s.compare(ht.value(H), want, "every leaf receives its part", ht.lastbuf(H))] + s.frame() + s.alarms()
                    return None, args, checks
                if st == "deep":
                    continue
                pcase(out, f, "leaves " + st, b)
    return out


_c0 = cases


def cases(ir):
    return _c0(ir) + hh_cases(ir) + leaf_cases(ir)
