"""Distributed products: with every rank running the same code, the result on each rank is its part
(or the whole) of the product with the global operator, in the caller's numbering and layout."""
from hmodel_dist import *
from specs_dense import fns, scal_t


def dcase(out, f, label, build, thorough=False):
    T = scal_t(f)

    def setup(ip, f):
        s = Spec(ip, T)
        return build(ip, f, s)
    out.append(Case(f, label, setup, "complex" in T, "C06", {"thorough": thorough, "ranks": run_ranks}))


def op_apply(ip, dm, tr, X):
    """the accepted values of op(A) X (columns); a declared symmetry identifies A^T with A or conj(A)"""
    A = ip.A
    if tr == "N":
        return [A.mul(dm.full(), X)]
    w = [A.mul(A.T(dm.full()), X)]
    if dm.sym == "S" or (dm.sym == "H" and not A.cplx):
        w.append(A.mul(dm.full(), X))
    elif dm.sym == "H":
        w.append(A.mul(A.J(dm.full()), X))
    return w


def judge(s, got, wants, what, buf):
    rs = [s.compare(got, w, what, buf) for w in wants]
    for st in ("ok", "undecided"):
        for r in rs:
            if r.status == st:
                return r
    return rs[0]


def cases(ir):
    out = []
    for kind in ("vector", "matrix"):
        for trn in ("", "_transp"):
            tr = "T" if trn else "N"
            for f in fns(ir, "htool::DistributedOperator::%s_product%s_global_to_global" % (kind, trn)):
                cx = "complex" in scal_t(f)
                for perm in (True, False):
                    for sym in ("NSH" if cx else "NS"):
                        for nops in (1, 2):
                            def b(ip, f, s, kind=kind, tr=tr, perm=perm, sym=sym, nops=nops):
                                dm = DistModel(ip, s, s.T, sym, perm, nops)
                                nx, ny = (dm.N["S"], dm.N["T"]) if tr == "N" else (dm.N["T"], dm.N["S"])
                                mu = P("mu") if kind == "matrix" else ONE
                                x = s.ptr("x", nx * mu, hints=[(nx, mu)])
                                y = s.ptr("y", ny * mu, True, hints=[(ny, mu)])
                                args = [Ptr(x), Ptr(y)] + ([mu] if kind == "matrix" else [])

                                def checks(ip):
                                    if ip.logged:
                                        return [Outcome("throw", "reported as unsupported")]
                                    A = ip.A
                                    vx, vy = View(ZERO, nx, mu, ONE, nx), View(ZERO, ny, mu, ONE, ny)
                                    X = A.view("x", vx)
                                    wi, wo = ("S", dm.rows) if tr == "N" else (dm.rows, "S")
                                    if perm:
                                        X = A.mul(dm.permop(wi, None, "N"), X)
                                    W = op_apply(ip, dm, tr, X)
                                    if perm:
                                        W = [A.mul(dm.permop(wo, None, "T"), w) for w in W]
                                    return [judge(s, ip.M.read(y, vy), W, "y = %sA%s x on every rank" % ("", "" if tr == "N" else "^T"), y)] + s.frame() + s.alarms()
                                return dm.D, argcells(args), checks
                            dcase(out, f, "permutation=%s symmetry=%s local operators=%d" % (perm, sym, nops), b)
            for base in ("", "internal_"):
                for f in fns(ir, "htool::DistributedOperator::%s%s_product%s_local_to_local" % (base, kind, trn)):
                    cx = "complex" in scal_t(f)
                    for perm in ((True, False) if not base else (False,)):
                        for sym in ("NSH" if cx else "NS"):
                            for work in (False, True):
                                for local in ((True, False) if perm else (True,)):
                                    def b(ip, f, s, kind=kind, tr=tr, perm=perm, sym=sym, work=work, base=base, local=local):
                                        dm = DistModel(ip, s, s.T, sym, perm, 2)
                                        dm.local = local
                                        wi, wo = ("S", "T") if tr == "N" else ("T", "S")
                                        me = P("rank")
                                        if sym != "N":
                                            wi = wo = "S"
                                        oi, ni = dm.part(wi, me)
                                        oo, no = dm.part(wo, me)
                                        mu = P("mu") if kind == "matrix" else ONE
                                        rm = bool(base)
                                        A = ip.A
                                        nx = dm.N[wi]
                                        shp = (lambda n, off=ZERO: View(off, mu, n, ONE, mu)) if rm else (lambda n, off=ZERO: View(off, n, mu, ONE, n))
                                        X = A.view("X", View(ZERO, nx, mu, ONE, nx))
                                        xloc = A.sub(X, oi, ni, ZERO, mu)
                                        if perm:
                                            xloc = A.mul(dm.permop(wi, me, "T"), xloc)
                                        if rm:
                                            xloc = A.T(xloc)
                                        x = Buffer("x", ni * mu, "init")
                                        x.hints = [(shp(ni).r, shp(ni).c)]
                                        ip.mwrite(x, shp(ni), xloc)
                                        y = s.ptr("y", no * mu, True, hints=[(shp(no).r, shp(no).c)])
                                        args = [Ptr(x), Ptr(y)] + ([mu] if kind == "matrix" else [])
                                        if work:
                                            n = dm.N["S"] * mu if tr == "N" else (dm.N["S"] + P("np") * dm.part("S", me)[1]) * mu
                                            args.append(Ptr(s.ptr("work", n, True)))
                                        else:
                                            args.append(PObj(None))

                                        def checks(ip):
                                            if ip.logged:
                                                return [Outcome("throw", "reported as unsupported")]
                                            if not local:
                                                return [Outcome("violation", "a renumbering that mixes the local parts is not reported")]
                                            W = [A.sub(w, oo, no, ZERO, mu) for w in op_apply(ip, dm, tr, X)]
                                            if perm:
                                                W = [A.mul(dm.permop(wo, me, "T"), w) for w in W]
                                            if rm:
                                                W = [A.T(w) for w in W]
                                            return [judge(s, ip.M.read(y, shp(no)), W, "y = local part of A%s x" % ("" if tr == "N" else "^T"), y),
                                                    s.compare(ip.M.read(x, shp(ni)), xloc, "the input is left unchanged", x)] + s.frame() + s.alarms()
                                        return dm.D, argcells(args), checks
                                    dcase(out, f, "permutation=%s symmetry=%s%s%s" % (perm, sym, " with workspace" if work else "", "" if local else " non-local renumbering"), b)
    for kind in ("vector", "matrix"):
        for q, tr in (("_product_global_to_local", "N"), ("_product_transp_local_to_global", "T")):
            for f in fns(ir, "htool::DistributedOperator::internal_%s%s" % (kind, q)):
                for nops in (1, 2):
                    def b(ip, f, s, kind=kind, tr=tr, nops=nops):
                        dm = DistModel(ip, s, s.T, "N", False, nops)
                        A = ip.A
                        me = P("rank")
                        o, n = dm.part("T", me)
                        mu = P("mu") if kind == "matrix" else ONE
                        nx, ny = (dm.N["S"], n) if tr == "N" else (n, dm.N["S"])
                        shp = lambda n: View(ZERO, mu, n, ONE, mu)
                        G = dm.N["S"] if tr == "N" else dm.N["T"]
                        X = A.view("X", View(ZERO, G, mu, ONE, G))
                        xl = A.T(X if tr == "N" else A.sub(X, o, n, ZERO, mu))
                        x = Buffer("x", nx * mu, "init")
                        x.hints = [(mu, nx)]
                        ip.mwrite(x, shp(nx), xl)
                        y = s.ptr("y", ny * mu, True, hints=[(mu, ny)])

                        def checks(ip):
                            W = op_apply(ip, dm, tr, X)
                            if tr == "N":
                                W = [A.sub(w, o, n, ZERO, mu) for w in W]
                            return [judge(s, ip.M.read(y, shp(ny)), [A.T(w) for w in W], "y = A%s x" % ("" if tr == "N" else "^T"), y),
                                    s.compare(ip.M.read(x, shp(nx)), xl, "the input is left unchanged", x)] + s.alarms()
                        return dm.D, argcells([Ptr(x), Ptr(y)] + ([mu] if kind == "matrix" else [])), checks
                    dcase(out, f, "local operators=%d" % nops, b)
    for w, q in (("S", "source"), ("T", "target")):
        for f in fns(ir, "htool::DistributedOperator::local_to_global_" + q):
            def b(ip, f, s, w=w):
                dm = DistModel(ip, s, s.T, "N", False, 1)
                A = ip.A
                o, n = dm.part(w, P("rank"))
                N, mu = dm.N[w], P("mu")
                X = A.view("X", View(ZERO, mu, N, ONE, mu))
                x = Buffer("x", n * mu, "init")
                x.hints = [(mu, n)]
                ip.mwrite(x, View(ZERO, mu, n, ONE, mu), A.sub(X, ZERO, mu, o, n))
                y = s.ptr("y", N * mu, True, hints=[(mu, N)])

                def checks(ip):
                    return [s.compare(ip.M.read(y, View(ZERO, mu, N, ONE, mu)), X, "every rank holds the whole vector", y)] + s.alarms()
                return dm.D, argcells([Ptr(x), Ptr(y), mu]), checks
            dcase(out, f, "", b)
    return out
