"""Hierarchical triangular solves and factorizations: the triangular inverse, the LU and the Cholesky
factors of an opaque block are uninterpreted operators of its value; block structure is expanded by
block substitution / block elimination."""
from hmodel2 import *


class STree(HTree):
    def __init__(self, ip, s, T):
        super().__init__(ip, s, T)
        self.tab = []

    # ------------------------------------------------------------ opaque operators
    def intern(self, kind, v):
        A = self.ip.A
        if is_unk(v):
            raise Undecided("%s of %s" % (kind, v))
        v = A.norm(v)
        for k, w, nm in self.tab:
            if k != kind or not (self.ip.F.eq(w.r, v.r) and self.ip.F.eq(w.c, v.c)):
                continue
            r = A.equal(w, v)
            if r is True:
                return nm
            if r is None:
                raise Undecided("operand of %s" % kind)
        nm = "%s#%d" % (kind, len(self.tab))
        self.tab.append((kind, v, nm))
        return nm

    def opaque_inv(self, v, uplo, diag, tr):
        """tr in N, T"""
        nm = self.intern("inv" + uplo + diag, v)
        return self.ip.A.of_factor(("H", nm, ZERO, v.r, ZERO, v.r, tr))

    def factored(self, kind, v):
        nm = self.intern(kind, v)
        return self.ip.A.view(nm, View(ZERO, v.r, v.c, ONE, v.r))

    # ------------------------------------------------------------ block substitution
    def live(self, o):
        """(kind, payload) from the current state of the object"""
        t = o.tag["hn"]
        st = o.f.get("m_storage_type")
        if isinstance(st, Sym) and st.name.endswith("::Dense"):
            d = o.f.get("m_dense_data")
            if isinstance(d, Smart) and isinstance(d.t, Obj):
                return "D", d.t
        if isinstance(st, Sym) and st.name.endswith("::LowRank"):
            d = o.f.get("m_low_rank_data")
            if isinstance(d, Smart) and isinstance(d.t, Obj):
                return "L", d.t
        return t["kind"], None

    def value(self, o, init=False):
        if not init:
            k, m = self.live(o)
            if k == "D" and o.tag["hn"].get("mat") is not m:
                return K.mat_value(self.ip, m)
            if k == "L" and o.tag["hn"].get("lr") is not m:
                return K.lr_value(self.ip, m)
        return super().value(o, init)

    def lastbuf(self, o):
        k, m = self.live(o)
        if k == "D" and m is not None and isinstance(m.f.get("m_data"), Ptr):
            return m.f["m_data"].buf
        return super().lastbuf(o)

    def write(self, o, v, l):
        k, m = self.live(o)
        if k == "D" and m is not None and o.tag["hn"].get("mat") is not m:
            return self.anywrite(m, v, l)
        return super().write(o, v, l)

    def inv_apply(self, o, side, uplo, tr, diag, B):
        A = self.ip.A
        if side == "L":
            return self.invL(o, uplo, tr, diag, B)
        nt = {"N": "T", "T": "N", "C": "J", "J": "C"}[tr]
        r = self.invL(o, uplo, nt, diag, A.T(B))
        return r if is_unk(r) else A.T(r)

    def invL(self, o, uplo, tr, diag, B):
        """inv(op(tri(o))) B for a node or a dense matrix object"""
        A = self.ip.A
        if is_unk(B):
            return B
        if tr in "CJ":
            r = self.invL(o, uplo, "T" if tr == "C" else "N", diag, A.J(B))
            return r if is_unk(r) else A.J(r)
        kind = self.live(o)[0] if "hn" in o.tag else "D"
        if kind == "L":
            raise Undecided("triangular part of a low-rank block")
        if kind != "H":
            v = self.value(o) if "hn" in o.tag else K.mat_value(self.ip, o)
            if is_unk(v):
                return v
            return A.mul(self.opaque_inv(v, uplo, diag, tr), B)
        t = o.tag["hn"]
        blk = {}
        offs = []
        for ch, ro, co, dg in t["kids"]:
            blk[(str(ro), str(co))] = ch
            if ch.tag["hn"]["T"] is ch.tag["hn"]["S"]:
                offs.append((ro, ch.tag["hn"]["m"]))
        fwd = (uplo == "L") == (tr == "N")
        n = len(offs)
        X = [None] * n
        for i in (range(n) if fwd else range(n - 1, -1, -1)):
            ro, sz = offs[i]
            cur = A.sub(B, ro, sz, ZERO, B.c)
            for j in (range(i) if fwd else range(n - 1, i, -1)):
                rj, sj = offs[j]
                key = (str(ro), str(rj)) if tr == "N" else (str(rj), str(ro))
                M = self.value(blk[key])
                if is_unk(M):
                    return M
                cur = A.add(cur, A.mul(M if tr == "N" else A.T(M), X[j]), ONE, -ONE)
                if is_unk(cur):
                    return cur
            X[i] = self.invL(blk[(str(ro), str(ro))], uplo, tr, diag, cur)
            if is_unk(X[i]):
                return X[i]
        r = A.zero(B.r, B.c)
        for i in range(n):
            r = A.add(r, A.place(X[i], B.r, B.c, offs[i][0], ZERO))
        return r

    # ------------------------------------------------------------ contracts
    def contracts(self):
        out = super().contracts()
        out["htool::internal_triangular_hmatrix_matrix_solve_row_major"] = self.c_solve_rm
        for q in ("internal_triangular_hmatrix_matrix_solve", "internal_triangular_hmatrix_lrmat_solve", "internal_triangular_hmatrix_hmatrix_solve", "triangular_matrix_matrix_solve"):
            out["htool::" + q] = self.c_solve
        out["htool::lu_factorization"] = self.c_lu
        out["htool::cholesky_factorization"] = self.c_chol
        out["htool::internal_lu_solve"] = self.c_ilu
        out["htool::internal_cholesky_solve"] = self.c_ichol
        out["htool::user_to_cluster"] = lambda *a: self.c_perm("P", *a)
        out["htool::cluster_to_user"] = lambda *a: self.c_perm("Pt", *a)
        out["htool::HMatrix::is_block_tree_consistent"] = self.c_cons
        return out

    def c_cons(self, ip, f, obj, args, e):
        h = self.hn(obj)
        return NotImplemented if h is None else h.tag["hn"].get("cons", True)

    def flags(self, ip, args):
        r = [val(ip, a) for a in args]
        if not all(isinstance(x, str) for x in r):
            raise Undecided("flags of a triangular solve")
        return r

    def c_solve(self, ip, f, obj, args, e):
        if self.at_entry(f):
            return NotImplemented
        X, B = self.obj(args[5]), self.obj(args[6])
        if not isinstance(X, Obj) or not isinstance(B, Obj):
            return NotImplemented
        side, up, tr, dg = self.flags(ip, args[:4])
        al = num(ip, args[4])
        b = self.anyval(B)
        if is_unk(b):
            ip.wild("right-hand side: " + str(b))
            return None
        n = self.anydims(X)[0]
        self.conform(f, e, (n, b.r if side == "L" else b.c))
        if not ip.F.eq(n, b.r if side == "L" else b.c):
            raise Undecided("shape of a triangular solve")
        self.anywrite(B, ip.A.scale(al, self.inv_apply(X, side, up, tr, dg, b)), line(e))
        ip.call_log.add(f["id"])
        return None

    def c_solve_rm(self, ip, f, obj, args, e):
        if self.at_entry(f):
            return NotImplemented
        h, B = self.hn(args[5]), self.obj(args[6])
        if h is None or not isinstance(B, Obj):
            return NotImplemented
        side, up, tr, dg = self.flags(ip, args[:4])
        if side != "L":
            raise Undecided("side of a row-major triangular solve")
        al = num(ip, args[4])
        b = self.anyval(B)
        if is_unk(b):
            ip.wild("right-hand side: " + str(b))
            return None
        self.conform(f, e, (h.tag["hn"]["m"], b.c))
        if not ip.F.eq(h.tag["hn"]["m"], b.c):
            raise Undecided("shape of a triangular solve")
        r = self.inv_apply(h, "L", up, tr, dg, ip.A.T(b))
        self.anywrite(B, ip.A.scale(al, r if is_unk(r) else ip.A.T(r)), line(e))
        ip.call_log.add(f["id"])
        return None

    def factor(self, ip, f, X, kind, e):
        v = self.anyval(X)
        if is_unk(v):
            ip.wild("factored block: " + str(v))
            return None
        self.anywrite(X, self.factored(kind, v), line(e))
        ip.call_log.add(f["id"])
        return None

    def c_lu(self, ip, f, obj, args, e):
        X = self.obj(args[0])
        if self.at_entry(f) or not isinstance(X, Obj):
            return NotImplemented
        return self.factor(ip, f, X, "LU", e)

    def c_chol(self, ip, f, obj, args, e):
        X = self.obj(args[1])
        if self.at_entry(f) or not isinstance(X, Obj):
            return NotImplemented
        return self.factor(ip, f, X, "CH" + self.flags(ip, args[:1])[0], e)

    def lu_apply(self, o, tr, X):
        if tr == "N":
            return self.invL(o, "U", "N", "N", self.invL(o, "L", "N", "U", X))
        return self.invL(o, "L", tr, "U", self.invL(o, "U", tr, "N", X))

    def chol_apply(self, o, up, X):
        c = "C" if self.ip.A.cplx else "T"
        if up == "L":
            return self.invL(o, "L", c, "N", self.invL(o, "L", "N", "N", X))
        return self.invL(o, "U", "N", "N", self.invL(o, "U", c, "N", X))

    def c_ilu(self, ip, f, obj, args, e):
        if self.at_entry(f):
            return NotImplemented
        h, X = self.hn(args[1]), self.obj(args[2])
        if h is None or not isinstance(X, Obj):
            return NotImplemented
        self.anywrite(X, self.lu_apply(h, self.flags(ip, args[:1])[0], self.anyval(X)), line(e))
        return None

    def c_ichol(self, ip, f, obj, args, e):
        if self.at_entry(f):
            return NotImplemented
        h, X = self.hn(args[1]), self.obj(args[2])
        if h is None or not isinstance(X, Obj):
            return NotImplemented
        self.anywrite(X, self.chol_apply(h, self.flags(ip, args[:1])[0], self.anyval(X)), line(e))
        return None

    def permop(self, c, tr):
        """renumbering of a cluster: P maps user numbering to cluster numbering"""
        nm = "perm:" + c.f["m_tree_data"].t.name
        self.ip.A.perm.add(nm)
        n = c.f["m_size"]
        return self.ip.A.of_factor(("op", nm, n, n, tr))

    def c_perm(self, which, ip, f, obj, args, e):
        c = self.obj(args[0])
        if not isinstance(c, Obj) or "cluster" not in c.tag:
            return NotImplemented
        x, y = val(ip, args[1]), val(ip, args[2])
        n = c.f["m_size"]
        if not isinstance(x, Ptr) or not isinstance(y, Ptr) or x.buf is None or y.buf is None:
            raise Undecided("renumbered vector")
        vx = View(x.off, n, ONE, ONE, ZERO)
        ip.check_view(x.buf, vx, "read", line(e))
        X = ip.M.read(x.buf, vx)
        wr(ip, y, View(ZERO, n, ONE, ONE, ZERO), X if is_unk(X) else ip.A.mul(self.permop(c, "N" if which == "P" else "T"), X), line(e))
        ip.call_log.add(f["id"])
        return None
