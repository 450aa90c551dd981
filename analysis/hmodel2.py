"""Abstract hierarchical matrices with explicit structure: a node is dense, low rank, hierarchical
(children over the product of the children clusters) or opaque (any storage, only its value is known)."""
from spec import *
from specs_dense import argcells
import contracts as K
from models import num, val, line, wr


def enumv(k):
    return Sym("enum:htool::HMatrix::" + k)


class HTree:
    def __init__(self, ip, s, T):
        self.ip, self.s, self.T = ip, s, T
        self.ht = "htool::HMatrix<%s, double>" % T
        self.lt = "htool::LowRankMatrix<%s, double>" % T
        self.mt = "htool::Matrix<%s>" % T
        self.entry = None
        ip.contracts.update(self.contracts())
        self.nodes = []

    # ---------------------------------------------------------------- clusters
    def cluster(self, name, sizes, consistent=True, off=None):
        """root cluster with one child per size"""
        off = P(off if off is not None else name + "0")
        tot = ZERO
        for x in sizes:
            self.ip.F.add_ge0(P(x) - 1)
            tot = tot + P(x)
        if not hasattr(self, "td"):
            self.td = {}
        td = Obj("htool::ClusterTreeData<double>", name + ".data", True)
        root = self._cl(name, off, tot, td, 0, 0)
        kids = []
        o = off
        for i, x in enumerate(sizes):
            c = self._cl("%s[%d]" % (name, i), o, P(x), td, 1, i)
            c.f["m_rank"] = P(i)
            c.tag["parent"] = root
            kids.append(c)
            o = o + P(x)
        root.f["m_rank"] = P(-1) if (len(sizes) > 1 and not consistent) else P(0)
        root.f["m_children"] = Coll([("one", Smart(c)) for c in kids] if len(kids) > 1 else [], name + ".children", "std::unique_ptr<htool::Cluster<double>>")
        root.tag["kids"] = kids if len(kids) > 1 else []
        return root

    def _cl(self, name, off, size, td, depth, counter):
        c = Obj("htool::Cluster<double>", name, True)
        c.f["m_offset"], c.f["m_size"] = P(off), P(size)
        c.f["m_tree_data"] = Smart(td)
        c.f["m_depth"], c.f["m_counter"] = P(depth), P(counter)
        c.f["m_is_root"] = depth == 0
        c.f["m_children"] = Coll([], name + ".children", "")
        c.tag["cluster"] = True
        c.tag["kids"] = []
        return c

    # ---------------------------------------------------------------- nodes
    def node(self, name, T, S, kind, sym="N", uplo="N", sfl="N", out=False, kids=None, lower=False):
        """kind: D | L | H | O (opaque)"""
        ip = self.ip
        o = Obj(self.ht, name, True)
        o.f["m_target_cluster"], o.f["m_source_cluster"] = PObj(T), PObj(S)
        o.f["m_symmetry"], o.f["m_UPLO"] = sym, uplo
        o.f["m_symmetry_type_for_leaves"], o.f["m_UPLO_for_leaves"] = sfl, uplo
        m, n = T.f["m_size"], S.f["m_size"]
        o.f["m_children"] = Coll([], name + ".children", "std::unique_ptr<%s>" % self.ht)
        o.f["m_dense_data"], o.f["m_low_rank_data"] = Smart(None), Smart(None)
        td = Obj("htool::HMatrixTreeData<%s, double>" % self.T, name + ".data", True)
        td.f["m_epsilon"] = Poly.atom("$eps")
        o.f["m_tree_data"] = Smart(td)
        o.f["m_is_root"] = True
        tag = {"kind": kind, "T": T, "S": S, "m": m, "n": n, "kids": [], "name": name, "sigma": sfl, "out": out}
        o.tag["hn"] = tag
        if kind == "D":
            M = self.s.matrix(name + ".D", m, n, out)
            o.f["m_dense_data"] = Smart(M)
            o.f["m_storage_type"] = enumv("Dense")
            tag["mat"] = M
        elif kind == "L":
            L = self.s.lowrank(name + ".LR", m, n, "rk_" + name.replace("[", "_").replace("]", "_"), out)
            o.f["m_low_rank_data"] = Smart(L)
            o.f["m_storage_type"] = enumv("LowRank")
            tag["lr"] = L
        elif kind == "O":
            b = self.s.buf(name, m * n, out)
            b.hints = [(m, n)]
            tag["buf"] = b
            o.f["m_storage_type"] = Sym(name + ".storage", ["enum:htool::HMatrix::Dense", "enum:htool::HMatrix::LowRank", "enum:htool::HMatrix::Hierarchical"])
            if sfl != "N":
                ip.A.symbufs[name] = (m, sfl)
        else:
            o.f["m_storage_type"] = enumv("Hierarchical")
            ts, ss = T.tag["kids"] or [T], S.tag["kids"] or [S]
            parts = []
            for j, c in enumerate(ss):
                for i, t in enumerate(ts):
                    if lower and i < j:
                        continue
                    k = kids(i, j) if kids else "O"
                    diag = sfl != "N" and i == j
                    ch = self.node("%s[%d,%d]" % (name, i, j), t, c, k, sym=sym if diag else "N", uplo=uplo if diag else "N", sfl=sfl if (diag or k == "H") else "N", out=out)
                    ch.f["m_is_root"] = False
                    tag["kids"].append((ch, t.f["m_offset"] - T.f["m_offset"], c.f["m_offset"] - S.f["m_offset"], diag))
                    parts.append(("one", Smart(ch)))
            o.f["m_children"] = Coll(parts, name + ".children", "std::unique_ptr<%s>" % self.ht)
        self.nodes.append(o)
        return o

    # ---------------------------------------------------------------- values
    def value(self, o, init=False):
        """the operator a node stands for"""
        t = o.tag["hn"]
        A = self.ip.A
        k = t["kind"]
        if k == "D":
            if init:
                return self.s.val(t["mat"]) if t["sigma"] == "N" or o.f["m_symmetry"] == "N" else self.s.sym(t["mat"], o.f["m_UPLO"], t["sigma"])
            v = K.mat_value(self.ip, t["mat"])
            if o.f["m_symmetry"] != "N" and not is_unk(v):
                return self.s.sym(t["mat"], o.f["m_UPLO"], t["sigma"])
            return v
        if k == "L":
            return self.s.lr(t["lr"]) if init else K.lr_value(self.ip, t["lr"])
        if k == "O":
            v = View(ZERO, t["m"], t["n"], ONE, t["m"])
            return A.view(t["buf"].name, v) if init else self.ip.M.read(t["buf"], v)
        tot = A.zero(t["m"], t["n"])
        for ch, ro, co, diag in t["kids"]:
            v = self.value(ch, init)
            if is_unk(v):
                return v
            tot = A.add(tot, A.place(v, t["m"], t["n"], ro, co))
            if t["sigma"] != "N" and not diag:
                w = A.T(v) if t["sigma"] == "S" else A.J(A.T(v))
                tot = A.add(tot, A.place(w, t["m"], t["n"], co, ro))
        return tot

    def lastbuf(self, o):
        t = o.tag["hn"]
        if t["kind"] == "D":
            return t["mat"].f["m_data"].buf
        if t["kind"] == "L":
            return t["lr"].f["m_U"].f["m_data"].buf
        if t["kind"] == "O":
            return t["buf"]
        for ch, *_ in t["kids"]:
            b = self.lastbuf(ch)
            if b is not None and b.head is not None:
                return b
        return None

    def write(self, o, v, l):
        """overwrite the operator a node stands for"""
        t = o.tag["hn"]
        ip = self.ip
        k = t["kind"]
        if is_unk(v):
            ip.wild("hierarchical operand: " + str(v))
        if k == "D":
            p = t["mat"].f["m_data"]
            wr(ip, p, View(ZERO, t["m"], t["n"], ONE, t["m"]), v, l)
        elif k == "O":
            ip.mwrite(t["buf"], View(ZERO, t["m"], t["n"], ONE, t["m"]), v, l)
        elif k == "L":
            self.set_lr(t["lr"], t["m"], t["n"], v)
        else:
            for ch, ro, co, diag in t["kids"]:
                self.write(ch, v if is_unk(v) else ip.A.sub(v, ro, ch.tag["hn"]["m"], co, ch.tag["hn"]["n"]), l)

    def set_lr(self, L, m, n, v):
        ip = self.ip
        k = ip.fresh("rank")
        ip.F.add_ge0(Poly.atom(k))
        Ub = K.new_matrix(ip, L.f["m_U"], m, P(k), "rU")
        Vb = K.new_matrix(ip, L.f["m_V"], P(k), n, "rV")
        if is_unk(v):
            ip.mhavoc(Ub, "low rank value")
            return
        ip.A.pairs[(Ub.name, Vb.name)] = (ip.F.norm(m), ip.F.norm(n), P(k), ip.A.norm(v))

    # ---------------------------------------------------------------- contracts
    def obj(self, a):
        v = self.ip.lget(a) if isinstance(a, (Cell, tuple)) or hasattr(a, "lv") else a
        if hasattr(v, "lv"):
            v = self.ip.lget(v.lv)
        if isinstance(v, PObj):
            v = v.o
        return v

    def hn(self, a):
        v = self.obj(a)
        return v if isinstance(v, Obj) and "hn" in v.tag else None

    def anyval(self, o):
        """value of a Matrix, LowRankMatrix or HMatrix operand"""
        if "hn" in o.tag:
            return self.value(o)
        if "m_U" in o.f:
            return K.lr_value(self.ip, o)
        return K.mat_value(self.ip, o)

    def anydims(self, o):
        if "hn" in o.tag:
            return o.tag["hn"]["m"], o.tag["hn"]["n"]
        if "m_U" in o.f:
            return K.mat_dims(o.f["m_U"])[0], K.mat_dims(o.f["m_V"])[1]
        return K.mat_dims(o)

    def anywrite(self, o, v, l):
        if "hn" in o.tag:
            return self.write(o, v, l)
        if "m_U" in o.f:
            m, n = (v.r, v.c) if not is_unk(v) else self.anydims(o)
            return self.set_lr(o, m, n, v)
        r, c = K.mat_dims(o)
        p = o.f.get("m_data")
        if not isinstance(r, Poly) or not isinstance(c, Poly):
            return self.ip.wild("matrix")
        wr(self.ip, p, View(ZERO, r, c, ONE, r), v, l)

    def contracts(self):
        out = {}
        for p in ("sequential_internal_", "openmp_internal_", "internal_"):
            out["htool::%sadd_hmatrix_matrix_product_row_major" % p] = self.c_rowmajor
            out["htool::%sadd_hmatrix_vector_product" % p] = self.c_vector
        out["htool::copy_to_dense"] = self.c_to_dense
        out["htool::internal_add_lrmat_hmatrix"] = self.c_add_lr
        out["htool::scale"] = self.c_scale
        out["htool::sequential_scale"] = self.c_scale
        out["htool::openmp_scale"] = self.c_scale
        out["htool::add_lrmat_lrmat"] = self.c_lr_lr
        for q in ("hmatrix_hmatrix", "hmatrix_matrix", "matrix_hmatrix", "hmatrix_lrmat", "lrmat_hmatrix"):
            out["htool::internal_add_%s_product" % q] = self.c_product
        out["htool::recompression"] = K.c_recompression
        out["htool::SVD_truncation"] = K.c_svd
        out["htool::Cluster::operator=="] = self.c_cleq
        out["htool::Cluster::get_clusters_on_partition"] = self.c_partition
        return out

    def c_cleq(self, ip, f, obj, args, e):
        a, b = self.obj(obj), self.obj(args[0])
        if isinstance(a, Obj) and isinstance(b, Obj) and "cluster" in a.tag and "cluster" in b.tag:
            return a is b
        return NotImplemented

    def c_partition(self, ip, f, obj, args, e):
        a = self.obj(obj)
        if isinstance(a, Obj) and "cluster" in a.tag:
            ks = a.tag["kids"] or [a]
            return Coll([("one", PObj(k)) for k in ks], a.name + ".partition", "const htool::Cluster<double> *")
        return NotImplemented

    def conform(self, f, e, *pairs):
        for a, b in pairs:
            if not self.ip.F.eq(a, b) and self.ip.F.differs(a, b) and not self.ip.tainted:
                ip = self.ip
                w = ip.ir.loc(ip.stack[-1], e.get("l")) if ip.stack else ""
                raise Definite("operands of %s do not conform" % f["q"].split("::")[-1], w)

    def at_entry(self, f):
        return f is self.entry and len(self.ip.stack) <= 1

    def c_rowmajor(self, ip, f, obj, args, e):
        if self.at_entry(f):
            return NotImplemented
        h = self.hn(args[3])
        if h is None:
            return NotImplemented
        ta, tb, al, x, be, y, mu = val(ip, args[0]), val(ip, args[1]), num(ip, args[2]), val(ip, args[4]), num(ip, args[5]), val(ip, args[6]), num(ip, args[7])
        return self.product(ip, f, e, ta, tb, al, h, x, be, y, mu)

    def c_vector(self, ip, f, obj, args, e):
        if self.at_entry(f):
            return NotImplemented
        h = self.hn(args[2])
        if h is None:
            return NotImplemented
        ta, al, x, be, y = val(ip, args[0]), num(ip, args[1]), val(ip, args[3]), num(ip, args[4]), val(ip, args[5])
        return self.product(ip, f, e, ta, "N", al, h, x, be, y, ONE)

    def product(self, ip, f, e, ta, tb, al, h, x, be, y, mu):
        if not isinstance(ta, str) or not isinstance(tb, str) or not isinstance(mu, Poly):
            raise Undecided("flags of the row-major product")
        sg = h.tag["hn"]["sigma"]
        if (ta == "T" and sg == "H") or (ta == "C" and sg == "S") or tb != "N":
            # the callee reports this combination as unsupported
            ip.logged.append(("unsupported", f["q"]))
            ip.wild("unsupported product")
            return None
        A = ip.A
        m, n = h.tag["hn"]["m"], h.tag["hn"]["n"]
        nx, ny = (n, m) if ta == "N" else (m, n)
        if not isinstance(x, Ptr) or not isinstance(y, Ptr) or x.buf is None or y.buf is None:
            raise Undecided("operand pointer")
        vx, vy = View(x.off, nx, mu, mu, ONE), View(y.off, ny, mu, mu, ONE)
        ip.check_view(x.buf, vx, "read", line(e))
        X, Y = ip.M.read(x.buf, vx), ip.M.read(y.buf, vy)
        v = A.add(A.mul(A.op(ta, self.value(h)), X), A.zero(ny, mu) if isinstance(be, Poly) and be.is_zero() else Y, al, be)
        wr(ip, y, View(ZERO, ny, mu, mu, ONE), v, line(e))
        ip.call_log.add(f["id"])
        return None

    def c_to_dense(self, ip, f, obj, args, e):
        if self.at_entry(f):
            return NotImplemented
        h = self.hn(args[0])
        if h is None:
            return NotImplemented
        if h.tag["hn"]["sigma"] != "N":
            raise Undecided("dense copy of a symmetric operator")
        p = val(ip, args[1])
        wr(ip, p, View(ZERO, h.tag["hn"]["m"], h.tag["hn"]["n"], ONE, h.tag["hn"]["m"]), self.value(h), line(e))
        ip.call_log.add(f["id"])
        return None

    def c_scale(self, ip, f, obj, args, e):
        if self.at_entry(f):
            return NotImplemented
        h = self.hn(args[1])
        if h is None:
            return NotImplemented
        self.write(h, ip.A.scale(num(ip, args[0]), self.value(h)), line(e))
        ip.call_log.add(f["id"])
        return None

    def c_add_lr(self, ip, f, obj, args, e):
        if self.at_entry(f):
            return NotImplemented
        L, h = self.obj(args[0]), self.hn(args[1])
        if h is None or not isinstance(L, Obj):
            return NotImplemented
        v = K.lr_value(ip, L)
        m, n = h.tag["hn"]["m"], h.tag["hn"]["n"]
        cur = self.value(h)
        if is_unk(v) or is_unk(cur):
            self.write(h, v if is_unk(v) else cur, line(e))
            return None
        if not (ip.F.eq(v.r, m) and ip.F.eq(v.c, n)):
            # an empty (rank zero, not dimensioned) addition leaves the block unchanged
            if any(ip.F.zero(z) for z in (K.mat_dims(L.f["m_U"])[1], K.mat_dims(L.f["m_V"])[0])):
                return None
            raise Undecided("shape of the low-rank addition")
        self.write(h, ip.A.add(cur, v), line(e))
        ip.call_log.add(f["id"])
        return None

    def c_lr_lr(self, ip, f, obj, args, e):
        """the smaller block is added inside the larger one"""
        if self.at_entry(f):
            return NotImplemented
        X, xt, xs, Y, yt, ys = [self.obj(a) for a in args]
        F, A = ip.F, ip.A
        if any(not isinstance(c, Obj) or "m_offset" not in c.f for c in (xt, xs, yt, ys)):
            return NotImplemented
        off = lambda c: (c.f["m_offset"], c.f["m_size"])
        (a, m), (b, n), (c, p), (d, q) = off(xt), off(xs), off(yt), off(ys)
        vx, vy = K.lr_value(ip, X), K.lr_value(ip, Y)
        if is_unk(vx) or is_unk(vy):
            self.set_lr(Y, p, q, Unk("low-rank sum"))
            ip.wild("low-rank sum")
            return None
        if not (F.eq(vx.r, m) and F.eq(vx.c, n) and F.eq(vy.r, p) and F.eq(vy.c, q)):
            raise Undecided("clusters do not match the low-rank blocks")
        if F.inside(a, m, c, p) and F.inside(b, n, d, q):
            v = A.add(vy, A.place(vx, p, q, a - c, b - d))
        elif F.inside(c, p, a, m) and F.inside(d, q, b, n):
            v = A.add(vy, A.sub(vx, c - a, p, d - b, q))
        else:
            raise Undecided("blocks are not nested")
        self.set_lr(Y, p, q, v)
        ip.call_log.add(f["id"])
        return None

    def c_product(self, ip, f, obj, args, e):
        """induction: the product of blocks strictly inside the operands"""
        if self.at_entry(f):
            return NotImplemented
        X, Y, Z = self.obj(args[3]), self.obj(args[4]), self.obj(args[6])
        ops = [o for o in (X, Y, Z) if isinstance(o, Obj) and "hn" in o.tag]
        if not any(o.tag["hn"]["kind"] == "O" for o in ops):
            return NotImplemented
        if any(o.tag["hn"]["sigma"] != "N" for o in ops):
            return NotImplemented
        if not any(o.tag["hn"].get("child") or o.tag["hn"]["name"].endswith("]") for o in ops):
            return NotImplemented
        ta, tb, al, be = val(ip, args[0]), val(ip, args[1]), num(ip, args[2]), num(ip, args[5])
        if not isinstance(ta, str) or not isinstance(tb, str):
            raise Undecided("flags of a block product")
        A = ip.A
        x, y, z = self.anyval(X), self.anyval(Y), self.anyval(Z)
        u = [t for t in (x, y, z) if is_unk(t)]
        if u:
            ip.wild("block product: " + str(u[0]))
            return None
        ox, oy = A.op(ta, x), A.op(tb, y)
        self.conform(f, e, (ox.c, oy.r), (ox.r, z.r), (oy.c, z.c))
        xy = A.mul(ox, oy)
        if is_unk(xy):
            raise Undecided("block product: " + str(xy))
        if not (ip.F.eq(xy.r, z.r) and ip.F.eq(xy.c, z.c)):
            raise Undecided("block product shape")
        self.anywrite(Z, A.add(xy, z, al, be), line(e))
        ip.call_log.add(f["id"])
        return None
