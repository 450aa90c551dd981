"""Abstract hierarchical matrices.

A hierarchical matrix A over target cluster T = [T0, T0+m) and source cluster S = [S0, S0+n)
represents  H(A) = HL + sigma(HS):  HL is tiled by the leaves, HS by the leaves that stand for
their mirrored half as well, sigma is the transpose ('S') or the adjoint ('H').
"""
from spec import *


class H:
    """description attached to an HMatrix object (tag 'h')"""

    def __init__(self, name, T0, m, S0, n, sigma="N"):
        self.name, self.T0, self.m, self.S0, self.n, self.sigma = name, P(T0), P(m), P(S0), P(n), sigma
        # the diagonal block [D0, D0+d) x [D0, D0+d) holding the symmetric leaves
        self.D0, self.d = self.T0, self.m


class HModel:
    def __init__(self, ip, s, T):
        self.ip, self.s, self.T = ip, s, T
        self.ht = "htool::HMatrix<%s, double>" % T
        self.lt = "htool::LowRankMatrix<%s, double>" % T
        self.mt = "htool::Matrix<%s>" % T
        self.pref = "N"
        self.leafcolls = {}
        ip.contracts["htool::get_leaves_from"] = self.c_leaves
        ip.elem_gen = self.elem
        ip.domain_hook = self.domain
        self.ST = self.enum("StorageType")

    def enum(self, n):
        return {k: Sym("enum:htool::HMatrix::" + k) for k in ("Dense", "LowRank", "Hierarchical")}

    # ---------------------------------------------------------------- objects
    def cluster(self, name, off, size):
        c = Obj("htool::Cluster<double>", name, True)
        c.f["m_offset"] = P(off)
        c.f["m_size"] = P(size)
        c.tag["distinct"] = True
        return c

    def bare(self, name, tc, sc, sym, uplo, sfl, ufl, storage):
        o = Obj(self.ht, name, True)
        o.f["m_target_cluster"] = PObj(tc)
        o.f["m_source_cluster"] = PObj(sc)
        o.f["m_symmetry"] = sym
        o.f["m_UPLO"] = uplo
        o.f["m_symmetry_type_for_leaves"] = sfl
        o.f["m_UPLO_for_leaves"] = ufl
        o.f["m_storage_type"] = storage
        return o

    def root(self, name, m, n, sigma="N", uplo="L", sym=None, T0=None, S0=None, shape="square"):
        """hierarchical root: children exist, leaves tile the block

        shape: with symmetric leaves, the block is square around its diagonal, or 'wide' (its rows are part
        of its columns: one process' rows) or 'tall' (its columns are part of its rows)"""
        T0 = P(T0 if T0 is not None else name + ".T0")
        if sigma != "N" and shape == "square":
            S0, n = T0, m
        S0 = P(S0 if S0 is not None else name + ".S0")
        tc = self.cluster(name + ".T", T0, m)
        sc = self.cluster(name + ".S", S0, n) if sigma == "N" else tc
        if sigma != "N":
            sc = self.cluster(name + ".S", S0, n)
        o = self.bare(name, tc, sc, sym if sym is not None else sigma, uplo if sigma != "N" else "N", sigma, uplo if sigma != "N" else "N", self.ST["Hierarchical"])
        o.f["m_dense_data"] = Smart(None)
        o.f["m_low_rank_data"] = Smart(None)
        h = o.tag["h"] = H(name, T0, m, S0, n, sigma)
        if sigma != "N" and shape != "square":
            F = self.ip.F
            a, b, c, d = (h.T0, h.m, h.S0, h.n) if shape == "wide" else (h.S0, h.n, h.T0, h.m)
            F.add_ge0(a - c)
            F.add_ge0(c + d - a - b)
            h.D0, h.d = a, b
        return o

    def mirror(self, o):
        """the mirrored half, a matrix over the diagonal block"""
        h = o.tag["h"]
        A = self.ip.A
        w = A.of_factor(self.hfac(h.name + ".symleaves", h.D0, h.d, h.D0, h.d))
        return A.T(w) if h.sigma == "S" else A.J(A.T(w))

    def hfac(self, name, r0, r, c0, c, op="N"):
        return ("H", name, P(r0), P(r), P(c0), P(c), op)

    def value(self, o):
        """H(A) as a matrix value"""
        h = o.tag["h"]
        A = self.ip.A
        v = A.of_factor(self.hfac(h.name + ".leaves", h.T0, h.m, h.S0, h.n))
        if h.sigma != "N":
            v = A.add(v, self.mirror(o))
        return v

    # ---------------------------------------------------------------- leaves
    def c_leaves(self, ip, f, obj, args, e):
        v = args[0]
        o = ip.lget(v) if isinstance(v, (Cell, tuple)) else v
        if not isinstance(o, Obj):
            return NotImplemented
        if "h" in o.tag:
            h = o.tag["h"]
            out = []
            for kind in ("leaves", "symleaves"):
                n = P("#%s.%s" % (h.name, kind))
                if kind == "symleaves" and h.sigma == "N":
                    c = Coll([], h.name + "." + kind, self.ht + " *")
                else:
                    c = Coll([("sym", None, n, None)], h.name + "." + kind, self.ht + " *")
                    c.hdesc = (h, kind)
                out.append(c)
            ip.call_log.add(f["id"])
            return Tup(out)
        return NotImplemented

    def elem(self, ip, c, k, name):
        d = getattr(c, "hdesc", None)
        if d is None:
            return None
        h, kind = d
        return PObj(self.leaf(h, kind, k, name))

    def leaf(self, h, kind, k, name):
        ip = self.ip
        to, ts, so, ss = [P("%s(%s.%s[%s])" % (a, h.name, kind, k)) for a in ("to", "ts", "so", "ss")]
        T0, m, S0, n = (h.T0, h.m, h.S0, h.n) if kind == "leaves" else (h.D0, h.d, h.D0, h.d)
        facts = [ts - 1, ss - 1, to - T0, so - S0, T0 + m - to - ts, S0 + n - so - ss]
        tc, sc = self.cluster(name + ".t", to, ts), self.cluster(name + ".s", so, ss)
        hn = h.name + "." + kind
        sym = "N"
        uplo = "N"
        if h.sigma != "N" and kind == "leaves":
            # a dense diagonal leaf may be stored through one of its triangles
            sym = Sym(name + ".symmetry", ["N", h.sigma])
            uplo = "L"
        st = Sym(name + ".storage", ["enum:htool::HMatrix::Dense", "enum:htool::HMatrix::LowRank"])
        o = self.bare(name, tc, sc, sym, uplo, h.sigma, "L" if h.sigma != "N" else "N", st)
        o.f["m_children"] = Coll([], name + ".children", "")
        # data
        M = Obj(self.mt, name + ".D")
        bn = name + ".dense"
        b = Buffer(bn, ts * ss, "init")
        b.hints = [(ts, ss)]
        M.f.update(m_number_of_rows=ts, m_number_of_cols=ss, m_data=Ptr(b, ZERO), m_is_owning_data=True, m_pivots=Vec(IBuf(bn + ".piv", None), P(bn + ".npiv")))
        M.tag["buf"] = b
        o.f["m_dense_data"] = Smart(M)
        L = Obj(self.lt, name + ".LR")
        r = P("rk(%s)" % name)
        facts.append(r)
        for x in facts:
            ip.F.add_ge0(x)
        o.tag["facts"] = facts
        for nm, fr, fc in (("m_U", ts, r), ("m_V", r, ss)):
            X = Obj(self.mt, name + "." + nm)
            bb = Buffer(name + "." + nm, fr * fc, "init")
            bb.hints = [(fr, fc)]
            X.f.update(m_number_of_rows=fr, m_number_of_cols=fc, m_data=Ptr(bb, ZERO), m_is_owning_data=True, m_pivots=Vec(IBuf(bb.name + ".piv", None), P(bb.name + ".npiv")))
            L.f[nm] = X
        L.f["m_epsilon"] = Poly.atom("$eps")
        o.f["m_low_rank_data"] = Smart(L)
        hf = self.hfac(hn, to, ts, so, ss)
        ip.A.defs[bn] = (ts, ss, hf, h.sigma, uplo, self.pref, name + ".symmetry" if sym != "N" else None)
        ip.A.pairs[(name + ".m_U", name + ".m_V")] = (ts, ss, r, ip.A.of_factor(hf))
        one = lambda p: next(iter(p.atoms()))
        ip.A.rkzero[one(ts)] = ip.A.rkzero[one(ss)] = r
        if sym != "N":
            ip.A.symblocks.setdefault(hn, []).append((to, ts, so, ss, h.sigma, self.pref, name + ".symmetry"))
            ip.pred_facts[("symeq", name + ".symmetry", h.sigma)] = [to - so, ts - ss]
        o.tag["leaf"] = (h, kind, to, ts, so, ss)
        self.leafcolls.setdefault((h.name, kind), []).append(o)
        return o

    def domain(self, ip, coll, idx, el):
        import loops
        o = el.o if isinstance(el, PObj) else el
        if not isinstance(o, Obj) or "leaf" not in o.tag:
            return None
        h, kind, to, ts, so, ss = o.tag["leaf"]
        one = lambda p: next(iter(p.atoms()))
        T0, m, S0, n = (h.T0, h.m, h.S0, h.n) if kind == "leaves" else (h.D0, h.d, h.D0, h.d)
        return [loops.Iv(one(to), T0, ts, m), loops.Iv(one(so), S0, ss, n)]
