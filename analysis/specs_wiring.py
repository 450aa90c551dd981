"""Wiring: what the ready-made builders assemble is what the caller asked for.  The constructors are interpreted with
the construction of the block tree recorded, then the resulting operator is asked for a product."""
from spec import *
from specs_dense import fns, scal_t, argcells
from specs_value import ctree, cluster, out_

PROP = "C14"
BS = "htool::"


def val(ip, x):
    if isinstance(x, LV):
        x = x.lv
    v = ip.lget(x) if isinstance(x, (Cell, tuple)) else x
    return v.o if isinstance(v, PObj) else v


def fld(o, n):
    v = o.f.get(n) if isinstance(o, Obj) else None
    return v.o if isinstance(v, PObj) else v


def is_(x, y, what):
    """the same object"""
    if not isinstance(x, Obj):
        return out_(None, what, "unknown object")
    return out_(x is y, what, "%s instead of %s" % (x.name, y.name))


def eq_(ip, x, y, what):
    if isinstance(y, str):
        return out_(x == y if isinstance(x, str) else None, what, "%s instead of %s" % (x, y))
    if isinstance(x, bool):
        x = P(int(x))
    return out_(ip.F.eq(x, y) if isinstance(x, Poly) else None, what, "%s instead of %s" % (x, y))


class World:
    def __init__(self, ip, T, rank, same):
        self.ip, self.T, self.rank = ip, T, rank
        self.t, self.tk = ctree(ip, "T")
        self.s, self.sk = (self.t, self.tk) if same else ctree(ip, "S")
        for r, k in {self.t.name: (self.t, self.tk), self.s.name: (self.s, self.sk)}.values():
            r.f["m_offset"] = ZERO
            k[0].f["m_offset"] = ZERO
            k[1].f["m_offset"] = k[0].f["m_size"]
            r.f["m_size"] = k[0].f["m_size"] + k[1].f["m_size"]
            for i, x in enumerate(k):
                x.f["m_rank"] = P(i)
                ip.F.add_ge0(x.f["m_size"] - 1)
            td = r.f["m_tree_data"].t
            td.f["m_permutation"] = Smart(Vec(IBuf(r.name + ".perm", r.f["m_size"]), r.f["m_size"]))
        self.comm = Obj("comm", "communicator")
        self.gen = Obj("htool::VirtualInternalGenerator<%s>" % T, "generator", True)
        self.user = Obj("htool::VirtualGenerator<%s>" % T, "generator", True)
        self.built, self.subs, self.products, self.problems = [], [], [], []
        self.H = None
        c = ip.contracts
        c["MPI_Comm_rank"] = self.c_rank
        c["htool::HMatrixTreeBuilder::build"] = self.c_build
        c["htool::HMatrix::get_sub_hmatrix"] = self.c_sub
        for n in ("add_hmatrix_vector_product", "add_hmatrix_matrix_product_row_major"):
            for p in ("openmp_internal_", "sequential_internal_", "internal_"):
                c["htool::" + p + n] = self.c_product
        c["htool::VirtualLocalOperator::add_vector_product_global_to_local"] = self.c_lop

    def c_rank(self, ip, f, obj, a, e):
        if val(ip, a[0]) is not self.comm:
            self.problems.append("the rank is taken from another communicator")
        p = ip.lget(a[1]) if isinstance(a[1], (Cell, tuple)) else a[1]
        if isinstance(p, PCell):
            ip.lset(p.c, P(self.rank))
        else:
            ip.lset(("p", p), P(self.rank))
        return ZERO

    def c_build(self, ip, f, obj, a, e):
        g = val(ip, a[0])
        if isinstance(g, Obj) and g.cls.startswith("htool::VirtualGenerator"):
            return NotImplemented
        self.built.append((obj, dict(obj.f), g, dict(g.f) if isinstance(g, Obj) else None))
        H = Obj("htool::HMatrix<%s, double>" % self.T, "H%d" % len(self.built), True)
        H.tag["built"] = True
        H.f.update(m_target_cluster=obj.f["m_target_root_cluster"], m_source_cluster=obj.f["m_source_root_cluster"], m_storage_type=Unk("storage"))
        self.H = H
        return H

    def c_sub(self, ip, f, obj, a, e):
        S = Obj("htool::HMatrix<%s, double>" % self.T, "sub%d" % len(self.subs), True)
        self.subs.append((obj, [val(ip, x) for x in a], S))
        return PObj(S)

    def c_product(self, ip, f, obj, a, e):
        self.products.append((f["q"], [val(ip, x) for x in a]))
        return None

    def c_lop(self, ip, f, obj, a, e):
        if "lop" not in obj.tag:
            return NotImplemented
        self.products.append((obj, [val(ip, x) for x in a]))
        return None


def generator(w, rec, user, what="the generator"):
    obj, bf, g, gf = rec
    if not user:
        return [is_(g, w.gen, what + " is the caller's")]
    if not isinstance(g, Obj) or "InternalGeneratorWithPermutation" not in g.cls:
        return [out_(None, what)]
    r = [is_(fld(g, "m_generator_in_user_numbering"), w.user, what + " is the caller's")]
    for n, root, nm in (("m_target_permutation", w.t, "rows"), ("m_source_permutation", w.s, "columns")):
        p = gf.get(n)
        b = root.f["m_tree_data"].t.f["m_permutation"].t.buf
        r.append(out_(p.buf is b and w.ip.F.eq(p.off, ZERO) if isinstance(p, Ptr) else None, "%s of the generator are renumbered by the tree of the %s" % (nm, nm), str(p)))
    return r


def partition(w, p, root, kids, what):
    ip = w.ip
    if not isinstance(p, Obj):
        return [out_(None, what, repr(p))]
    r = []
    # the class with the implementation
    def call(n, *a):
        for f in ip.ir.by_q.get("htool::PartitionFromCluster::" + n, []):
            if f["clst"] == p.cls and f["hasbody"]:
                return ip.invoke(f, p, argcells(list(a)))
        raise Undecided("partition")
    for i, k in enumerate(kids):
        i_ = P(i) if i else ZERO
        r.append(eq_(ip, call("get_offset_of_partition", i_), k.f["m_offset"], "%s: offset of part %d" % (what, i)))
        r.append(eq_(ip, call("get_size_of_partition", i_), k.f["m_size"], "%s: size of part %d" % (what, i)))
    r.append(eq_(ip, call("get_global_size"), root.f["m_size"], "%s: global size" % what))
    q = p.f.get("m_root_cluster")
    if q is not None:
        r.append(is_(q.o if isinstance(q, PObj) else q, root, "%s: its clusters" % what))
    return r


def distributed(w, D, sym, uplo, local=None, rows=None, cols=None):
    """D: the assembled operator; local: its local operator (None: over the built matrix, `rows` x `cols`)"""
    ip = w.ip
    if not isinstance(D, Obj):
        return [out_(None, "the distributed operator")]
    def call(n, *a, const=True):
        for f in ip.ir.by_q.get("htool::DistributedOperator::" + n, []):
            if f["clst"] == "htool::DistributedOperator<%s>" % w.T and f["hasbody"]:
                v = ip.invoke(f, D, argcells(list(a)))
                return val(ip, v)
        raise Undecided(n)
    r = partition(w, call("get_target_partition"), w.t, w.tk, "rows of the distributed operator")
    r += partition(w, call("get_source_partition"), w.s, w.sk, "columns of the distributed operator")
    r.append(eq_(ip, call("get_symmetry_type"), sym, "symmetry of the distributed operator"))
    r.append(eq_(ip, call("get_storage_type"), uplo, "triangle of the distributed operator"))
    c = call("get_comm")
    r.append(out_(c is w.comm if isinstance(c, Obj) else None, "the communicator is the caller's"))
    u = call("use_permutation")
    r.append(out_(u is True if isinstance(u, bool) else None, "the caller's numbering is used", repr(u)))
    # one product through it
    s = w.spec
    x, y = s.ptr("x", w.s.f["m_size"]), s.ptr("y", w.tk[w.rank].f["m_size"], True)
    del w.products[:]
    call("internal_vector_product_global_to_local", Ptr(x), Ptr(y))
    if len(w.products) != 1:
        return r + [out_(False, "one local operator takes part in the product", "%d products" % len(w.products))]
    q, a = w.products[0]
    if local is not None:
        return r + [is_(q, local, "the local operator is the caller's")]
    if "vector" not in q:
        return r + [out_(None, "product by %s" % q)]
    tr, al, H, xi, be, yo = a
    r.append(out_(H.tag.get("built") is True and H.f.get("m_target_cluster") is not None if isinstance(H, Obj) else None, "the product is that of the built matrix"))
    r.append(eq_(ip, tr, "N", "the product is not transposed"))
    r.append(eq_(ip, al, ONE, "scaling"))
    r.append(out_(xi.buf is x and ip.F.eq(xi.off, cols.f["m_offset"]) if isinstance(xi, Ptr) else None, "the matrix reads the entries of its columns", str(xi)))
    r.append(out_(yo.buf is y and ip.F.eq(yo.off, ZERO) if isinstance(yo, Ptr) else None, "the matrix writes the rows of this rank", str(yo)))
    ops = D.f.get("m_local_operators")
    if isinstance(ops, Coll) and len(ops.parts) == 1 and ops.parts[0][0] == "one":
        L = ops.parts[0][1]
        L = L.o if isinstance(L, PObj) else L
        for n, o, nm in (("m_target_cluster", rows, "rows"), ("m_source_cluster", cols, "columns")):
            if isinstance(L, Obj) and n in L.f:
                r.append(is_(fld(L, n), o, "%s of the local operator" % nm))
        for n, v, nm in (("m_symmetry", sym, "symmetry"), ("m_UPLO", uplo, "triangle")):
            if isinstance(L, Obj) and n in L.f:
                r.append(eq_(ip, L.f[n], v, "%s of the local operator" % nm))
    return r


def diagonal(w, b, H):
    """the diagonal block of this rank"""
    b = b.o if isinstance(b, PObj) else b
    if not isinstance(b, Obj):
        return [out_(None if isinstance(b, Unk) else False, "the diagonal block is set")]
    if b.tag.get("built") and not any(S is b for _, _, S in w.subs):
        return [is_(val(w.ip, b.f["m_target_cluster"]), w.tk[w.rank], "rows of the diagonal block"), is_(val(w.ip, b.f["m_source_cluster"]), w.sk[w.rank], "columns of the diagonal block")]
    for o, a, S in w.subs:
        if S is b:
            r = [out_(o.tag.get("built") is True if isinstance(o, Obj) else None, "the diagonal block belongs to the built matrix")]
            if len(a) == 2 and all(isinstance(x, Obj) for x in a):
                return r + [is_(a[0], w.tk[w.rank], "rows of the diagonal block"), is_(a[1], w.sk[w.rank], "columns of the diagonal block")]
            return r + [out_(None, "diagonal block")]
    return [out_(None, "diagonal block")]


def mkbuilder(w, t, s, sym, uplo):
    b = Obj("htool::HMatrixTreeBuilder<%s, double>" % w.T, "builder")
    b.f.update(m_target_root_cluster=t, m_source_root_cluster=s, m_epsilon=Poly.atom("$epsilon"), m_eta=Poly.atom("$eta"), m_minsourcedepth=P("ds"), m_mintargetdepth=P("dt"), m_reqrank=P(-1), m_target_partition_number=P(w.rank) if w.rank else ZERO, m_symmetry_type=sym, m_UPLO_type=uplo, m_partition_number_for_symmetry=P(w.rank) if w.rank else ZERO)
    return b


def method(ip, obj, n, *a):
    cls = obj.cls
    for f in ip.ir.by_q.get(cls.split("<")[0] + "::" + n, []):
        if f["clst"] == cls and f["hasbody"] and len(f["params"]) == len(a):
            return val(ip, ip.invoke(f, obj, argcells(list(a))))
    raise Undecided(n)


def block_builder(ip, f, s, T, sym, uplo, tp, sp, cons, user):
    """the parameters given to the constructor and to the setters reach the matrix that is built"""
    w = World(ip, T, 0, sym != "N")
    w.spec = s
    ip.contracts.pop("htool::HMatrixTreeBuilder::build")
    B = Obj("htool::HMatrixTreeBuilder<%s, double>" % T, "builder")
    lr = Obj("htool::VirtualLowRankGenerator<%s, double>" % T, "compressor", True)
    adm = Obj("htool::VirtualAdmissibilityCondition<double>", "condition", True)
    blk = Obj("htool::VirtualDenseBlocksGenerator<%s>" % T, "blocks", True)
    seen = []

    def tree(ip, f, obj, a, e):
        h = val(ip, a[0])
        r = [is_(val(ip, h.f["m_target_cluster"]), w.t, "rows of the matrix"), is_(val(ip, h.f["m_source_cluster"]), w.s, "columns of the matrix")]
        d = h.f["m_tree_data"]
        d = d.t if isinstance(d, Smart) else d
        for n, v, nm in (("m_eta", Poly.atom("$eta"), "admissibility parameter"), ("m_epsilon", Poly.atom("$epsilon"), "tolerance"), ("m_minimal_target_depth", P("mdt"), "minimal depth of the rows"), ("m_minimal_source_depth", P("mds"), "minimal depth of the columns"), ("m_is_block_tree_consistent", P(int(cons)), "consistency of the block tree")):
            if n in d.f:
                r.append(eq_(ip, d.f[n], v, "%s known to the matrix" % nm))
        for n, v, nm in (("m_low_rank_generator", lr, "compression"), ("m_admissibility_condition", adm, "admissibility condition")):
            x = d.f.get(n)
            r.append(is_(x.t if isinstance(x, Smart) else x, v, "%s known to the matrix" % nm))
        seen.append((h, r))
        return None

    def blocks(ip, f, obj, a, e):
        g = val(ip, a[0])
        seen.append(("blocks", generator(w, (None, None, g, dict(g.f)), user, "the generator")))
        return None
    nop = lambda *a: None
    ip.contracts["htool::HMatrixTreeBuilder::build_block_tree"] = tree
    ip.contracts["htool::HMatrixTreeBuilder::compute_blocks"] = blocks
    for n in ("reset_root_of_block_tree", "set_symmetry_for_leaves"):
        ip.contracts["htool::HMatrixTreeBuilder::" + n] = nop

    def checks(ip):
        r = []
        if ip.logged:
            return [out_(False, "a valid construction is accepted", str(ip.logged[0]))]
        for n, a in (("set_low_rank_generator", Smart(lr)), ("set_admissibility_condition", Smart(adm)), ("set_dense_blocks_generator", Smart(blk)), ("set_minimal_target_depth", P("mdt")), ("set_minimal_source_depth", P("mds")), ("set_block_tree_consistency", cons)):
            method(ip, B, n, a)
        r.append(eq_(ip, method(ip, B, "get_symmetry"), sym, "symmetry of the builder"))
        r.append(eq_(ip, method(ip, B, "get_UPLO"), uplo, "triangle of the builder"))
        r.append(is_(method(ip, B, "get_target_cluster"), w.t, "rows of the builder"))
        r.append(is_(method(ip, B, "get_source_cluster"), w.s, "columns of the builder"))
        for n, v, nm in (("m_reqrank", P("rq"), "requested rank"), ("m_target_partition_number", P(tp), "rows of this rank"), ("m_partition_number_for_symmetry", P(sp), "part for the symmetry"), ("m_minsourcedepth", P("mds"), "minimal depth of the columns"), ("m_mintargetdepth", P("mdt"), "minimal depth of the rows"), ("m_is_block_tree_consistent", P(int(cons)), "consistency of the block tree"),
                         ("m_epsilon", Poly.atom("$epsilon"), "tolerance"), ("m_eta", Poly.atom("$eta"), "admissibility parameter")):
            if n in B.f:
                r.append(eq_(ip, B.f[n], v, "%s of the builder" % nm))
        for n, v, nm in (("m_low_rank_generator", lr, "compression"), ("m_admissibility_condition", adm, "admissibility condition"), ("m_dense_blocks_generator", blk, "generator of dense blocks")):
            if n in B.f:
                x = B.f[n]
                r.append(is_(x.t if isinstance(x, Smart) else x, v, "%s of the builder" % nm))
        for g in ip.ir.by_q.get("htool::HMatrixTreeBuilder::build", []):
            if g["clst"] == B.cls and ("VirtualInternalGenerator" not in g["params"][0]["t"]) == user:
                H = ip.invoke(g, B, argcells([w.user if user else w.gen]))
                break
        else:
            raise Undecided("build")
        if len(seen) != 2 or seen[1][0] != "blocks":
            return r + [out_(None, "construction", "%d steps" % len(seen))]
        r += seen[0][1] + seen[1][1]
        if not isinstance(H, Obj):
            return r + [out_(None, "the matrix")]
        same = sym != "N"
        r.append(eq_(ip, H.f["m_symmetry"], sym if same else "N", "symmetry of the matrix"))
        r.append(eq_(ip, H.f["m_UPLO"], uplo if same else "N", "triangle of the matrix"))
        r.append(is_(val(ip, H.f["m_target_cluster"]), w.t, "rows of the matrix returned"))
        r.append(is_(val(ip, H.f["m_source_cluster"]), w.s, "columns of the matrix returned"))
        return r + [out_(False, "a valid construction is accepted", str(x)) for x in ip.logged]
    return B, argcells([w.t, w.s, Poly.atom("$epsilon"), Poly.atom("$eta"), sym, uplo, P("rq"), P(tp), P(sp)]), checks


def cases(ir):
    out = []
    for T in ("double", "std::complex<double>"):
        cx = "complex" in T

        def ctors(cls, n):
            return [f for f in fns(ir, "htool::%s::(ctor)" % cls) if f["clst"] == "htool::%s<%s>" % (cls, T) and len(f["params"]) == n]
        syms = [("N", "N"), ("S", "L"), ("S", "U")] + ([("H", "L")] if cx else [])

        def add(f, label, body, T=T):
            def setup(ip, f):
                s = Spec(ip, T)
                return body(ip, f, s)
            out.append(Case(f, label, setup, "complex" in T, PROP))
        for f in ctors("HMatrixTreeBuilder", 9) or [f for f in fns(ir, "htool::HMatrixTreeBuilder::(ctor)") if f["clst"] == "htool::HMatrixTreeBuilder<%s, double>" % T and len(f["params"]) == 9]:
            for sym, uplo in syms:
                for tp, sp in ((-1, -1), (0, 0), (1, 1), (1, -1)):
                    for cons in (True, False):
                        if sym != "N" and not cons:
                            continue
                        for user in (False, True):
                            def b(ip, f, s, sym=sym, uplo=uplo, tp=tp, sp=sp, cons=cons, user=user):
                                return block_builder(ip, f, s, s.T, sym, uplo, tp, sp, cons, user)
                            add(f, "symmetry=%s%s part=%d/%d consistent=%s%s" % (sym, uplo, tp, sp, cons, " generator in the caller's numbering" if user else ""), b)
        for rank in (0, 1):
            for sym, uplo in syms:
                for cls in ("DefaultApproximationBuilder", "DefaultLocalApproximationBuilder"):
                    for f in ctors(cls, 8):
                        user = "Internal" not in f["params"][0]["t"]

                        def b(ip, f, s, rank=rank, sym=sym, uplo=uplo, cls=cls, user=user):
                            w = World(ip, s.T, rank, sym != "N")
                            w.spec = s
                            o = Obj(f["clst"], "assembled")
                            local = "Local" in cls
                            tt, ss = (w.tk[rank], w.sk[rank]) if local else (w.t, w.s)

                            def checks(ip):
                                r = []
                                if len(w.built) != 1:
                                    return [out_(False, "the block tree is built once", "%d" % len(w.built))]
                                bf = w.built[0][1]
                                bo = lambda n: bf[n].o if isinstance(bf.get(n), PObj) else bf.get(n)
                                r += [is_(bo("m_target_root_cluster"), tt, "rows of the block tree"), is_(bo("m_source_root_cluster"), ss, "columns of the block tree")]
                                for n, v, nm in (("m_epsilon", Poly.atom("$epsilon"), "tolerance"), ("m_eta", Poly.atom("$eta"), "admissibility parameter"), ("m_symmetry_type", sym, "symmetry"), ("m_UPLO_type", uplo, "triangle"), ("m_target_partition_number", P(rank), "rows of this rank"), ("m_partition_number_for_symmetry", P(rank), "part for the symmetry")):
                                    if n in bf:
                                        if n == "m_target_partition_number" and local and ip.F.eq(P(bf[n]), P(-1)):
                                            continue        # the tree starts at the rows of this rank
                                        r.append(eq_(ip, bf[n], v, "%s of the block tree" % nm))
                                if "m_reqrank" in bf:
                                    rr = bf["m_reqrank"]
                                    r.append(out_(ip.F.nonneg(-1 - rr) if isinstance(rr, Poly) else None, "the ranks follow from the tolerance", str(rr)))
                                r += generator(w, w.built[0], user)
                                r += diagonal(w, o.f.get("block_diagonal_hmatrix"), w.H)
                                D = o.f.get("distributed_operator")
                                r += distributed(w, D.o if isinstance(D, PObj) else D, sym, uplo, None, w.tk[rank], ss)
                                r += [out_(False, p) for p in w.problems]
                                return r
                            args = [w.user if user else w.gen, w.t, w.s, Poly.atom("$epsilon"), Poly.atom("$eta"), sym, uplo, w.comm]
                            return o, argcells(args), checks
                        add(f, "rank=%d symmetry=%s%s%s" % (rank, sym, uplo, " generator in the caller's numbering" if user else ""), b)
                for f in ctors("DistributedOperatorFromHMatrix", 5):
                    user = "Internal" not in f["params"][0]["t"]
                    for local in (False, True):
                        def b(ip, f, s, rank=rank, sym=sym, uplo=uplo, user=user, local=local):
                            w = World(ip, s.T, rank, sym != "N")
                            w.spec = s
                            o = Obj(f["clst"], "assembled")
                            tt, ss = (w.tk[rank], w.sk[rank]) if local else (w.t, w.s)
                            B = mkbuilder(w, tt, ss, sym, uplo)

                            def checks(ip):
                                if len(w.built) != 1:
                                    return [out_(False, "the block tree is built once", "%d" % len(w.built))]
                                r = [is_(w.built[0][0], B, "the block tree is that of the caller's builder")]
                                r += generator(w, w.built[0], user)
                                r += diagonal(w, o.f.get("block_diagonal_hmatrix"), w.H)
                                D = o.f.get("distributed_operator")
                                r += distributed(w, D.o if isinstance(D, PObj) else D, sym, uplo, None, w.tk[rank], ss)
                                return r + [out_(False, p) for p in w.problems]
                            return o, argcells([w.user if user else w.gen, w.t, w.s, B, w.comm]), checks
                        add(f, "rank=%d symmetry=%s%s%s%s" % (rank, sym, uplo, " generator in the caller's numbering" if user else "", " tree on the part of this rank" if local else ""), b)
                for f in ctors("CustomApproximationBuilder", 6):
                    def b(ip, f, s, rank=rank, sym=sym, uplo=uplo):
                        w = World(ip, s.T, rank, sym != "N")
                        w.spec = s
                        o = Obj(f["clst"], "assembled")
                        L = Obj("htool::VirtualLocalOperator<%s>" % s.T, "operator", True)
                        L.tag["lop"] = True

                        def checks(ip):
                            D = o.f.get("distributed_operator")
                            return distributed(w, D.o if isinstance(D, PObj) else D, sym, uplo, L) + [out_(False, p) for p in w.problems]
                        return o, argcells([w.t, w.s, sym, uplo, w.comm, L]), checks
                    add(f, "rank=%d symmetry=%s%s" % (rank, sym, uplo), b)
    for f in fns(ir, "htool::ClusterTreeBuilder::set_minclustersize") + fns(ir, "htool::ClusterTreeBuilder::set_splitting_strategy") + fns(ir, "htool::ClusterTreeBuilder::set_direction_computation_strategy"):
        def b(ip, f):
            o = Obj(f["clst"], "builder")
            n = "m_" + f["q"].rsplit("::set_", 1)[1]
            olds = {}
            for k in ("m_splitting_strategy", "m_direction_computation_strategy"):
                o.f[k] = olds[k] = Smart(Obj("htool::Virtual", "former " + k, True))
            o.f["m_minclustersize"] = olds["m_minclustersize"] = P(10)
            a = P("n") if n == "m_minclustersize" else Smart(Obj("htool::Virtual", "new " + n, True))

            def checks(ip):
                r = []
                for k, v in olds.items():
                    x, w = o.f[k], a if k == n else v
                    if isinstance(w, Smart):
                        r.append(is_(x.t if isinstance(x, Smart) else x, w.t, "the strategy given last is used"))
                    else:
                        r.append(eq_(ip, x, w, "minimal size of a cluster"))
                return r
            return o, argcells([a]), checks
        out.append(Case(f, "", b, False, PROP, {"sized": False}))
    return out
