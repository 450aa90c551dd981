"""Building a hierarchical matrix: the leaves (with the mirrored half of symmetric blocks) tile the requested rows
and columns exactly once, and every leaf holds the generator's entries at its own place."""
from specs_export import *
import itertools

PROP = "C10"
CONST = [{"ta": 2, "tb": 3, "tc": 1, "td": 2, "te": 4, "sa": 3, "sb": 1, "sc": 2, "sd": 2, "se": 3}, {"ta": 3, "tb": 1, "tc": 2, "td": 2, "te": 2, "sa": 2, "sb": 2, "sc": 3, "sd": 1, "se": 4}]


class Built(ETree):
    def contracts(self):
        return {"htool::VirtualInternalGenerator::copy_submatrix": self.c_gen,
                "htool::VirtualGenerator::copy_submatrix": self.c_user,
                "htool::VirtualLowRankGenerator::copy_low_rank_approximation": self.c_lr,
                "htool::VirtualAdmissibilityCondition::ComputeAdmissibility": self.c_adm,
                "htool::VirtualDenseBlocksGenerator::copy_dense_blocks": self.c_blocks}

    def setup(self, adm, fails, gen):
        self.adm, self.fails, self.gen = adm, fails, gen
        self.problems = []
        self.asked = 0

    gname = "G"

    def G(self, r0, r, c0, c):
        return self.ip.A.of_factor(("H", self.gname, P(r0), P(r), P(c0), P(c), "N"))

    def args(self, a):
        return [self.ip.lget(x) if isinstance(x, (Cell, tuple)) else x for x in a]

    def c_gen(self, ip, f, obj, args, e):
        M, N, r0, c0, p = self.args(args)
        if obj is not self.gen and isinstance(obj, Obj) and "Zero" in obj.cls:
            return NotImplemented
        if any(is_unk(x) for x in (M, N, r0, c0)) or not isinstance(p, Ptr):
            raise Undecided("generator call")
        self.asked += 1
        if p.buf is None:
            if not (ip.F.eq(M, ZERO) or ip.F.eq(N, ZERO)):
                self.problems.append("the generator is asked to write to a null array")
            return None
        ip.M.write(p.buf, View(p.off, M, N, ONE, M), self.G(r0, M, c0, N), (ip.stack[-1] if ip.stack else None, e["l"]))
        return None

    def c_user(self, ip, f, obj, args, e):
        M, N, rows, cols, p = self.args(args)
        if any(is_unk(x) for x in (M, N, rows, cols)) or not all(isinstance(x, Ptr) for x in (rows, cols, p)):
            raise Undecided("generator call")
        if rows.buf is not self.perms[0] or cols.buf is not self.perms[1]:
            self.problems.append("the caller's generator is asked for rows %s and columns %s" % (rows.buf.name, cols.buf.name))
            return None
        if p.buf is not None:
            ip.M.write(p.buf, View(p.off, M, N, ONE, M), self.G(rows.off, M, cols.off, N), (ip.stack[-1] if ip.stack else None, e["l"]))
        return None

    def c_adm(self, ip, f, obj, args, e):
        t, s, eta = self.args(args)[:3]
        t, s = [x.o if isinstance(x, PObj) else x for x in (t, s)]
        if not ip.F.eq(P(eta), Poly.atom("$eta")):
            self.problems.append("the admissibility parameter is not the caller's")
        return self.adm(t, s)

    def c_lr(self, ip, f, obj, args, e):
        A, t, s, eps, rank, U, V = self.args(args)
        t, s = [x.o if isinstance(x, PObj) else x for x in (t, s)]
        if self.user:
            if not isinstance(A, Obj) or "InternalGeneratorWithPermutation" not in A.cls or A.f.get("m_generator_in_user_numbering") is not self.gen:
                self.problems.append("the low-rank approximation is built from another operator")
            else:
                for k, w in zip(("m_target_permutation", "m_source_permutation"), self.perms):
                    q = A.f.get(k)
                    if isinstance(q, Ptr) and (q.buf is not w or not ip.F.eq(q.off, ZERO)):
                        self.problems.append("%s is %s" % (k, q.buf.name))
        elif A is not self.gen:
            self.problems.append("the low-rank approximation is built from another operator")
        if not ip.F.eq(P(eps), Poly.atom("$epsilon")):
            self.problems.append("the tolerance of the approximation is not the caller's")
        if not ip.F.eq(P(rank), P("reqrank")):
            self.problems.append("the requested rank is not passed on")
        if self.fails(t, s):
            return False if "bool" in f["ret"] else None
        m, n = t.f["m_size"], s.f["m_size"]
        k = ip.fresh("rank")
        ip.F.add_ge0(Poly.atom(k))
        Ub, Vb = K.new_matrix(ip, U, m, P(k), "rU"), K.new_matrix(ip, V, P(k), n, "rV")
        ip.A.pairs[(Ub.name, Vb.name)] = (ip.F.norm(m), ip.F.norm(n), P(k), ip.A.norm(self.G(t.f["m_offset"], m, s.f["m_offset"], n)))
        return True if "bool" in f["ret"] else None

    def c_blocks(self, ip, f, obj, args, e):
        v = self.args(args)
        n = ip.coll_size(v[4]) if isinstance(v[4], Coll) else None
        if not isinstance(n, Poly) or not n.is_const():
            raise Undecided("dense blocks")
        for x in v[:4]:
            if not ip.F.eq(x.size, n):
                self.problems.append("the lists passed to the generator of dense blocks differ in length")
                return None
        for k in range(int(n.const_value())):
            M, N, r0, c0, p = [ip.lget(ip.index_lv(x, P(k))) for x in v]
            if any(is_unk(x) for x in (M, N, r0, c0)) or not isinstance(p, Ptr):
                raise Undecided("dense blocks")
            if p.buf is None:
                self.problems.append("a block to be generated has no storage")
                continue
            ip.M.write(p.buf, View(p.off, M, N, ONE, M), self.G(r0, M, c0, N), (ip.stack[-1] if ip.stack else None, e["l"]))
        return None


def paths(c, pre=()):
    """elementary clusters below c"""
    k = c.tag["kids"]
    return [c] if not k else [x for y in k for x in paths(y)]


def ancestors(root, c):
    """is c below root"""
    return root is c or any(ancestors(k, c) for k in root.tag["kids"])


def ranks(c, r, inpart=False):
    """process numbers: -1 above the partition"""
    c.f["m_rank"] = P(r)
    for k in c.tag["kids"]:
        ranks(k, r)


SHAPES = {
    "flat2": ["a", "b"],
    "flat3": ["a", "b", "c"],
    "deep": [["a", "b"], ["c", "d"]],
    "uneven": ["a", ["b", "c"]],
    "leaf": "a",
    "deep3": [["a", "b"], ["c", "d"], "e"],
    "part3": [[["a", "b"], "c"], ["d", "e"]],
    "two": [[["a", "b"], "c"], ["d", "e"]],      # two levels above four parts
    "one4": [["a", "b"], "c", "d", "e"],
    "skew": [["a", "b"], ["c", ["d", "e"]]],
}


def rename(sh, pre, k):
    if isinstance(sh, list):
        return [rename(x, pre, k) for x in sh]
    return pre + sh if k is None else CONST[k][pre + sh]


def related(t, s):
    """one contains the other"""
    return ancestors(t, s) or ancestors(s, t)


LEVELS = {"two": 2}

ADM = {
    "never": lambda same: lambda t, s: False,
    "always": lambda same: lambda t, s: True,
    "offdiag": lambda same: (lambda t, s: not related(t, s)) if same else (lambda t, s: path(t) != path(s)),
    "mixed": lambda same: lambda t, s: not (same and related(t, s)) and (sum(map(ord, t.name + s.name)) % 3 != 0) and t.f["m_depth"] != ZERO,
}


def path(c):
    return c.name[c.name.index("["):] if "[" in c.name else ""


def one(ip, f, T, shT, shS, k, parts, admn, failn="no", sg="N", uplo="N", tp=-1, sp=-1, consistent=True, mind=(0, 0), blocks=False, again=False):
    """parts: 'no' (everything on one process), 'yes' (one part per child of the root) or 'one' (the clusters of one part)"""
    s = Spec(ip, T)
    tr = Built(ip, s, T)
    t = tr.clus("T", "T0", rename(SHAPES[shT], "t", k))
    same = shS is None
    c = t if same else tr.clus("S", "S0", rename(SHAPES[shS], "s", k))
    t.tag["shape"], c.tag["shape"] = shT, shT if same else shS
    for x in {id(t): t, id(c): c}.values():
        x.tag["parts"] = [x]
        if parts != "no" and x.tag["kids"]:
            lv = [x]
            for _ in range(LEVELS.get(x.tag["shape"], 1)):
                for y in lv:
                    y.f["m_rank"] = P(-1)
                lv = [z for y in lv for z in y.tag["kids"]]
            for i, y in enumerate(lv):
                ranks(y, i)
            x.tag["parts"] = lv
            x.f["m_tree_data"].t.f["m_clusters_on_partition"] = Coll([("one", PObj(y)) for y in lv], x.name + ".parts", "const htool::Cluster<double> *")
        else:
            ranks(x, 0)
            x.f["m_tree_data"].t.f["m_clusters_on_partition"] = Coll([("one", PObj(x))], x.name + ".parts", "const htool::Cluster<double> *")
        x.f["m_tree_data"].t.f["m_permutation"] = Smart(perms.declare(ip, x.name + "perm", [(x.f["m_offset"], x.f["m_size"])], x.f["m_offset"] + x.f["m_size"]))
    if parts == "one":
        ps = [x.tag["parts"] for x in (t, c)]
        t, c = [x.tag["parts"][0] for x in (t, c)]
        t.tag["parts"], c.tag["parts"] = [t], [c]
    o = Obj("htool::HMatrixTreeBuilder<%s, double>" % T, "builder", True)
    tr.user = "VirtualInternalGenerator" not in str(f["params"])
    gen = Obj("htool::%s<%s>" % ("VirtualGenerator" if tr.user else "VirtualInternalGenerator", T), "gen", True)
    tr.perms = [x.f["m_tree_data"].t.f["m_permutation"].t.buf if isinstance(x.f["m_tree_data"].t.f["m_permutation"], Smart) else None for x in (t, c)]
    tr.setup(ADM[admn](same), {"no": lambda a, b: False, "some": lambda a, b: sum(map(ord, a.name + b.name)) % 2 == 0, "all": lambda a, b: True}[failn], gen)
    o.f["m_target_root_cluster"], o.f["m_source_root_cluster"] = t, c
    o.f["m_epsilon"], o.f["m_eta"] = Poly.atom("$epsilon"), Poly.atom("$eta")
    o.f["m_minsourcedepth"], o.f["m_mintargetdepth"] = P(mind[1]), P(mind[0])
    o.f["m_reqrank"] = P("reqrank")
    ip.F.add_ge0(P("reqrank") - 1)
    o.f["m_target_partition_number"] = P(tp)
    o.f["m_symmetry_type"], o.f["m_UPLO_type"] = sg, uplo
    o.f["m_partition_number_for_symmetry"] = P(sp)
    o.f["m_admissible_tasks"] = Coll([], "admissible", tr.ht + " *")
    o.f["m_dense_tasks"] = Coll([], "dense", tr.ht + " *")
    o.f["m_false_positive"] = ZERO
    o.f["m_low_rank_generator"] = Smart(Obj("htool::VirtualLowRankGenerator<%s, double>" % T, "lrgen", True))
    o.f["m_admissibility_condition"] = Smart(Obj("htool::VirtualAdmissibilityCondition<double>", "adm", True))
    o.f["m_dense_blocks_generator"] = Smart(Obj("htool::VirtualDenseBlocksGenerator<%s>" % T, "blocks", True) if blocks else None)
    o.f["m_is_block_tree_consistent"] = consistent
    rows = t if tp < 0 else t.tag["parts"][tp]

    def checks(ip):
        if ip.logged:
            return [Outcome("violation", "a valid construction is reported as an error: %s" % (ip.logged[0],))]
        H = ip.retval
        if not isinstance(H, Obj):
            return [Outcome("undecided", "no matrix returned: %s" % H)]
        r = [Outcome("violation", p) for p in tr.problems] + inspect(ip, tr, s, H, t, c, rows, sg, consistent, mind)
        if again:
            # another operator through the same builder: its own matrix, and the first one stays as it is
            tr.gname, tr.gen = "G2", Obj("htool::%s<%s>" % ("VirtualGenerator" if tr.user else "VirtualInternalGenerator", T), "gen2", True)
            H2 = ip.invoke(f, o, argcells([tr.gen]))
            if not isinstance(H2, Obj):
                return r + [Outcome("undecided", "no matrix returned: %s" % H2)]
            r += [Outcome("violation", p) for p in tr.problems] + inspect(ip, tr, s, H2, t, c, rows, sg, consistent, mind)
            tr.gname = "G"
            for x in inspect(ip, tr, s, H, t, c, rows, sg, consistent, mind):
                x.what = "after a second construction with the same builder: " + x.what
                r.append(x)
        return r
    return o, argcells([gen]), checks


def kids(h):
    c = h.f["m_children"]
    if not isinstance(c, Coll) or any(p[0] != "one" for p in c.parts):
        raise Undecided("children of %s" % h.name)
    r = [p[1].t if isinstance(p[1], Smart) else p[1] for p in c.parts]
    if not all(isinstance(x, Obj) for x in r):
        raise Undecided("children of %s: %s" % (h.name, r))
    return r


def clusters(h):
    r = []
    for k in ("m_target_cluster", "m_source_cluster"):
        v = h.f.get(k)
        v = v.o if isinstance(v, PObj) else v
        if not isinstance(v, Obj):
            raise Undecided("cluster of %s: %s" % (h.name, v))
        r.append(v)
    return r


def inspect(ip, tr, s, H, t, c, rows, sg, consistent, mind):
    out = []
    seen = {}
    F, A = ip.F, ip.A

    def bad(what, h):
        tc, sc = clusters(h)
        out.append(Outcome("violation", what, "", "block %s x %s" % (tc.name, sc.name), key=None) if False else Outcome("violation", what, "", "block %s x %s" % (tc.name, sc.name)))
    tc, sc = clusters(H)
    if tc is not rows or sc is not c:
        return [Outcome("violation", "the matrix is %s x %s instead of %s x %s" % (tc.name, sc.name, rows.name, c.name))]
    mirrored = []

    def go(h, symanc):
        tc, sc = clusters(h)
        sym = h.f["m_symmetry"]
        if is_unk(sym):
            raise Undecided("symmetry of a block")
        if sym not in ("N", sg):
            bad("a block has another symmetry than the matrix", h)
        if sym != "N" and tc is not sc:
            bad("a block away from the diagonal is marked symmetric", h)
        ks = kids(h)
        if not ks:
            leaf(h, tc, sc, symanc or sym != "N")
        for k in ks:
            kt, ks_ = clusters(k)
            if not ancestors(tc, kt) or not ancestors(sc, ks_):
                bad("a child is outside of its parent", k)
            go(k, symanc or sym != "N")

    def leaf(h, tc, sc, symanc):
        if not any(ancestors(p, tc) for p in t.tag["parts"]):
            bad("the rows of a leaf belong to several processes", h)
        if consistent and not any(ancestors(p, sc) for p in c.tag["parts"]):
            bad("the columns of a leaf belong to several processes", h)
        st = h.f.get("m_storage_type")
        kind = st.name.split("::")[-1] if isinstance(st, Sym) else None
        d, l = h.f.get("m_dense_data"), h.f.get("m_low_rank_data")
        d = d.t if isinstance(d, Smart) else d
        l = l.t if isinstance(l, Smart) else l
        want = tr.G(tc.f["m_offset"], tc.f["m_size"], sc.f["m_offset"], sc.f["m_size"])
        if kind == "Dense" and isinstance(d, Obj):
            r, n = K.mat_dims(d)
            if isinstance(r, Poly) and isinstance(n, Poly) and not (F.eq(r, tc.f["m_size"]) and F.eq(n, sc.f["m_size"])):
                bad("a dense leaf has not the size of its block", h)
            else:
                out.append(s.compare(K.mat_value(ip, d), want, "a dense leaf holds the generator's block at its place"))
            if isinstance(l, Obj):
                bad("a dense leaf keeps low-rank data", h)
        elif kind == "LowRank" and isinstance(l, Obj):
            r, n = K.mat_dims(l.f["m_U"])[0], K.mat_dims(l.f["m_V"])[1]
            if isinstance(r, Poly) and isinstance(n, Poly) and not (F.eq(r, tc.f["m_size"]) and F.eq(n, sc.f["m_size"])):
                bad("a low-rank leaf has not the size of its block", h)
            else:
                out.append(s.compare(K.lr_value(ip, l), want, "a low-rank leaf approximates the generator's block at its place"))
            if not tr.adm(tc, sc):
                bad("a block that is not admissible is approximated", h)
            if tc.f["m_depth"].const_value() < mind[0] or sc.f["m_depth"].const_value() < mind[1]:
                bad("a block above the minimal depth is approximated", h)
        else:
            if st is not None and not is_unk(st) and kind in ("Dense", "LowRank", "Hierarchical"):
                bad("a leaf holds no data", h)
            else:
                raise Undecided("storage of a leaf: %s" % st)
        for a in paths(tc):
            for b in paths(sc):
                seen.setdefault((id(a), id(b)), []).append((h, "stored"))
        if symanc and not F.eq(tc.f["m_offset"], sc.f["m_offset"]):
            mirrored.append(h)
            for a in paths(tc):
                for b in paths(sc):
                    seen.setdefault((id(b), id(a)), []).append((h, "mirrored"))
    go(H, False)
    for a in paths(rows):
        for b in paths(c):
            k = seen.pop((id(a), id(b)), [])
            if len(k) == 0:
                out.append(Outcome("violation", "no leaf covers part of the matrix", "", "block %s x %s" % (a.name, b.name)))
            elif len(k) > 1:
                out.append(Outcome("violation", "several leaves cover the same part of the matrix", "", "block %s x %s" % (a.name, b.name)))
            else:
                out.append(Outcome("ok", "every entry is covered once"))
    if seen:
        out.append(Outcome("violation", "a leaf lies outside of the matrix", "", ""))
    sfl = H.f["m_symmetry_type_for_leaves"]
    if sg != "N":
        if is_unk(sfl):
            out.append(Outcome("undecided", "symmetry for leaves"))
        elif mirrored and sfl != sg:
            out.append(Outcome("violation", "the matrix stores half of a symmetric block but does not say so"))
        else:
            out.append(Outcome("ok", "symmetry is recorded"))
    return out + s.alarms()


def cases(ir):
    out = []
    for f in fns(ir, "htool::HMatrixTreeBuilder::build"):
        user = "VirtualInternalGenerator" not in str(f["params"])
        T = "std::complex<double>" if "std::complex<double>" in str(f["params"]) else "double"
        cx = "complex" in T
        todo = []

        def add(shT, shS, k, parts, adm, **kw):
            todo.append((shT, shS, k, parts, adm, kw))
        for shT, shS in (("flat2", "flat3"), ("leaf", "flat2"), ("uneven", "leaf"), ("flat2", None)):
            for adm in ADM:
                for parts in ("no", "yes"):
                    for cons in (True, False):
                        add(shT, shS, None, parts, adm, consistent=cons)
        for shT, shS, k in (("deep", "uneven", 0), ("deep3", "part3", 1), ("uneven", "deep", 1), ("deep", None, 0), ("part3", "part3", 0), ("part3", None, 1)):
            for adm in ("never", "offdiag", "mixed"):
                for cons in (True, False):
                    add(shT, shS, k, "no", adm, consistent=cons)
                    add(shT, shS, k, "yes", adm, consistent=cons)
                    for tp in range(len(SHAPES[shT])):
                        add(shT, shS, k, "yes", adm, consistent=cons, tp=tp)
                    add(shT, shS, k, "one", adm, consistent=cons)
        for sg in ("SH" if cx else "S"):
            for uplo in "LU":
                for sh in ("leaf", "flat2", "flat3", "uneven", "deep", "part3"):
                    for adm in ("never", "offdiag", "mixed"):
                        add(sh, None, None, "no", adm, sg=sg, uplo=uplo)
                        if sh == "leaf":
                            continue
                        add(sh, None, None, "yes", adm, sg=sg, uplo=uplo)
                        add(sh, None, None, "one", adm, sg=sg, uplo=uplo)
                        for p in range(len(SHAPES[sh])):
                            add(sh, None, None, "yes", adm, sg=sg, uplo=uplo, tp=p, sp=p)
        if user:
            todo = [x for i, x in enumerate(todo) if i % 7 == 0]
        else:
            for a, b_ in (("two", "one4"), ("one4", "two"), ("two", "two"), ("skew", "two"), ("two", "skew"), ("one4", "one4"), ("two", "leaf"), ("leaf", "two")):
                np_ = 4 if "skew" not in (a, b_) else 2
                for adm in ADM:
                    for cons in (True, False):
                        add(a, b_, 0, "yes", adm, consistent=cons)
                        for tp in range({"skew": 2, "leaf": 1}.get(a, 4)):
                            add(a, b_, 1, "yes", adm, consistent=cons, tp=tp)
            for sg in ("SH" if cx else "S"):
                for uplo in "LU":
                    for adm in ADM:
                        add("two", None, None, "yes", adm, sg=sg, uplo=uplo)
                        for tp in range(4):
                            add("two", None, None, "yes", adm, sg=sg, uplo=uplo, tp=tp, sp=tp)
        for fail in ("some", "all"):
            add("deep", "uneven", 0, "no", "offdiag", failn=fail)
            add("flat2", "flat3", None, "no", "always", failn=fail)
            add("deep", None, None, "no", "offdiag", failn=fail, sg="S", uplo="L")
        for fail in ("no", "some"):
            add("deep", "uneven", 0, "no", "offdiag", failn=fail, again=True)
            add("flat2", None, None, "yes", "offdiag", failn=fail, again=True, sg="S", uplo="L")
            add("deep", "uneven", 0, "yes", "mixed", failn=fail, again=True, blocks=True)
        for md in ((1, 0), (0, 1), (2, 0), (0, 2), (1, 1)):
            add("deep", "uneven", 0, "no", "always", mind=md)
        for fail in ("no", "some"):
            add("deep", "uneven", 0, "no", "offdiag", failn=fail, blocks=True)
            add("flat2", "flat3", None, "no", "never", failn=fail, blocks=True)
            add("flat2", "flat3", None, "no", "always", failn=fail, blocks=True)
            add("deep", None, None, "yes", "offdiag", failn=fail, blocks=True, sg="S", uplo="U", tp=1, sp=1)
        for i, x in enumerate(todo):
            lab = " ".join(map(str, x[:5])) + " " + " ".join("%s=%s" % kv for kv in x[5].items())

            def b(ip, f, T=T, x=x):
                return one(ip, f, T, *x[:5], **x[5])
            out.append(Case(f, lab, b, cx, PROP, {"sized": False, "thorough": cx and x[5].get("sg") != "H"}))
    return out
