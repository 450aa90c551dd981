"""Values: a copy equals its original and shares nothing with it, a move hands over everything and leaves an
object that can be reused or destroyed, and every block of memory is released exactly once by its owner."""
from spec import *
from specs_dense import fns, scal_t, argcells

PROP = "C13"
CL = "htool::Cluster<double>"


def member(ir, q, clst, pred):
    return [f for f in fns(ir, q) if f["clst"] == clst and pred(f)]


def fields(ir, t):
    r = ir.rec_by_t.get(t)
    out = []
    for b in (r["bases"] if r else []):
        out += fields(ir, b["t"])
    return out + [(f["n"], f["t"]) for f in (r["fields"] if r else [])]


def out_(ok, what, detail="", where=""):
    if ok is None:
        return Outcome("undecided", what + (": " + detail if detail else ""))
    return Outcome("ok" if ok else "violation", what, where, detail)


# ------------------------------------------------------------------ matrices
def dtor(ip, T, o):
    for f in ip.ir.by_q.get("htool::Matrix::(dtor)", []):
        if f["clst"] == "htool::Matrix<%s>" % T and f["hasbody"]:
            ip.invoke(f, o, [])
            return
    raise Undecided("no destructor")


def view(s, name, r, c):
    """a Matrix over memory that belongs to the caller"""
    o = s.matrix(name, r, c, True)
    o.tag["buf"].may_free = False
    o.tag["buf"].owned = False
    o.f["m_is_owning_data"] = False
    return o


def owned(s, name, r, c, out=True):
    o = s.matrix(name, r, c, out)
    o.tag["buf"].owned = True
    s.ip.all_allocs.append((o.tag["buf"], None, 0))
    return o


def empty(s, name):
    o = Obj("htool::Matrix<%s>" % s.T, name)
    o.f = {"m_number_of_rows": ZERO, "m_number_of_cols": ZERO, "m_data": Ptr(None), "m_is_owning_data": True, "m_pivots": Vec(IBuf(name + ".pivots", ZERO, "zero"), ZERO)}
    return o


def bufof(o):
    p = o.f.get("m_data")
    return p.buf if isinstance(p, Ptr) else Unk("data")


def same_pivots(ip, v, w):
    if not isinstance(v, Vec) or not isinstance(w, Vec):
        return None
    if not ip.F.eq(v.size, w.size):
        return False
    if v.buf.entries == w.buf.entries and v.buf.src == w.buf.src and v.buf.base == w.buf.base:
        return True
    blank = isinstance(v.buf.base, Poly) or v.buf.base == "zero"
    if blank and not v.buf.entries and w.buf.base == "init" and not w.buf.entries and not ip.F.eq(w.size, ZERO):
        return False  # the number and the values of the original's pivots are free
    return None


def msnap(s, o):
    ip = s.ip
    got, b = s.final_matrix(o)
    return {"r": o.f["m_number_of_rows"], "c": o.f["m_number_of_cols"], "v": got, "piv": ip.copyval(o.f["m_pivots"]), "buf": bufof(o)}


def mequal(s, o, snap, what, pivots=True):
    ip = s.ip
    r, c = o.f.get("m_number_of_rows"), o.f.get("m_number_of_cols")
    res = [out_(None if is_unk(r) or is_unk(c) else ip.F.eq(r, snap["r"]) and ip.F.eq(c, snap["c"]), what + " has the shape of the original", "%s x %s instead of %s x %s" % (r, c, snap["r"], snap["c"]))]
    if res[0].status != "ok":
        return res
    b = bufof(o)
    if isinstance(b, Unk):
        return res + [out_(None, what)]
    if b is None:
        n = ip.F.norm(snap["r"] * snap["c"])
        return res + [out_(n.is_zero() or (False if ip.F.nonneg(n - 1) else None), what + " has values")]
    got, bf = s.final_matrix(o)
    res.append(s.compare(got, snap["v"], what + " has the values of the original", bf))
    if pivots:
        res.append(out_(same_pivots(ip, o.f["m_pivots"], snap["piv"]), what + " has the pivots of the original"))
    return res


def apart(o, p, what):
    a, b = bufof(o), bufof(p)
    return out_(None if isinstance(a, Unk) or isinstance(b, Unk) else a is None or a is not b, what + " does not share its storage with the original")


def theend(s, objs):
    """every object is destroyed: each owned block exactly once, the caller's never"""
    ip = s.ip
    for o in objs:
        dtor(ip, s.T, o)
    res = s.alarms()
    seen = set()
    for b, f, l in ip.all_allocs:
        if id(b) in seen:
            continue
        seen.add(id(b))
        if b.owned and not b.freed:
            n = ip.F.norm(P(b.size))
            if n.is_zero():
                continue
            res.append(out_(False if ip.F.nonneg(n - 1) else None, "no memory is lost", "%s (%s entries) is never released" % (b.name, n), ip.ir.loc(f, l) if f else ""))
    if not any(o.status != "ok" for o in res):
        res.append(out_(True, "every block is released exactly once"))
    return res


def fills(s, o, val, r, c, what):
    """all entries equal to the scalar"""
    ip = s.ip
    if not (ip.F.eq(o.f["m_number_of_rows"], P(r)) and ip.F.eq(o.f["m_number_of_cols"], P(c))):
        return [out_(False, what + ": shape", "%s x %s" % (o.f["m_number_of_rows"], o.f["m_number_of_cols"]))]
    if bufof(o) is None:
        return [out_(False, what + ": no storage")]
    got, b = s.final_matrix(o)
    return [s.compare(got, ip.A.norm(MatVal(P(r), P(c), {(ZERO, P(r), ZERO, P(c), (("ones", P(r), P(c)),)): val})), what, b)]


SHAPES = {
    "same shape": lambda s: owned(s, "X", "m", "n"),
    "transposed shape": lambda s: owned(s, "X", "n", "m"),
    "a larger shape": lambda s: owned(s, "X", P("m") + P("k"), "n"),
    "a smaller shape": lambda s: owned(s, "X", P("m") - 1, "n") if s.ip.F.add_ge0(P("m") - 2) is None else None,
    "empty": lambda s: empty(s, "X"),
    "view of the same shape": lambda s: view(s, "X", "m", "n"),
    "view of a larger shape": lambda s: view(s, "X", P("m") + P("k"), "n"),
    "view of a smaller shape": lambda s: view(s, "X", "m", P("n") - 1) if s.ip.F.add_ge0(P("n") - 2) is None else None,
}


def matrix_cases(ir):
    out = []
    for T in ("double", "std::complex<double>"):
        ct = "htool::Matrix<%s>" % T

        def add(f, label, body, T=T):
            def setup(ip, f):
                s = Spec(ip, T)
                ip.F.add_ge0(P("l") - 1)
                return body(ip, f, s)
            out.append(Case(f, label, setup, "complex" in T, PROP))
        for mv in (False, True):
            for f in member(ir, "htool::Matrix::(ctor)", ct, lambda f: f.get("movector" if mv else "copyctor")):
                for src in ("owning", "view"):
                    def b(ip, f, s, mv=mv, src=src):
                        A = owned(s, "A", "m", "n") if src == "owning" else view(s, "A", "m", "n")
                        snap = msnap(s, A)
                        B = Obj("htool::Matrix<%s>" % s.T, "B")

                        def checks(ip):
                            res = mequal(s, B, snap, "the new matrix")
                            if not mv:
                                res += mequal(s, A, snap, "the original") + [apart(B, A, "the copy"), out_(B.f["m_is_owning_data"] is True, "the copy owns its storage")]
                            return res + theend(s, [B, A])
                        return B, argcells([A]), checks
                    add(f, "%s of a matrix %s its data" % ("move" if mv else "copy", "owning" if src == "owning" else "not owning"), b)
            for f in member(ir, "htool::Matrix::operator=", ct, lambda f: f.get("moveasg" if mv else "copyasg")):
                for nm, mk in SHAPES.items():
                    for src in (("owning", "view") if mv else ("owning",)):
                        def b(ip, f, s, mv=mv, mk=mk, src=src, nm=nm):
                            A = owned(s, "A", "m", "n") if src == "owning" else view(s, "A", "m", "n")
                            X = mk(s)
                            snap = msnap(s, A)

                            def checks(ip):
                                res = mequal(s, X, snap, "the assigned matrix")
                                if not mv:
                                    res += mequal(s, A, snap, "the original") + [apart(X, A, "the copy")]
                                if not mv and nm == "view of the same shape":
                                    res += [out_(bufof(X) is X.tag["buf"], "a view keeps its storage")]
                                return res + theend(s, [X, A])
                            return X, argcells([A]), checks
                        add(f, "%s assignment to: %s%s" % ("move" if mv else "copy", nm, "" if src == "owning" else ", from a view"), b)

                def b(ip, f, s):
                    A = owned(s, "A", "m", "n")
                    snap = msnap(s, A)
                    return A, argcells([A]), lambda ip: mequal(s, A, snap, "the matrix") + theend(s, [A])
                add(f, "self assignment", b)
        # a moved-from matrix takes a new value
        mctor = member(ir, "htool::Matrix::(ctor)", ct, lambda f: f.get("movector"))
        masg = member(ir, "htool::Matrix::operator=", ct, lambda f: f.get("moveasg"))
        for how, g in [("construction", f) for f in mctor] + [("assignment", f) for f in masg]:
            def moved(ip, s, g=g, how=how):
                A = owned(s, "A", "m", "n")
                B = Obj("htool::Matrix<%s>" % s.T, "B") if how == "construction" else owned(s, "B", "k", "l")
                if how == "construction":
                    ip.construct(g, g["clst"], [Cell(A)], B)
                else:
                    ip.invoke(g, B, [Cell(A)])
                return A, B
            for f in member(ir, "htool::Matrix::operator=", ct, lambda f: f.get("copyasg")):
                for shape in (("m", "n"), ("k", "l")):
                    def b(ip, f, s, moved=moved, shape=shape):
                        D = owned(s, "D", *shape)
                        A, B = moved(ip, s)
                        snap = msnap(s, D)
                        return A, argcells([D]), lambda ip: mequal(s, A, snap, "the moved-from matrix assigned anew") + [apart(A, D, "the copy"), apart(A, B, "the copy")] + theend(s, [A, B, D])
                    add(f, "copy assignment to a matrix moved from by %s (%s)" % (how, shape[0]), b)
            for f in member(ir, "htool::Matrix::resize", ct, lambda f: True):
                for shape in (("m", "n"), ("k", "l")):
                    def b(ip, f, s, moved=moved, shape=shape):
                        A, B = moved(ip, s)
                        z = s.scalar("z")
                        return A, argcells([P(shape[0]), P(shape[1]), z]), lambda ip: fills(s, A, z, shape[0], shape[1], "the moved-from matrix resized") + theend(s, [A, B])
                    add(f, "resize of a matrix moved from by %s (%s)" % (how, shape[0]), b)
        for f in member(ir, "htool::Matrix::resize", ct, lambda f: True):
            for nm, mk in SHAPES.items():
                def b(ip, f, s, mk=mk):
                    X = mk(s)
                    z = s.scalar("z")
                    return X, argcells([P("m"), P("n"), z]), lambda ip: fills(s, X, z, "m", "n", "every entry has the value given") + theend(s, [X])
                add(f, "resize of: %s" % nm, b)
        for f in member(ir, "htool::Matrix::(ctor)", ct, lambda f: len(f["params"]) == 3):
            def b(ip, f, s):
                X = Obj("htool::Matrix<%s>" % s.T, "X")
                z = s.scalar("z")
                return X, argcells([P("m"), P("n"), z]), lambda ip: fills(s, X, z, "m", "n", "every entry has the value given") + theend(s, [X])
            add(f, "constructor with sizes", b)
        for f in member(ir, "htool::Matrix::operator=", ct, lambda f: not f.get("copyasg") and not f.get("moveasg")):
            def b(ip, f, s):
                X = owned(s, "X", "m", "n")
                z = s.scalar("z")
                return X, argcells([z]), lambda ip: fills(s, X, z, "m", "n", "every entry has the value given") + theend(s, [X])
            add(f, "assignment of a scalar", b)
        for f in member(ir, "htool::Matrix::assign", ct, lambda f: True):
            for nm, mk in SHAPES.items():
                for own in (True, False):
                    def b(ip, f, s, mk=mk, own=own):
                        X = mk(s)
                        d = s.ptr("d", P("m") * P("n"), True, hints=[("m", "n")])
                        d.owned, d.may_free = own, own
                        if own:
                            ip.all_allocs.append((d, None, 0))

                        def checks(ip):
                            F = ip.F
                            res = [out_(bufof(X) is d, "the matrix uses the memory given"), out_(F.eq(X.f["m_number_of_rows"], P("m")) and F.eq(X.f["m_number_of_cols"], P("n")), "the matrix has the shape given")]
                            got, bf = s.final_matrix(X)
                            return res + [s.compare(got, ip.A.view("d", View(ZERO, P("m"), P("n"), ONE, P("m"))), "the values are those given", d)] + theend(s, [X])
                        return X, argcells([P("m"), P("n"), Ptr(d), own]), checks
                    add(f, "assign %s memory to: %s" % ("owned" if own else "foreign", nm), b)
        for f in member(ir, "htool::Matrix::release", ct, lambda f: True):
            def b(ip, f, s):
                X = owned(s, "X", "m", "n")
                bf = X.tag["buf"]

                def checks(ip):
                    p = ip.retval
                    res = [out_(isinstance(p, Ptr) and p.buf is bf and ip.F.eq(p.off, ZERO), "the caller receives the data")]
                    got = ip.M.read(bf, View(ZERO, P("m"), P("n"), ONE, P("m")))
                    res.append(s.compare(got, ip.A.view("X", View(ZERO, P("m"), P("n"), ONE, P("m"))), "the data are unchanged", bf))
                    dtor(ip, s.T, X)
                    return res + [out_(not bf.freed, "the matrix no longer owns what it released")] + s.alarms()
                return X, [], checks
            add(f, "release", b)
    return out


# ------------------------------------------------------------------ trees
class Deep:
    """copies and comparisons of object graphs, field by field"""

    def __init__(self, ip, s, cutoff=()):
        self.ip, self.s, self.F = ip, s, ip.F

    def snap(self, v, t):
        if isinstance(v, Obj):
            if v.cls.startswith("htool::Matrix<"):
                return ("matrix", v, msnap(self.s, v))
            return ("obj", v, {n: self.snap(v.f.get(n), ft) for n, ft in fields(self.ip.ir, v.cls)} or dict(v.f))
        if isinstance(v, Smart):
            return ("smart", v, self.snap(v.t, "") if v.t is not None else None, "shared_ptr" in t)
        if isinstance(v, Coll):
            return ("coll", v, [self.snap(p[1], "") if p[0] == "one" else ("raw", p) for p in v.parts])
        if isinstance(v, Vec):
            return ("vec", v, self.ip.copyval(v))
        return ("val", v)

    def same(self, snap, v, path, mode):
        """mode: 'copy' (equal and apart) or 'move' (equal)"""
        k = snap[0]
        what = "%s is that of the original" % path
        if k == "val":
            a, b = snap[1], v
            if a is None and b is None:
                return [out_(True, what)]
            if is_unk(a) or is_unk(b):
                return [out_(None, what)]
            if isinstance(a, Poly) or isinstance(b, Poly):
                ok = isinstance(a, Poly) and isinstance(b, Poly) and self.F.eq(a, b)
            elif isinstance(a, PObj) and isinstance(b, PObj):
                ok = a.o is b.o
            elif type(a) is not type(b) and not (isinstance(a, (str, bool, int)) and isinstance(b, (str, bool, int))):
                return [out_(False if v is None else None, what, "%r instead of %r" % (b, a))]
            else:
                ok = a == b
            return [out_(ok, what, "%r instead of %r" % (b, a))]
        if k == "vec":
            if not isinstance(v, Vec):
                return [out_(None, what)]
            w = snap[2]
            if not self.F.eq(w.size, v.size):
                return [out_(False, what, "length %s instead of %s" % (v.size, w.size))]
            if isinstance(w.buf, IBuf):
                return [out_(same_pivots(self.ip, v, w), what)]
            vw = View(ZERO, w.size, ONE, ONE, ZERO)
            return [self.s.compare(self.ip.M.read(v.buf, vw), self.ip.M.read(w.buf, vw), what, v.buf)]
        if k == "matrix":
            if not isinstance(v, Obj):
                return [out_(None, what)]
            r = mequal(self.s, v, snap[2], path)
            if mode == "copy":
                r.append(apart(v, snap[1], path))
                r.append(out_(v.f.get("m_is_owning_data") is True, path + " owns its storage"))
            return r
        if k == "smart":
            if not isinstance(v, Smart):
                return [out_(None, what)]
            if snap[2] is None or v.t is None:
                return [out_(snap[2] is None and v.t is None, "%s is set exactly when it is in the original" % path)]
            if snap[3]:       # shared state: either the same object or an equal one
                if v.t is snap[2][1] and mode == "copy" and v.t.cls.startswith("htool::HMatrixTreeData"):
                    return [out_(False, path + " is not shared with the original")]
                if v.t is snap[2][1]:
                    return [out_(True, what)]
            elif mode == "copy" and v.t is snap[2][1]:
                return [out_(False, path + " is not shared with the original")]
            return self.same(snap[2], v.t, path, mode if not snap[3] else "move")
        if k == "coll":
            if not isinstance(v, Coll):
                return [out_(None, what)]
            if len(v.parts) != len(snap[2]):
                definite = all(p[0] == "one" for p in v.parts) and all(p[0] != "raw" for p in snap[2])
                return [out_(False if definite else None, "%s: as many as in the original" % path, "%d instead of %d" % (len(v.parts), len(snap[2])))]
            res = []
            for i, (p, q) in enumerate(zip(snap[2], v.parts)):
                if p[0] == "raw" or q[0] != "one":
                    res.append(out_(True if p[0] == "raw" and q == p[1] else None, what))
                else:
                    res += self.same(p, q[1], "%s[%d]" % (path, i), mode)
            return res
        if k == "obj":
            if not isinstance(v, Obj):
                return [out_(None, what)]
            if v.cls.startswith("std::map"):
                return [out_(v.name == snap[1].name or None, what)]
            res = []
            for n, w in snap[2].items():
                res += self.same(w, v.f.get(n), path + "." + n.replace("m_", "", 1), mode)
            return res
        raise Undecided("comparison")


def cluster(ip, name, depth=0, data=None, part=False):
    c = Obj(CL, name)
    td = data
    if td is None:
        td = Obj("htool::ClusterTreeData<double>", name + ".data")
        td.f = {"m_minclustersize": P("mcs_" + name), "m_max_depth": P("dmax_" + name), "m_min_depth": P("dmin_" + name), "m_is_permutation_local": False, "m_root_cluster": PObj(c), "m_clusters_on_partition": Coll([], name + ".parts", "const %s *" % CL)}
        td.f["m_permutation"] = Smart(Vec(IBuf(name + ".perm", P("N_" + name)), P("N_" + name)))
    c.f = {"m_radius": Poly.atom("$rad_" + name), "m_center": Vec(Buffer(name + ".center", P("dim"), "init"), P("dim")), "m_rank": P("rank_" + name), "m_offset": P("off_" + name), "m_size": P("N_" + name), "m_counter": P("cnt_" + name)}
    c.f.update({"m_depth": P(depth), "m_is_root": depth == 0, "m_tree_data": Smart(td), "m_children": Coll([], name + ".children", "std::unique_ptr<%s>" % CL)})
    for n in ("m_offset", "m_counter", "m_size"):
        ip.F.add_ge0(c.f[n])
    return c


def ctree(ip, name, rootpart=False):
    r = cluster(ip, name)
    td = r.f["m_tree_data"].t
    kids = [cluster(ip, name + "." + str(i), 1, td) for i in range(2)]
    r.f["m_children"] = Coll([("one", Smart(k)) for k in kids], name + ".children", "std::unique_ptr<%s>" % CL)
    td.f["m_clusters_on_partition"] = Coll([("one", PObj(k)) for k in ([r] if rootpart else kids)], name + ".parts", "const %s *" % CL)
    return r, kids


def hmat(ip, s, name, T, tc, sc, depth, kind, kids=(), data=None, sym="N"):
    ht = "htool::HMatrix<%s, double>" % T
    o = Obj(ht, name)
    if data is None:
        data = Obj("htool::HMatrixTreeData<%s, double>" % T, name + ".data")
        for n, t in fields(ip.ir, data.cls):
            if strip_t(t) in ("double",):
                data.f[n] = Poly.atom("$%s.%s" % (name, n))
            elif strip_t(t) in INT_T:
                data.f[n] = P("%s.%s" % (name, n))
            elif strip_t(t) == "bool":
                data.f[n] = True
            elif "shared_ptr" in t:
                data.f[n] = Smart(Obj("opaque", name + "." + n, True))
            else:
                data.f[n] = Obj(strip_t(t), name + "." + n, True)
    # letters that no default produces, different in every node
    o.f = {"m_target_cluster": PObj(tc), "m_source_cluster": PObj(sc), "m_symmetry": sym, "m_UPLO": "U" if sym != "N" else "N", "m_symmetry_type_for_leaves": sym, "m_UPLO_for_leaves": "L" if depth else "U"}
    o.f["m_storage_type"] = {"dense": STORAGE(ip, "Dense"), "low rank": STORAGE(ip, "LowRank"), "tree": STORAGE(ip, "Hierarchical")}[kind]
    o.f["m_dense_data"] = Smart(None)
    o.f["m_low_rank_data"] = Smart(None)
    m, n = tc.f["m_size"], sc.f["m_size"]
    if kind == "dense":
        o.f["m_dense_data"] = Smart(owned(s, name + ".D", m, n))
    if kind == "low rank":
        L = s.lowrank(name + ".L", m, n, name + "rk", True)
        for x in ("m_U", "m_V"):
            L.f[x].tag["buf"].owned = True
        o.f["m_low_rank_data"] = Smart(L)
    o.f.update({"m_depth": P(depth), "m_is_root": depth == 0, "m_tree_data": Smart(data), "m_children": Coll([("one", Smart(k)) for k in kids], name + ".children", "std::unique_ptr<%s>" % ht)})
    return o


def STORAGE(ip, n):
    return Sym("enum:htool::HMatrix::" + n)


def htree(ip, s, T, name, kind, sym="S"):
    tr, tk = ctree(ip, name + "t")
    if kind != "tree":
        return hmat(ip, s, name, T, tr, tr, 0 if name == "X" else 2, kind, sym=sym)
    r0 = Obj("htool::HMatrixTreeData<%s, double>" % T, "x")
    a = hmat(ip, s, name + "0", T, tk[0], tk[0], 1, "dense", sym=sym)
    data = a.f["m_tree_data"].t
    b = hmat(ip, s, name + "1", T, tk[1], tk[0], 1, "low rank", data=data, sym=sym)
    c0 = hmat(ip, s, name + "20", T, tk[1], tk[1], 2, "dense", data=data, sym=sym)
    c1 = hmat(ip, s, name + "21", T, tk[1], tk[1], 2, "low rank", data=data, sym="N")
    c = hmat(ip, s, name + "2", T, tk[1], tk[1], 1, "tree", (c0, c1), data, sym=sym)
    return hmat(ip, s, name, T, tr, tr, 0, "tree", (a, b, c), data, sym=sym)


def bodies(o, acc=None):
    """everything an hmatrix owns"""
    acc = [] if acc is None else acc
    acc.append(o)
    for p in o.f["m_children"].parts:
        bodies(p[1].t, acc)
    for n in ("m_dense_data", "m_low_rank_data"):
        if o.f[n].t is not None:
            acc.append(o.f[n].t)
    return acc


def hmatrix_cases(ir):
    out = []
    for T in ("double", "std::complex<double>"):
        ct = "htool::HMatrix<%s, double>" % T

        def add(f, label, body, T=T):
            def setup(ip, f):
                s = Spec(ip, T)
                return body(ip, f, s)
            out.append(Case(f, label, setup, "complex" in T, PROP, {"sized": False}))
        kinds = ("dense", "low rank", "tree")
        for q, sel, mode in (("(ctor)", "copyctor", "copy"), ("(ctor)", "movector", "move"), ("operator=", "copyasg", "copy"), ("operator=", "moveasg", "move")):
            for f in member(ir, "htool::HMatrix::" + q, ct, lambda f: f.get(sel)):
                for kind in kinds:
                    for old in ((None,) if q == "(ctor)" else kinds):
                        def b(ip, f, s, T=T, kind=kind, old=old, mode=mode):
                            A = htree(ip, s, T, "A", kind)
                            X = Obj("htool::HMatrix<%s, double>" % T, "X") if old is None else htree(ip, s, T, "X", old, "N")
                            d = Deep(ip, s)
                            snap = d.snap(A, "")
                            mine = set(map(id, bodies(A)))

                            def checks(ip):
                                res = d.same(snap, X, "the result", mode)
                                if mode == "copy":
                                    res += d.same(snap, A, "the original", "move")
                                    res.append(out_(not any(id(o) in mine for o in bodies(X)), "the copy shares no block with the original"))
                                else:
                                    left = [o for o in bodies(A)[1:]]
                                    res.append(out_(not any(any(o is p for p in bodies(X)) for o in left), "a block has one owner after a move"))
                                return res + s.alarms()
                            return X, argcells([A]), checks
                        add(f, "%s of a %s hmatrix%s" % (mode, kind, "" if old is None else " over a %s one" % old), b)
    return out


def cluster_cases(ir):
    out = []
    for q, sel in (("(ctor)", "movector"), ("operator=", "moveasg")):
        for f in member(ir, "htool::Cluster::" + q, CL, lambda f: f.get(sel)):
            for what in ("root", "root on the partition", "child"):
                def b(ip, f, what=what, sel=sel):
                    s = Spec(ip, "double")
                    r, kids = ctree(ip, "A", what != "root")
                    src = r if what != "child" else kids[0]
                    if what == "child":
                        r.f["m_tree_data"].t.f["m_clusters_on_partition"] = Coll([("one", PObj(k)) for k in kids], "parts", "const %s *" % CL)
                    td = r.f["m_tree_data"].t
                    X = Obj(CL, "X") if sel == "movector" else ctree(ip, "X")[0]
                    d = Deep(ip, s)
                    keep = {n: d.snap(src.f[n], t) for n, t in fields(ip.ir, CL) if n != "m_tree_data"}
                    names = ("m_minclustersize", "m_max_depth", "m_min_depth", "m_is_permutation_local")
                    data = {n: td.f[n] for n in names}
                    perm = td.f["m_permutation"].t
                    newroot = X if what != "child" else r
                    newparts = {"root": kids, "root on the partition": [X], "child": [X, kids[1]]}[what]

                    def checks(ip):
                        res = []
                        for n, w in keep.items():
                            res += d.same(w, X.f.get(n), "the moved cluster." + n.replace("m_", "", 1), "move")
                        sm = X.f.get("m_tree_data")
                        if not isinstance(sm, Smart) or sm.t is not td:
                            return res + [out_(None if not isinstance(sm, Smart) else False, "the tree's data go with the cluster")]
                        for n in names:
                            res += d.same(("val", data[n]), td.f.get(n), "the tree's " + n, "move")
                        res.append(out_(isinstance(td.f["m_permutation"], Smart) and td.f["m_permutation"].t is perm, "the renumbering goes with the tree"))
                        rt = td.f.get("m_root_cluster")
                        res.append(out_(isinstance(rt, PObj) and rt.o is newroot, "the tree knows its root", "the root recorded is not the object the tree now lives in"))
                        ps = td.f["m_clusters_on_partition"]
                        got = [p[1].o if p[0] == "one" and isinstance(p[1], PObj) else None for p in ps.parts]
                        ok = len(got) == len(newparts) and all(a is b for a, b in zip(got, newparts))
                        res.append(out_(ok if all(p[0] == "one" for p in ps.parts) else None, "the tree knows its clusters on the partition", "an entry is not the cluster that is in the tree"))
                        return res + s.alarms()
                    return X, argcells([src]), checks
                out.append(Case(f, "move of a %s" % what, b, False, PROP, {"sized": False}))
    return out


def lr_cases(ir):
    out = []
    for T in ("double", "std::complex<double>"):
        ct = "htool::LowRankMatrix<%s, double>" % T
        for q in ("(ctor)", "operator="):
            for f in fns(ir, "htool::LowRankMatrix::" + q):
                if f["clst"] != ct or not any(f.get(k) for k in ("copyctor", "movector", "copyasg", "moveasg")):
                    continue
                mode = "copy" if f.get("copyctor") or f.get("copyasg") else "move"

                def b(ip, f, T=T, mode=mode, q=q):
                    s = Spec(ip, T)
                    A = s.lowrank("A", "m", "n", "r", True)
                    X = Obj(f["clst"], "X") if q == "(ctor)" else s.lowrank("X", "k", "l", "rx", True)
                    d = Deep(ip, s)
                    snap = d.snap(A, "")
                    return X, argcells([A]), lambda ip: d.same(snap, X, "the result", mode) + (d.same(snap, A, "the original", "move") if mode == "copy" else []) + s.alarms()
                out.append(Case(f, "%s of a low-rank block" % mode, b, "complex" in T, PROP, {"sized": False}))
    return out


def cases(ir):
    return matrix_cases(ir) + hmatrix_cases(ir) + cluster_cases(ir) + lr_cases(ir)
