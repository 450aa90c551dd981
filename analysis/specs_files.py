"""Files: what the library writes is what it reads back."""
from spec import *
from specs_dense import fns, argcells
from specs_value import out_, fields
from textio import Text, TStr, Num, Raw

PROP = "C15"
CL = "htool::Cluster<double>"


def names(x):
    return TStr(tuple(x))


def tree(ip, shape, parts, dim, n, local, numbered=False):
    """a cluster tree: nested lists; `parts` is the depth of the partition"""
    td = Obj("htool::ClusterTreeData<double>", "T.data")
    nodes, level = [], {}

    def node(sh, name, depth):
        o = Obj(CL, name)
        k = level[depth] = level.get(depth, -1) + 1
        b = Buffer(name + ".x", P(dim), "zero")
        for i in range(dim):
            ip.M.write(b, View(P(i), 1, 1, 0, 0), ip.to_mat(Poly.atom("$%s.x%d" % (name, i))), None)
        o.f.update(m_radius=Poly.atom("$%s.r" % name), m_center=Vec(b, P(dim)), m_rank=P("%s.rank" % name), m_offset=P("%s.off" % name), m_size=P("%s.size" % name), m_counter=P("%s.counter" % name), m_depth=P(depth), m_is_root=depth == 0, m_tree_data=Smart(td))
        if depth == parts:
            o.f["m_rank"] = P(k)
            on.append(o)
        if depth == 0:
            o.f.update(m_counter=ZERO, m_rank=P(-1), m_size=P(n))
        elif numbered:
            # sizes and numbers as they may be, all of them different
            o.f.update(m_offset=P(1000 + len(nodes)), m_size=P(100 + len(nodes)), m_counter=P(30 + k))
            if depth != parts:
                o.f["m_rank"] = P(-1 if depth < parts else 200 + len(nodes))
        nodes.append(o)
        ks = [node(x, "%s.%d" % (name, i), depth + 1) for i, x in enumerate(sh)] if isinstance(sh, list) else []
        o.f["m_children"] = Coll([("one", Smart(x)) for x in ks], name + ".children", "std::unique_ptr<%s>" % CL)
        o.tag["kids"] = ks
        return o
    on = []
    r = node(shape, "T", 0)
    leaves = [x.f["m_depth"].const_value() for x in nodes if not x.tag["kids"]]
    b = IBuf("T.perm", P(n), "init")
    b.entries = tuple((P(i), P("p%d" % i), None) for i in range(n))
    td.f.update(m_minclustersize=P("minsize"), m_max_depth=P(int(max(leaves))), m_min_depth=P(int(min(leaves))), m_permutation=Smart(Vec(b, P(n))), m_is_permutation_local=local, m_root_cluster=PObj(r), m_clusters_on_partition=Coll([("one", PObj(x)) for x in on], "T.parts", "const %s *" % CL))
    return r, nodes


def obj(v):
    return v.t if isinstance(v, Smart) else v.o if isinstance(v, PObj) else v


def kids(o):
    c = o.f.get("m_children")
    if not isinstance(c, Coll) or any(p[0] != "one" for p in c.parts):
        raise Undecided("children")
    return [obj(p[1]) for p in c.parts]


def definite(ip, v):
    p = ip.F.norm(v.p)
    if not p.is_const():
        return v
    c = p.const_value()
    return {"eq": c == 0, "ne": c != 0, "ge": c >= 0}.get(v.k, v)


def equal(ip, x, y, what):
    x, y = [definite(ip, v) if isinstance(v, Cond) else v for v in (x, y)]
    if isinstance(x, bool):
        x = P(int(x))
    if isinstance(y, bool):
        y = P(int(y))
    if isinstance(x, Poly) and isinstance(y, Poly):
        return out_(ip.F.eq(x, y), what, "%s instead of %s" % (x, y))
    if isinstance(x, (Poly, MatVal)) and isinstance(y, (Poly, MatVal)):
        d = ip.A.norm(ip.A.add(ip.to_mat(x), ip.A.scale(P(-1), ip.to_mat(y)))) if hasattr(ip.A, "add") else None
        return out_(ip.same_value(x, y) if hasattr(ip, "same_value") else None, what, "%s instead of %s" % (x, y))
    return out_(None, what, "%r, %r" % (x, y))


def scalar(v):
    """the number a floating value stands for"""
    return str(v)


def same_tree(ip, a, b, r):
    what = "cluster %s" % a.name
    for n, nm in (("m_rank", "rank"), ("m_offset", "offset"), ("m_size", "size"), ("m_counter", "counter"), ("m_depth", "depth"), ("m_is_root", "root")):
        r.append(equal(ip, b.f.get(n), a.f[n], "the %s of a cluster is read back" % nm))
    r.append(fl(ip, b.f.get("m_radius"), a.f["m_radius"], "the radius of a cluster is read back"))
    ca, cb = a.f["m_center"], b.f.get("m_center")
    if not isinstance(cb, Vec) or not ip.F.eq(ca.size, cb.size):
        r.append(out_(False if isinstance(cb, Vec) else None, "the dimension of the centre is read back", str(cb)))
    else:
        for i in range(int(ca.size.const_value())):
            x, y = [ip.lget(ip.index_lv(v, P(i))) for v in (cb, ca)]
            r.append(fl(ip, x, y, "the centre of a cluster is read back"))
    ka, kb = a.tag["kids"], kids(b)
    if len(ka) != len(kb):
        r.append(out_(False, "the children of a cluster are read back", "%d instead of %d (%s)" % (len(kb), len(ka), a.name)))
        return
    for x, y in zip(ka, kb):
        if not isinstance(y, Obj):
            r.append(out_(None, "children"))
            continue
        same_tree(ip, x, y, r)


def fl(ip, x, y, what):
    """floating values are compared by what they are printed from"""
    if is_unk(x) or is_unk(y):
        return out_(None, what, "%s" % (x,))
    x, y = [ip.A.norm(ip.to_mat(v)) if isinstance(v, (Poly, MatVal)) else v for v in (x, y)]
    return out_(str(x) == str(y), what, "%s instead of %s" % (x, y))


def roundtrip(ip, f, shape, parts, dim, n, local, numbered):
    tx = Text(ip, 8)
    t, nodes = tree(ip, shape, parts, dim, n, local, numbered)

    def checks(ip):
        g = [x for x in ip.ir.by_q.get("htool::read_cluster_tree", []) if x["hasbody"] and "double" in x["ret"]]
        if not g:
            raise Undecided("no reader")
        try:
            R = ip.invoke(g[0], None, argcells([names("file_cluster_tree_properties.csv"), names("file_cluster_tree.csv")]))
        except Throw as x:
            return [out_(False, "the files are understood", w) for w in tx.problems or [str(x)]]
        except Undecided:
            if not tx.misread:
                raise
            return [out_(False, "the files are understood", w) for w in tx.misread[:1]]
        r = [out_(False, "the files are accepted", str(x)) for x in ip.logged] + [out_(False, "the files are understood", x) for x in tx.problems]
        if r:
            return r
        if not isinstance(R, Obj):
            return [out_(None, "the tree", repr(R))]
        same_tree(ip, t, R, r)
        a, b = t.f["m_tree_data"].t, obj(R.f["m_tree_data"])
        for k, nm in (("m_minclustersize", "minimal size"), ("m_max_depth", "maximal depth"), ("m_min_depth", "minimal depth"), ("m_is_permutation_local", "locality of the renumbering")):
            r.append(equal(ip, b.f.get(k), a.f[k], "the %s is read back" % nm))
        va, vb = a.f["m_permutation"].t, obj(b.f["m_permutation"])
        if not isinstance(vb, Vec) or not ip.F.eq(vb.size, va.size):
            r.append(out_(None if not isinstance(vb, Vec) else False, "the length of the permutation is read back"))
        else:
            for i in range(n):
                r.append(equal(ip, ip.iget(vb.buf, P(i)), P("p%d" % i), "the permutation is read back"))
        flat = []

        def pre(o):
            flat.append(o)
            for k in kids(o):
                pre(k)
        pre(R)
        pa, pb = a.f["m_clusters_on_partition"], b.f.get("m_clusters_on_partition")
        if isinstance(pb, Coll) and all(p[0] == "one" for p in pb.parts):
            want = [nodes_index(t, obj(p[1])) for p in pa.parts]
            got = [([i for i, x in enumerate(flat) if x is obj(p[1])] or [None])[0] for p in pb.parts]
            r.append(out_(want == got, "the clusters of the partition are read back", "%s instead of %s" % (got, want)))
        else:
            r.append(out_(None, "partition"))
        q = b.f.get("m_root_cluster")
        r.append(out_(obj(q) is R if isinstance(obj(q), Obj) else None, "the root of the tree is the tree returned"))
        return r
    return None, argcells([t, names("file")]), checks


def nodes_index(t, o):
    l = []

    def pre(x):
        l.append(x)
        for k in x.tag["kids"]:
            pre(k)
    pre(t)
    return [i for i, x in enumerate(l) if x is o][0]


def matrix_bytes(ip, f, dest, T):
    """a matrix written as bytes is read back into another one"""
    K = Spec(ip, "double" if T == "double" else "std::complex<double>")
    tx = Text(ip, 8 if T == "double" else 16)
    r, c = P("m"), P("n")
    for x in "pq":
        ip.F.add_ge0(P(x) - 1)
    M = K.matrix("M", r, c)

    def checks(ip):
        g = [x for x in ip.ir.by_q.get("htool::Matrix::bytes_to_matrix", []) if x["hasbody"] and x["clst"] == f["clst"]]
        if not g:
            raise Undecided("no reader")
        D = K.matrix("D", ZERO if dest == "empty" else P("p"), ZERO if dest == "empty" else P("q"), out=True)
        if dest == "empty":
            D.f["m_data"] = Ptr(None)
        if dest == "mapped":
            D.f["m_is_owning_data"] = False
        before = D.tag["buf"]
        ip.invoke(g[0], D, argcells([names("file")]))
        r_ = [out_(False, "the file is understood", x) for x in tx.problems]
        got, b = K.final_matrix(D)
        for nm, w in (("m_number_of_rows", r), ("m_number_of_cols", c)):
            r_.append(equal(ip, D.f[nm], w, "the shape is read back"))
        r_.append(K.compare(got, K.val(M), "the coefficients are read back", b))
        r_.append(out_(D.f["m_is_owning_data"] is True, "the matrix owns its new coefficients"))
        if dest == "mapped":
            r_.append(out_(not before.freed and before.head is None, "the data of a mapped matrix is left alone"))
        if dest == "owning":
            r_.append(out_(bool(before.freed), "the old coefficients are released"))
        got, b = K.final_matrix(M)
        r_.append(K.compare(got, K.val(M), "the matrix written is unchanged", b))
        return r_ + K.alarms()
    return M, argcells([names("file")]), checks


def vector_bytes(ip, f, T):
    K = Spec(ip, "double" if T == "double" else "std::complex<double>")
    tx = Text(ip, 8 if T == "double" else 16)
    n, k = P("n"), P("k")
    a, d = Buffer("a", n, "init"), Buffer("d", k, "init")
    V, D = Vec(a, n), Vec(d, k)

    def checks(ip):
        g = [x for x in ip.ir.by_q.get("htool::bytes_to_vector", []) if x["hasbody"] and ("complex" in x["params"][0]["t"]) == (T != "double")]
        if not g:
            raise Undecided("no reader")
        ip.invoke(g[0], None, argcells([D, names("file")]))
        r = [out_(False, "the file is understood", x) for x in tx.problems]
        r.append(equal(ip, D.size, n, "the length is read back"))
        got = ip.M.read(D.buf, View(ZERO, n, ONE, ONE, n))
        r.append(K.compare(got, ip.A.view("a", View(ZERO, n, ONE, ONE, n)), "the coefficients are read back", D.buf))
        return r + K.alarms()
    return None, argcells([V, names("file")]), checks


def cases(ir):
    out = []
    for f in fns(ir, "htool::Matrix::matrix_to_bytes"):
        T = "double" if f["clst"] == "htool::Matrix<double>" else "complex"
        for dest in ("empty", "owning", "mapped"):
            def b(ip, f, dest=dest, T=T):
                return matrix_bytes(ip, f, dest, T)
            out.append(Case(f, "read into a matrix that is " + dest, b, False, PROP, {"sized": False}))
    for f in fns(ir, "htool::vector_to_bytes"):
        T = "double" if "complex" not in f["params"][0]["t"] else "complex<double>"

        def b(ip, f, T=T):
            return vector_bytes(ip, f, T)
        out.append(Case(f, "", b, False, PROP, {"sized": False}))
    shapes = [(["a", "b"], 1), (["a", "b", "c"], 1), ([["a", "b"], ["c", "d"]], 1), ([["a", "b"], ["c", "d"]], 2), (["a", ["b", "c"]], 1), ([["a", "b", "c"], "d", ["e", "f"]], 1), ([["a", ["b", "c"]], ["d", "e"]], 2), ([["a"]], 1), ([[["a", "b"], "c"], ["d", ["e", "f"]]], 2), (["a"], 1)]
    for f in fns(ir, "htool::save_cluster_tree"):
        for sh, parts in shapes:
            for dim in (1, 2, 3):
                for n in (1, 5):
                    for local, nb in ((True, False), (False, False), (True, True)):
                        def b(ip, f, sh=sh, parts=parts, dim=dim, n=n, local=local, nb=nb):
                            return roundtrip(ip, f, sh, parts, dim, n, local, nb)
                        out.append(Case(f, "tree %s partition at depth %d dimension=%d points=%d local=%s%s" % (str(sh).replace("'", "").replace(" ", ""), parts, dim, n, local, " numbered" * nb), b, False, PROP, {"sized": False}))
    return out
