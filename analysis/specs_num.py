"""Numberings: every conversion between the caller's numbering and the internal one applies the renumbering
of the cluster, or its inverse, to exactly the rows or columns it concerns."""
from hmodel3 import *
from specs_dense import fns, scal_t
import perms

PROP = "C08"
SIZES = [{"tN": 7, "t0": 1, "tp": 4, "tp0": 3, "tpart": 1, "tparts": 3, "tq": 2, "tq0": 1}, {"tN": 6, "t0": 0, "tp": 3, "tp0": 2, "tpart": 1, "tparts": 2, "tq": 2, "tq0": 0}]
for _d in SIZES:
    _d.update({"s" + a[1:]: v + 1 if a in ("tN", "tp") else v for a, v in list(_d.items())})


def cl(ip, name, off, n, td, depth, root):
    c = Obj("htool::Cluster<double>", name, True)
    c.f["m_offset"], c.f["m_size"] = P(off), P(n)
    c.f["m_tree_data"] = Smart(td)
    c.f["m_depth"], c.f["m_counter"] = P(depth), ZERO
    c.f["m_is_root"] = root
    c.f["m_children"] = Coll([], name + ".children", "")
    ip.F.add_ge0(P(off))
    ip.F.add_ge0(P(n) - 1)
    return c


def tree(ip, name, kind, local):
    """(cluster passed, cluster whose unknowns are renumbered, tree data)

    kind: 'root', 'part' (a local cluster) or 'indexed' (the root is passed with the number of a part)"""
    td = Obj("htool::ClusterTreeData<double>", name + ".data", True)
    N = P(name + "N")
    root = cl(ip, name, name + "0", N, td, 0, True)
    part = cl(ip, name + ".part", name + "p0", name + "p", td, 1, False)
    o, n = part.f["m_offset"], part.f["m_size"]
    ip.F.add_ge0(o - root.f["m_offset"])
    ip.F.add_ge0(root.f["m_offset"] + N - o - n)
    rg = [(root.f["m_offset"], N)] + ([(o, n)] if local else [])
    v = perms.declare(ip, name + "perm", rg, N + root.f["m_offset"])
    td.f["m_permutation"] = Smart(v)
    td.f["m_is_permutation_local"] = local
    i = P(name + "part")
    ip.F.add_ge0(i)
    parts = Coll([("sym", None, P(name + "parts"), None)], name + ".parts", "const htool::Cluster<double> *")
    ip.F.add_ge0(P(name + "parts") - 1 - i)

    def gen(ip, c, k, nm, old=ip.elem_gen):
        if c is parts:
            # every part is at depth one; the part asked for is the one under study
            return PObj(part if ip.F.eq(k, i) else other)
        return old(ip, c, k, nm) if old else None
    ip.elem_gen = gen
    other = cl(ip, name + ".other", name + "q0", name + "q", td, 1, False)
    td.f["m_clusters_on_partition"] = parts
    td.f["m_root_cluster"] = PObj(root)
    return (root, root, i) if kind == "root" else ((part, part, i) if kind == "part" else (root, part, i))


MAPS = {   # name: (kinds, direction: +1 user -> internal)
    "htool::user_to_cluster": (("root", "part"), +1),
    "htool::cluster_to_user": (("root", "part"), -1),
    "htool::global_to_root_cluster": (("root",), +1),
    "htool::root_cluster_to_global": (("root",), -1),
    "htool::local_to_local_cluster": (("indexed",), +1),
    "htool::local_cluster_to_local": (("indexed",), -1),
}


def mapcase(ip, s, c, d, name, which, x="x", y="y"):
    n = d.f["m_size"]
    o = d.f["m_offset"]
    xb, yb = s.ptr(x, n), s.ptr(y, n, True)
    if ip.sized is None:
        bx = perms.Bind(ip, xb, n, row=(name + "perm", o)) if which > 0 else None
        by = perms.Bind(ip, yb, n, row=(name + "perm", o)) if which < 0 else None
    else:
        bx = by = None

    def checks():
        A = ip.A
        v = View(ZERO, n, ONE, ONE, ZERO)
        got = by.final() if by else ip.M.read(yb, v)
        want = A.mul(perms.matrix(ip, name + "perm", o, n, "N" if which > 0 else "T"), A.view(x, v))
        return [s.compare(got, want, "y is x in %s numbering" % ("internal" if which > 0 else "the caller's"), by.virt if by and by.virt.head.prev else yb)] + s.frame() + s.alarms()
    return xb, yb, checks


def cases(ir):
    out = []
    for q, (kinds, which) in sorted(MAPS.items()):
        for f in fns(ir, q):
            T = "std::complex<double>" if "complex" in str(f["params"]) else "double"
            for kind in kinds:
                for local in (False, True):
                    def b(ip, f, T=T, kind=kind, local=local, which=which):
                        s = Spec(ip, T)
                        c, d, i = tree(ip, "t", kind, local)
                        xb, yb, chk = mapcase(ip, s, c, d, "t", which)

                        def checks(ip):
                            if not local and kind != "root":
                                # a renumbering that mixes parts cannot be restricted to one
                                if ip.logged:
                                    return [Outcome("ok", "reported")]
                                return [Outcome("violation", "a renumbering mixing parts is applied to one part without report")]
                            if ip.logged:
                                return [Outcome("violation", "a valid conversion is reported as an error: %s" % (ip.logged[0],))]
                            return chk()
                        args = [c] + ([i] if kind == "indexed" else []) + [Ptr(xb), Ptr(yb)]
                        return None, argcells(args), checks
                    out.append(Case(f, "%s of %s (renumbering %s)" % (q.split("::")[-1], kind, "local" if local else "global"), b, "complex" in T, PROP, {"sizes": SIZES}))
    return out


_maps = cases


def partition_cases(ir):
    out = []
    MT = {"global_to_partition_numbering": ("root", +1), "partition_to_global_numbering": ("root", -1), "local_to_local_partition_numbering": ("indexed", +1), "local_partition_to_local_numbering": ("indexed", -1)}
    for nm in ("get_size_of_partition", "get_offset_of_partition", "get_global_size", "is_renumbering_local"):
        for f in fns(ir, "htool::PartitionFromCluster::" + nm):
            T = "std::complex<double>" if "complex" in str(f.get("cls") or f["id"]) else "double"

            def b(ip, f, nm=nm, T=T):
                s = Spec(ip, T)
                c, d, i = tree(ip, "t", "indexed", True)
                o = Obj("htool::PartitionFromCluster<%s, double>" % T, "part", True)
                o.f["m_root_cluster"] = c
                want = {"get_size_of_partition": d.f["m_size"], "get_offset_of_partition": d.f["m_offset"], "get_global_size": c.f["m_size"], "is_renumbering_local": True}[nm]

                def checks(ip):
                    v = ip.retval
                    if is_unk(v):
                        return [Outcome("undecided", str(v))]
                    ok = v is True or v == 1 if want is True else isinstance(v, Poly) and ip.F.eq(v, want)
                    return [Outcome("ok" if ok else "violation", "%s of the partition of a cluster" % nm.replace("_", " "), "", "returns %s ; specified %s" % (v, want))] + s.alarms()
                return o, argcells([i] if f["params"] else []), checks
            out.append(Case(f, nm, b, False, PROP, {"sizes": SIZES}))
    for nm, (kind, which) in MT.items():
        for f in fns(ir, "htool::PartitionFromCluster::" + nm):
            T = "std::complex<double>" if "complex" in str(f["params"]) else "double"

            def b(ip, f, kind=kind, which=which, T=T):
                s = Spec(ip, T)
                c, d, i = tree(ip, "t", kind, True)
                o = Obj("htool::PartitionFromCluster<%s, double>" % T, "part", True)
                o.f["m_root_cluster"] = c
                xb, yb, chk = mapcase(ip, s, c, d, "t", which)

                def checks(ip):
                    if ip.logged:
                        return [Outcome("violation", "a valid conversion is reported as an error: %s" % (ip.logged[0],))]
                    return chk()
                return o, argcells(([i] if kind == "indexed" else []) + [Ptr(xb), Ptr(yb)]), checks
            out.append(Case(f, nm, b, "complex" in T, PROP, {"sizes": SIZES}))
    return out


def generator_cases(ir):
    """entries are asked from the caller's generator at the caller's indices"""
    out = []
    for f in fns(ir, "htool::InternalGeneratorWithPermutation::copy_submatrix"):
        T = "std::complex<double>" if "complex" in str(f["params"]) else "double"

        def b(ip, f, T=T):
            s = Spec(ip, T)
            o = Obj("htool::InternalGeneratorWithPermutation<%s>" % T, "gen", True)
            g = Obj("htool::VirtualGenerator<%s>" % T, "user", True)
            tp, sp = perms.declare(ip, "tperm", [(ZERO, P("tN"))], P("tN")), perms.declare(ip, "sperm", [(ZERO, P("sN"))], P("sN"))
            o.f["m_generator_in_user_numbering"] = g
            o.f["m_target_permutation"], o.f["m_source_permutation"] = Ptr(tp.buf, ZERO), Ptr(sp.buf, ZERO)
            out_ = s.ptr("out", P("m") * P("n"), True)
            r0, c0 = P("t0"), P("s0")
            seen = []

            def c_gen(ip, fn, obj, args, e):
                v = [ip.lget(a) if isinstance(a, (Cell, tuple)) else a for a in args]
                seen.append((obj, v))
                return None
            ip.contracts["htool::VirtualGenerator::copy_submatrix"] = c_gen

            def checks(ip):
                if len(seen) != 1:
                    return [Outcome("violation", "the caller's generator is asked %d times for one block" % len(seen))]
                obj, (M, N, rows, cols, ptr) = seen[0]
                res = []
                for got, want, what in ((M, P("m"), "number of rows"), (N, P("n"), "number of columns")):
                    res.append(Outcome("ok" if isinstance(got, Poly) and ip.F.eq(got, want) else "undecided" if is_unk(got) else "violation", what, "", "%s instead of %s" % (got, want)))
                for got, arr, off, what in ((rows, tp, r0, "rows asked"), (cols, sp, c0, "columns asked")):
                    if not isinstance(got, Ptr):
                        res.append(Outcome("undecided", what))
                        continue
                    ok = got.buf is arr.buf and ip.F.eq(got.off, off)
                    res.append(Outcome("ok" if ok else "violation", what, "", "%s + %s instead of %s + %s" % (getattr(got.buf, "name", None), got.off, arr.buf.name, off)))
                ok = isinstance(ptr, Ptr) and ptr.buf is out_ and ip.F.eq(ptr.off, ZERO)
                res.append(Outcome("ok" if ok else "violation", "the block is written where the caller wants it"))
                return res
            return o, argcells([P("m"), P("n"), r0, c0, Ptr(out_)]), checks
        out.append(Case(f, "renumbered generator", b, "complex" in T, PROP, {"sizes": SIZES}))
    return out


def cases(ir):
    return _maps(ir) + partition_cases(ir) + generator_cases(ir)
