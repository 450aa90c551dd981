"""Dense exports: every entry of the exported array is the operator's entry at that place."""
from hmodel3 import *
from specs_dense import fns, scal_t, argcells
from specs_num import cl
import contracts as K
import perms

PROP = "C09"
SIZES = [{"T0": 2, "S0": 1, "a": 2, "b": 3, "c": 1, "d": 2, "e": 2, "f": 1}, {"T0": 1, "S0": 1, "a": 2, "b": 2, "c": 2, "d": 2, "e": 2, "f": 2}]


class ETree(STree):
    """block trees whose leaves are all explicit; dense diagonal leaves hold both triangles"""

    def contracts(self):
        return {}

    def clus(self, name, off, shape):
        """shape: nested lists of sizes"""
        td = Obj("htool::ClusterTreeData<double>", name + ".data", True)

        def go(nm, o, sh, d, k):
            if not isinstance(sh, list):
                self.ip.F.add_ge0(P(sh) - 1)
                return self._cl(nm, o, P(sh), td, d, k)
            kids, p = [], o
            for i, x in enumerate(sh):
                c = go("%s[%d]" % (nm, i), p, x, d + 1, i)
                kids.append(c)
                p = p + c.f["m_size"]
            r = self._cl(nm, o, p - o, td, d, k)
            r.tag["kids"] = kids
            r.f["m_children"] = Coll([("one", Smart(c)) for c in kids], nm + ".children", "std::unique_ptr<htool::Cluster<double>>")
            return r
        self.ip.F.add_ge0(P(off))
        r = go(name, P(off), shape, 0, 0)
        td.f["m_clusters_on_partition"] = Coll([("one", PObj(c)) for c in r.tag["kids"]], name + ".parts", "const htool::Cluster<double> *")
        td.f["m_is_permutation_local"] = True
        return r

    def renumber(self, c, name):
        rg = [(c.f["m_offset"], c.f["m_size"])]
        c.f["m_tree_data"].t.f["m_permutation"] = Smart(perms.declare(self.ip, name, rg, c.f["m_offset"] + c.f["m_size"]))
        return name

    def value(self, o, sym=True, diag=False):
        t = o.tag["hn"]
        A = self.ip.A
        if t["kind"] in "DL":
            return super().value(o, True) if t["kind"] == "L" else self.s.val(t["mat"])
        tot = A.zero(t["m"], t["n"])
        for ch, ro, co, dg in t["kids"]:
            v = self.value(ch, sym)
            tot = A.add(tot, A.place(v, t["m"], t["n"], ro, co))
            if sym and t["sigma"] != "N" and not dg and o.f["m_symmetry"] != "N":
                w = A.T(v) if t["sigma"] == "S" else A.J(A.T(v))
                tot = A.add(tot, A.place(w, t["m"], t["n"], co, ro))
        return tot

    def leaves(self, o):
        t = o.tag["hn"]
        return [o] if t["kind"] in "DL" else [l for k in t["kids"] for l in self.leaves(k[0])]


def grow(tr, name, T, S, pat, sg, sym, out=False):
    """pat: 'D', 'L' or a list of rows of patterns (None: the missing half of a symmetric block)"""
    if isinstance(pat, str):
        o = tr.node(name, T, S, pat, sym=sym, uplo="L" if sym != "N" else "N", sfl=sg, out=out)
        return o
    o = tr.node(name, T, S, "H", sym=sym, uplo="L" if sym != "N" else "N", sfl=sg, out=out, kids=lambda i, j: "D", lower=False)
    tag = o.tag["hn"]
    tag["kids"] = []
    parts = []
    ts, ss = T.tag["kids"] or [T], S.tag["kids"] or [S]
    if len(pat) == 1:
        ts = [T]
    if len(pat[0]) == 1:
        ss = [S]
    for j, c in enumerate(ss):
        for i, t in enumerate(ts):
            if pat[i][j] is None:
                continue
            diag = t is c
            ch = grow(tr, "%s[%d,%d]" % (name, i, j), t, c, pat[i][j], sg, sg if diag else "N", out)
            ch.f["m_is_root"] = False
            tag["kids"].append((ch, t.f["m_offset"] - T.f["m_offset"], c.f["m_offset"] - S.f["m_offset"], diag))
            parts.append(("one", Smart(ch)))
    o.f["m_children"] = Coll(parts, name + ".children", "std::unique_ptr<%s>" % tr.ht)
    return o


ONE1 = (["a"], ["d"])
FLAT = ["a", "b"], ["d", "e"]
DEEP = ["a", ["b", "c"]], ["d", "e", "f"]
PATS = [  # (name, clusters, pattern)
    ("dense", ("a", "d"), "D"),
    ("low-rank", ("a", "d"), "L"),
    ("2x2", FLAT, [["D", "L"], ["L", "D"]]),
    ("2x2 low-rank diagonal", FLAT, [["L", "D"], ["D", "L"]]),
    ("rows only", (["a", "b"], "d"), [["D"], ["L"]]),
    ("columns only", ("a", ["d", "e"]), [["L", "D"]]),
    ("deep", DEEP, [["D", "L", "D"], [[["D", "L", "D"]], "L", [["L"], ["D"]]]]),
]
PATS[-1] = ("deep", (["a", ["b", "c"]], ["d", "e", "f"]), [["D", "L", "D"], ["L", [["D"], ["L"]], "L"]])
SYM = [
    ("dense", "a", "D"),
    ("2x2", ["a", "b"], [["D", None], ["L", "D"]]),
    ("2x2 dense", ["a", "b"], [["D", None], ["D", "D"]]),
    ("2x2 upper", ["a", "b"], [["D", "L"], [None, "D"]]),
    ("3x3", ["a", "b", "c"], [["D", None, None], ["L", "D", None], ["D", "L", "D"]]),
    ("deep", ["a", ["b", "c"]], [["D", None], [["D"], ["L"]], ]),
]
SYM[-1] = ("deep", ["a", ["b", "c"]], [["D", None], [[["D"], ["L"]], [["D", None], ["L", "D"]]]][0:1] + [[[["D"], ["L"]], [["D", None], ["L", "D"]]]])


def one(ip, f, T, q, user, cls, pat, sg, isd):
    s = Spec(ip, T)
    tr = ETree(ip, s, T)
    if sg == "N" and not isd:
        t = tr.clus("T", "T0", cls[0])
        c = tr.clus("S", "S0", cls[1])
    else:
        t = c = tr.clus("T", "T0", cls[0])
    root = t
    wide = isinstance(cls, tuple) and len(cls) == 2 and cls[1] == "part"
    if wide:      # the rows of one part
        t = t.tag["kids"][0]
    A = grow(tr, "A", t, c, pat, sg, sg if t is c else "N")
    if user:
        rn = tr.renumber(root, "tperm")
        if wide:
            ip.permarrays[rn].ranges.append((t.f["m_offset"], t.f["m_size"]))
        cn = rn if root is c else tr.renumber(c, "sperm")
    m, n = t.f["m_size"], c.f["m_size"]
    to, so = t.f["m_offset"], c.f["m_offset"]
    if isd:
        y = s.ptr("out", m, True)
        bd = perms.Bind(ip, y, m, row=(rn, to)) if user and ip.sized is None else None
    else:
        y = s.ptr("out", m * n, True, hints=[(m, n)])
        bd = perms.Bind(ip, y, m, n, m, row=(rn, to), col=(cn, so)) if user and ip.sized is None else None

    def checks(ip):
        Al = ip.A
        if ip.logged:
            return [Outcome("violation", "a valid export is reported as an error: %s" % (ip.logged[0],))]
        if isd:
            got = (bd.final() if bd else ip.M.read(y, View(ZERO, m, ONE, ONE, ZERO)))
            want = Al.zero(m, ONE)
            for l in tr.leaves(A):
                h = l.tag["hn"]
                ro = h["T"].f["m_offset"]
                if h["T"] is not h["S"]:
                    continue
                k = h["m"]
                if ip.sized is not None:
                    v = tr.value(l)
                    for i in range(int(ip.F.norm(k).const_value())):
                        want = Al.add(want, Al.place(Al.sub(v, P(i), ONE, P(i), ONE), m, ONE, ro - to + i, ZERO))
                elif h["kind"] == "D":
                    want = Al.add(want, Al.place(Al.view(h["mat"].tag["buf"].name, View(ZERO, k, ONE, k + 1, ZERO)), m, ONE, ro - to, ZERO))
                else:
                    return [Outcome("undecided", "the diagonal of a product of unknown sizes")] + s.frame() + s.alarms()
            if user:
                want = Al.mul(perms.matrix(ip, rn, to, m, "T"), want)
            return [s.compare(got, want, "entry i of the array is the diagonal entry i of the operator", y)] + s.frame() + s.alarms()
        got = bd.final() if bd else ip.M.read(y, View(ZERO, m, n, ONE, m))
        if not user and sg != "N":
            # only the stored half is exported
            r = []
            for l in tr.leaves(A):
                h = l.tag["hn"]
                ro, co = h["T"].f["m_offset"] - to, h["S"].f["m_offset"] - so
                g = got if is_unk(got) else Al.sub(got, ro, h["m"], co, h["n"])
                r.append(s.compare(g, tr.value(l), "the stored block of the array is the operator's block", y))
            return r + s.frame() + s.alarms()
        want = tr.value(A)
        if user:
            want = Al.mul(Al.mul(perms.matrix(ip, rn, to, m, "T"), want), perms.matrix(ip, cn, so, n, "N"))
        return [s.compare(got, want, "entry (i,j) of the array is entry (i,j) of the operator", y)] + s.frame() + s.alarms()
    return None, argcells([A, Ptr(y)]), checks


def cases(ir):
    out = []
    for q, user, isd in (("htool::copy_to_dense", False, False), ("htool::copy_to_dense_in_user_numbering", True, False), ("htool::copy_diagonal", False, True), ("htool::copy_diagonal_in_user_numbering", True, True)):
        for f in fns(ir, q):
            if "LowRank" in str(f["params"]):
                continue
            T = scal_t(f)
            cx = "complex" in T
            todo = []
            if isd:
                todo += [("2x2", ("aN", ["a", "b"]), [["D", "L"], ["L", "D"]], "N"), ("2x2 low-rank diagonal", ("", ["a", "b"]), [["L", "D"], ["D", "L"]], "N")]
                todo = [(n, (c[1],), p, g) for n, c, p, g in todo]
                todo += [("dense", ("a",), "D", "N"), ("low-rank", ("a",), "L", "N")]
                todo.append(("deep", (["a", ["b", "c"]],), [["D", "L"], ["L", [["D", "L"], ["D", "L"]]]], "N"))
                todo.append(("symmetric", (["a", ["b", "c"]],), SYM[-1][2], "S"))
            else:
                todo += [(n, c, p, "N") for n, c, p in PATS]
            for sg in ("" if isd else "SH" if cx else "S"):
                todo += [(n, (c,), p, sg) for n, c, p in SYM]
                todo.append(("rows of a part", ([["a", "b"], "c"], "part"), [[[["D", None], ["L", "D"]], "L"]], sg))
                todo.append(("rows of a dense part", (["a", ["b", "c"]], "part"), [["D", "L"]], sg))
            for n, c, p, sg in todo:
                def b(ip, f, T=T, n=n, c=c, p=p, sg=sg, q=q, user=user, isd=isd):
                    return one(ip, f, T, q, user, c, p, sg, isd)
                out.append(Case(f, "%s %s symmetry=%s" % (q.split("::")[-1], n, sg), b, cx, PROP, {"sizes": SIZES}))
    return out
