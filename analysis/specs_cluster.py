"""Building a cluster tree: the children of every cluster tile it, the parts are complete and in order, the renumbering
only moves unknowns inside a cluster, and centre and radius are those of the cluster's own points."""
from hmodel3 import *
from specs_dense import fns
import perms, math
from models import mkpair

PROP = "C11"
SZ = [{"N": 23}, {"N": 40}]


class CTree:
    def __init__(self, ip, shape, cap):
        self.ip, self.shape, self.cap = ip, shape, cap
        self.problems, self.und = [], []
        self.script = {}        # id(cluster) -> pieces
        self.centers, self.radii, self.dirs = {}, {}, {}
        self.sorted = []        # (buffer, offset, size) since the last question
        self.perm = None
        self.asked = []

    def contracts(self):
        return {"htool::ClusterTreeBuilder::compute_center": self.c_center,
                "htool::ClusterTreeBuilder::compute_radius": self.c_radius,
                "htool::VirtualDirectionComputationStrategy::compute_direction": self.c_dir,
                "htool::VirtualSplittingStrategy::splitting": self.c_split}

    def bad(self, w):
        if w not in self.problems:
            self.problems.append(w)

    def args(self, a):
        return [self.ip.lget(x) if isinstance(x, (Cell, tuple, LV)) else x for x in a]

    def tagvec(self, nm, n):
        b = Buffer(nm, P(n), "init")
        return Vec(b, P(n))

    def common(self, what, xs):
        """xs: (value, expected buffer name)"""
        for v, k in xs:
            if isinstance(v, Ptr) and v.buf is not None and k is not None:
                if v.buf is not k or not self.ip.F.eq(v.off, ZERO):
                    self.bad("%s is computed from another array (%s for %s)" % (what, v.buf.name, k.name))
            elif isinstance(v, Ptr) and v.buf is None:
                self.bad("%s is computed from a null array" % what)

    def dflt(self, p, k, val):
        """the caller's array, or one filled with the default value"""
        return p

    def rngkey(self, off, n, p):
        pb = None
        if isinstance(p, Ptr) and p.buf is not None:
            if not self.ip.F.eq(p.off, ZERO):
                raise Undecided("renumbering read from an offset")
            pb = p.buf
        return (self.ip.F.norm(off), self.ip.F.norm(n), pb)

    def weightptr(self, what, p, mine):
        """arrays given by the caller are passed on"""
        if mine is not None:
            self.common(what, [(p, mine)])
        elif isinstance(p, Ptr) and p.buf is None:
            self.bad("%s reads a null array" % what)

    def c_center(self, ip, f, obj, args, e):
        a = self.args(args)
        dim, x, w, off, n = a[:5]
        p = a[5] if len(a) > 5 else Ptr(None, ZERO)
        if any(is_unk(v) for v in (dim, off, n)):
            raise Undecided("centre of an unknown range")
        self.common("a centre", [(x, self.coords)])
        self.weightptr("a centre", w, self.weights)
        if not ip.F.eq(dim, self.dim):
            self.bad("a centre is computed with dimension %s" % dim)
        v = self.tagvec("centre%d" % len(self.centers), dim)
        self.centers[v.buf] = self.rngkey(off, n, p)
        return v

    def c_radius(self, ip, f, obj, args, e):
        a = self.args(args)
        dim, x, r, c, off, n = a[:6]
        p = a[6] if len(a) > 6 else Ptr(None, ZERO)
        if any(is_unk(v) for v in (dim, off, n)):
            raise Undecided("radius of an unknown range")
        self.common("a radius", [(x, self.coords)])
        self.weightptr("a radius", r, self.radii_)
        if not ip.F.eq(dim, self.dim):
            self.bad("a radius is computed with dimension %s" % dim)
        nm = "$radius%d" % len(self.radii)
        self.radii[nm] = (self.rngkey(off, n, p), self.centre_of(c))
        return Poly.atom(nm)

    def centre_of(self, c):
        if isinstance(c, Smart):
            c = c.t
        if not isinstance(c, Vec):
            return None
        v = self.ip.M.read(c.buf, View(ZERO, self.dim, ONE, ONE, self.dim))
        for b, k in self.centers.items():
            w = self.ip.M.read(b, View(ZERO, self.dim, ONE, ONE, self.dim))
            if not is_unk(v) and not is_unk(w) and self.ip.A.equal(v, w) is True:
                return k
        return None

    def cluster(self, v):
        v = v.o if isinstance(v, PObj) else v
        if not isinstance(v, Obj):
            raise Undecided("cluster argument")
        return v

    def permptr(self, v):
        v = v.t if isinstance(v, Smart) else v
        if not isinstance(v, Vec):
            raise Undecided("renumbering argument")
        return v.buf

    def c_dir(self, ip, f, obj, args, e):
        c, p, dim, x, r, w = self.args(args)[:6]
        c = self.cluster(c)
        self.common("a direction", [(x, self.coords)])
        self.weightptr("a direction", w, self.weights)
        self.perm_ = self.permptr(p)
        v = self.tagvec("direction%d" % len(self.dirs), dim)
        self.dirs[v.buf] = c
        return v

    def c_split(self, ip, f, obj, args, e):
        c, p, dim, x, k, mcs, d, out = self.args(args)[:8]
        c = self.cluster(c)
        k = ip.F.norm(k) if isinstance(k, Poly) else k
        if is_unk(k) or not k.is_const():
            raise Undecided("number of children")
        k = int(k.const_value())
        self.common("a splitting", [(x, self.coords)])
        if isinstance(mcs, Poly) and not ip.F.eq(mcs, Poly.atom("mincluster")):
            self.bad("the clusters are split with another minimal size than the caller's")
        if isinstance(d, Vec):
            got = ip.M.read(d.buf, View(ZERO, dim, ONE, ONE, dim))
            for b, who in self.dirs.items():
                w = ip.M.read(b, View(ZERO, dim, ONE, ONE, dim))
                if not is_unk(got) and not is_unk(w) and ip.A.equal(got, w) is True and who is not c:
                    self.bad("a cluster is split along the direction of another cluster")
        o, n = c.f["m_offset"], c.f["m_size"]
        unknown = [s for s in self.sorted if s is None]
        if not unknown and not any(ip.F.eq(s[1], o) and ip.F.eq(s[2], n) and s[0] is self.permptr(p) for s in self.sorted):
            self.bad("a cluster is split before its own points are ordered")
        self.asked.append(c)
        depth, ctr = int(c.f["m_depth"].const_value()), c.f["m_counter"]
        self.sorted = []
        if id(c) in self.script:
            self.bad("a cluster is split twice")
        yes = depth < self.mustdepth or self.shape(depth, len(self.asked))
        if len(self.asked) > self.cap:
            raise Undecided("tree too large")
        ps = []
        if yes:
            left = n
            for i in range(k):
                if i < k - 1:
                    s = P(ip.fresh("s"))
                    ip.F.add_ge0(s - 1)
                else:
                    s = left
                    ip.F.add_ge0(left - 1)
                ps.append((o, s))
                o, left = o + s, left - s
        self.script[id(c)] = (c, ps)
        ip.setattr_(out, "parts", [("one", mkpair(ip, [a, b])) for a, b in ps])
        return None

    def moved(self, ip, name, p, q, e):
        """std::sort and the like on [p, q)"""
        if not isinstance(p, Ptr) or not isinstance(q, Ptr) or p.buf is None or p.buf is not q.buf:
            self.sorted.append(None)
            return None
        self.sorted.append((p.buf, p.off, q.off - p.off))
        self.ranges.append((p.buf, p.off, q.off - p.off, self.parts_now()))
        return True

    def parts_now(self):
        return len(self.asked)


def one(ip, f, k, npart, given, depth_extra, pattern, arrays=True):
    """k children per cluster, npart parts"""
    tr = CTree(ip, None, 150)
    tr.ranges = []
    N = P("N")
    dim = P(3)
    tr.dim = dim
    s = Spec(ip, "double")
    tr.coords = Buffer("coordinates", dim * N, "init")
    tr.weights = Buffer("weights", N, "init") if arrays else None
    tr.radii_ = Buffer("radii", N, "init") if arrays else None
    ip.F.add_ge0(N - 1)
    depth = 1
    if not given and npart >= k:
        d = 0
        while k ** (d + 1) <= npart:
            d += 1
        depth = d
        depth = int(math.floor(math.log(npart) / math.log(k)))
    tr.mustdepth = 0 if given else depth
    tr.pdepth = 1 if given else depth
    tr.shape = lambda dp, i: dp < tr.pdepth + depth_extra and pattern(dp, i)
    for q, fn in tr.contracts().items():
        ip.contracts[q] = fn
    ip.on_reorder = tr.moved
    ip.loop_limit = 150
    o = Obj("htool::ClusterTreeBuilder<double>", "builder", True)
    o.f["m_minclustersize"] = P("mincluster")
    o.f["m_partition"] = Coll([], "m_partition", "std::pair<int, int>")
    o.f["m_partition_type"] = Sym("htool::ClusterTreeBuilder<double>::Simple")
    o.f["m_direction_computation_strategy"] = Smart(Obj("htool::VirtualDirectionComputationStrategy<double>", "direction", True))
    o.f["m_splitting_strategy"] = Smart(Obj("htool::VirtualSplittingStrategy<double>", "splitting", True))
    part = Ptr(None, ZERO)
    gs = []
    if given:
        b = IBuf("partition", P(2 * npart))
        off = ZERO
        ent = []
        for i in range(npart):
            n = P("part%d" % i) if i < npart - 1 else N - off
            ip.F.add_ge0(n - 1)
            gs.append((off, n))
            ent += [(P(2 * i), off, None), (P(2 * i + 1), n, None)]
            off = off + n
        if given == "reversed":     # the parts may be listed in any order
            gs.reverse()
            ent = []
            for i, (a, n) in enumerate(gs):
                ent += [(P(2 * i), a, None), (P(2 * i + 1), n, None)]
        b.entries = tuple(ent)
        part = Ptr(b, ZERO)
    args = [N, dim, Ptr(tr.coords, ZERO), Ptr(tr.radii_, ZERO) if arrays else Ptr(None, ZERO), Ptr(tr.weights, ZERO) if arrays else Ptr(None, ZERO), P(k), P(npart), part]
    np_ = len(f["params"])
    if np_ == 6:
        args = args[:3] + args[5:]
    elif np_ == 5:
        args = args[:3] + args[5:7]

    def checks(ip):
        if ip.logged:
            lev = [x for x in ip.logged if "WARNING" not in str(x)]
            if lev:
                return [Outcome("violation", "a valid tree is reported as an error: %s" % (lev[0],))]
        R = ip.retval
        if not isinstance(R, Obj):
            return [Outcome("undecided", "no cluster returned: %s" % R)]
        return [Outcome("violation", p) for p in tr.problems] + inspect(ip, tr, R, k, npart, gs, N, depth)
    return o, argcells(args), checks


def kids(c):
    v = c.f["m_children"]
    if not isinstance(v, Coll) or any(p[0] != "one" for p in v.parts):
        raise Undecided("children of %s" % c.name)
    r = [p[1].t if isinstance(p[1], Smart) else p[1] for p in v.parts]
    if not all(isinstance(x, Obj) for x in r):
        raise Undecided("children: %s" % (r,))
    return r


def inspect(ip, tr, R, k, npart, gs, N, depth):
    F = ip.F
    out = []

    def bad(w, c=None):
        out.append(Outcome("violation", w, "", "cluster at depth %s, range [%s, +%s)" % (c.f["m_depth"], F.norm(c.f["m_offset"]), F.norm(c.f["m_size"])) if c is not None else ""))

    def ok(w):
        out.append(Outcome("ok", w))
    td = R.f["m_tree_data"]
    td = td.t if isinstance(td, Smart) else td
    pm = td.f["m_permutation"]
    pm = pm.t if isinstance(pm, Smart) else pm
    if not isinstance(pm, Vec):
        raise Undecided("renumbering of the tree: %s" % pm)
    if not F.eq(pm.size, N):
        bad("the renumbering has %s entries for %s points" % (pm.size, N))
    if not (F.eq(R.f["m_offset"], ZERO) and F.eq(R.f["m_size"], N)):
        bad("the root does not hold all points", R)
    if td.f["m_is_permutation_local"] is not bool(gs):
        if is_unk(td.f["m_is_permutation_local"]):
            out.append(Outcome("undecided", "local renumbering"))
        else:
            bad("the tree says that its renumbering is %slocal to the parts" % ("" if not gs else "not "))
    leaves, everyone = [], []

    def go(c, rank, d):
        everyone.append(c)
        if not F.eq(c.f["m_depth"], P(d)):
            bad("a cluster has depth %s at level %d" % (c.f["m_depth"], d), c)
        t2 = c.f["m_tree_data"]
        t2 = t2.t if isinstance(t2, Smart) else t2
        if t2 is not td:
            bad("a cluster does not share the data of its tree", c)
        if c is not R:
            par = c.f.get("m_is_root")
            if par is True:
                bad("a cluster below the root says it is the root", c)
        ctr = tr.centre_of(c.f["m_center"])
        want = (F.norm(c.f["m_offset"]), F.norm(c.f["m_size"]), pm.buf)
        rad = c.f["m_radius"]
        if c is R:
            want = want[:2] + (None,)

        def same(a, b):
            return F.eq(a[0], b[0]) and F.eq(a[1], b[1]) and (a[2] is b[2] or c is R)
        if ctr is None:
            out.append(Outcome("undecided", "centre of a cluster"))
        elif not same(ctr, want):
            bad("a centre is not computed from the points of its cluster", c)
        else:
            ok("the centre is that of the cluster's points")
        rk = tr.radii.get(str(rad)) if isinstance(rad, Poly) else None
        if rk is None:
            out.append(Outcome("undecided", "radius of a cluster"))
        elif not same(rk[0], want):
            bad("a radius is not computed from the points of its cluster", c)
        elif rk[1] is not None and not same(rk[1], want):
            bad("a radius is computed around another centre", c)
        else:
            ok("the radius is that of the cluster's points")
        ks = kids(c)
        pos, end = c.f["m_offset"], c.f["m_offset"] + c.f["m_size"]
        if ks:
            order = list(ks)
            if c is R and gs:
                order = []
                left = list(ks)
                while left:
                    nx = [x for x in left if F.eq(x.f["m_offset"], pos)]
                    if not nx:
                        break
                    order.append(nx[0])
                    left.remove(nx[0])
                    pos = pos + nx[0].f["m_size"]
                pos = c.f["m_offset"]
                order += left
            for x in order:
                if not F.eq(x.f["m_offset"], pos):
                    bad("the children of a cluster do not follow each other", c)
                    break
                pos = pos + x.f["m_size"]
            else:
                if not F.eq(pos, end):
                    bad("the children of a cluster do not cover it", c)
                else:
                    ok("the children of a cluster tile it")
        else:
            leaves.append(c)
        for x in ks:
            r = x.f["m_rank"]
            if rank is not None and not F.eq(r, rank):
                bad("a cluster below a part belongs to another process than the part", x)
            go(x, rank if rank is not None else (None if F.eq(r, P(-1)) else r), d + 1)
    go(R, None, 0)
    # the parts
    cp = td.f["m_clusters_on_partition"]
    if not isinstance(cp, Coll) or any(p[0] != "one" for p in cp.parts):
        raise Undecided("clusters on the partition: %s" % cp)
    ps = []
    for p in cp.parts:
        v = p[1].o if isinstance(p[1], PObj) else p[1]
        if not isinstance(v, Obj):
            if v is None or isinstance(v, Ptr) or v == "null":
                bad("a part of the partition is missing")
                return out
            raise Undecided("clusters on the partition: %s" % (v,))
        ps.append(v)
    if len(ps) != npart:
        bad("the tree has %d parts instead of %d" % (len(ps), npart))
    pos = ZERO
    for i, v in enumerate(ps):
        if v not in everyone:
            bad("a part is not a cluster of the tree", v)
        if not F.eq(v.f["m_rank"], P(i)):
            bad("part %d has rank %s" % (i, v.f["m_rank"]), v)
        if not F.eq(v.f["m_depth"], P(depth)):
            bad("the parts are not all at the same depth", v)
        if gs:
            if i < len(gs) and not (F.eq(v.f["m_offset"], gs[i][0]) and F.eq(v.f["m_size"], gs[i][1])):
                bad("a part is not the caller's", v)
        else:
            if not F.eq(v.f["m_offset"], pos):
                bad("the parts do not follow each other", v)
            pos = pos + v.f["m_size"]
    if not gs and not F.eq(pos, N):
        bad("the parts do not cover all points")
    ok("the parts are complete and in order")
    # depths
    dl = [int(c.f["m_depth"].const_value()) for c in leaves]
    for k_, w, nm in (("m_max_depth", max(dl), "deepest"), ("m_min_depth", min(dl), "shallowest")):
        v = td.f[k_]
        if is_unk(v) or not F.norm(v).is_const():
            out.append(Outcome("undecided", "%s: %s" % (k_, v)))
        elif F.norm(v).const_value() != w:
            bad("the tree says that its %s leaf is at depth %s instead of %d" % (nm, v, w))
        else:
            ok("depths are recorded")
    seen = {}
    for c in everyone:
        q = (str(F.norm(c.f["m_depth"])), str(F.norm(c.f["m_counter"])))
        if q in seen:
            bad("two clusters of a level have the same number", c)
        seen[q] = c
    # the renumbering
    for b, o, n, i in tr.ranges:
        if b is not pm.buf:
            continue
        inside = [c for c in everyone if F.eq(c.f["m_offset"], o) and F.eq(c.f["m_size"], n)]
        if not inside:
            if gs and not any(F.nonneg(o - a) and F.nonneg(a + m - o - n) for a, m in gs):
                bad("points are moved across the parts given by the caller (range [%s, +%s))" % (F.norm(o), F.norm(n)))
            elif not any(F.nonneg(o - c.f["m_offset"]) and F.nonneg(c.f["m_offset"] + c.f["m_size"] - o - n) for c in everyone):
                out.append(Outcome("undecided", "a range of the renumbering"))
        elif gs and all(c is R for c in inside) and npart > 1:
            bad("points are moved across the parts given by the caller")
    # nothing that was already split is moved again
    return out


# ------------------------------------------------------------------ splitting
def split_case(ip, f, k, geo):
    """the pieces of a cluster of any size, for k children"""
    s = Spec(ip, "double")
    n, o, m = P("n"), P("o"), P("mincluster")
    for p in (n - 1, o, m - 1):
        ip.F.add_ge0(p)
    c = Obj("htool::Cluster<double>", "cluster", True)
    c.f["m_offset"], c.f["m_size"] = o, n
    out = Coll([("one", mkpair(ip, [ZERO, ZERO])) for _ in range(2)], "pieces", "std::pair<int, int>")
    perm = Vec(IBuf("permutation", P("total")), P("total"))
    ip.F.add_ge0(P("total") - o - n)
    x = Buffer("coordinates", P(3) * P("total"), "init")
    d = Vec(Buffer("direction", P(3), "init"), P(3))
    this = Obj("htool::%sSplitting<double>" % ("Geometric" if geo else "Regular"), "splitting", True)
    this.f["regular_splitting"] = Obj("htool::RegularSplitting<double>", "regular", True)
    calls = []

    def first(ip, name, p, q, e):
        """position of the first point beyond the limit"""
        if not isinstance(p, Ptr) or not isinstance(q, Ptr) or p.buf is not q.buf or p.buf is not perm.buf:
            return None
        w = P(ip.fresh("found"))
        ip.F.add_ge0(w - p.off)
        ip.F.add_ge0(q.off - w)
        calls.append((p.off, q.off))
        return Ptr(p.buf, w)
    ip.on_find_if = first
    ip.contracts["htool::dprod"] = lambda ip, f, obj, args, e: Poly.atom(ip.fresh("$dprod"))

    def checks(ip):
        F = ip.F
        v = out
        if not isinstance(v, Coll) or any(p[0] != "one" for p in v.parts):
            return [Outcome("undecided", "pieces: %s" % v)]
        ps = [p[1] for p in v.parts]
        if not all(isinstance(p, Obj) for p in ps):
            return [Outcome("undecided", "pieces: %s" % ps)]
        r = []

        def need(p, what, zero=False):
            p = F.norm(p)
            if any(a.startswith("$") for a in p.atoms()):
                return r.append(Outcome("undecided", what))
            if (F.zero(p) if zero else holds(F, p, k)):
                return r.append(Outcome("ok", what))
            w = witness(F, p, zero)
            r.append(Outcome("violation", what, "", w) if w else Outcome("undecided", what + ": %s" % p))
        for a, b in calls:
            need(b - a, "a range of points is not inverted")
        if not ps:
            if geo:
                return r + [Outcome("ok", "not split")]
            need(P(k) * (m + 1) - 1 - n, "a cluster large enough is split")
            return r
        if len(ps) != k:
            return r + [Outcome("violation", "%d pieces instead of %d" % (len(ps), k))]
        pos = o
        for p in ps:
            a, b = p.f["first"], p.f["second"]
            if is_unk(a) or is_unk(b):
                return r + [Outcome("undecided", "pieces: %s %s" % (a, b))]
            need(a - pos, "the pieces follow each other", True)
            need(b - m, "no piece is smaller than the minimal size")
            pos = pos + b
        need(o + n - pos, "the pieces cover the cluster", True)
        return r
    return this, argcells([PObj(c), perm, P(3), Ptr(x, ZERO), P(k), m, d, out]), checks


def holds(F, p, k):
    return F.nonneg(p) or any(F.nonneg(p - q * j) for q in F.ge for j in (1, k) if len(q.d) <= 4)


def witness(F, p, zero, tries=4000):
    """sizes for which the obligation fails although everything known about this path holds"""
    import itertools, re
    from terms import evalp
    base = sorted({a for q in [p] + F.ge for a in q.atoms() if not a.startswith("idiv(")})
    divs = [a for q in [p] + F.ge for a in q.atoms() if a.startswith("idiv(")]
    if any(a.startswith("$") for a in base) or len(base) > 8:
        return None
    rnd = __import__("random").Random(7)
    for _ in range(tries):
        env = {a: rnd.choice((0, 1, 2, 3, 4, 5, 7, 11, 12, 13, 23, 24, 25, 37)) for a in base}
        ok = True
        for d in sorted(set(divs), key=len):
            g = re.match(r"^idiv\((\w+),(\d+)\)$", d)
            if not g or g.group(1) not in env:
                return None
            env[d] = env[g.group(1)] // int(g.group(2))
        for q in F.ge:
            if any(a not in env for a in q.atoms()):
                continue
            if evalp(q, env) < 0:
                ok = False
                break
        if not ok or any(all(a in env for a in q.atoms()) and evalp(q, env) == 0 for q in F.ne):
            continue
        if any(a not in env for a in p.atoms()):
            return None
        x = evalp(p, env)
        if (zero and x != 0) or (not zero and x < 0):
            return "for " + ", ".join("%s=%d" % (a, env[a]) for a in base)
    return None


def cases(ir):
    out = []
    pat = {"full": lambda d, i: True, "uneven": lambda d, i: i % 2 == 1, "chain": lambda d, i: i % 3 == 0}
    for f in fns(ir, "htool::ClusterTreeBuilder::create_cluster_tree"):
        n = len(f["params"])
        todo = []
        for k in (2, 3, 4, 5):
            for npart in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 27):
                for given in (None, "in order", "reversed"):
                    if given is None and n == 6 or given and n == 5 or given and npart > 5:
                        continue
                    if n != 8 and npart > 5:
                        continue
                    for extra in (0, 1, 2):
                        if extra and npart > 9:
                            continue
                        for pn in ("full", "uneven", "chain"):
                            if not extra and pn != "full":
                                continue
                            if extra == 2 and (pn == "full" and k * npart > 8):
                                continue
                            todo.append((k, npart, given, extra, pn))
        for x in todo:
            def b(ip, f, x=x, n=n):
                return one(ip, f, x[0], x[1], x[2], x[3], pat[x[4]], n == 8 and (x[0] + x[1]) % 2 == 0)
            out.append(Case(f, "%d children, %d parts (%s), %d more levels %s" % x, b, False, PROP, {"sized": False}))
    for nm in ("Regular", "Geometric"):
        for f in fns(ir, "htool::%sSplitting::splitting" % nm):
            for k in (1, 2, 3, 4, 5) + ((7,) if nm == "Regular" else ()):
                def b(ip, f, k=k, geo=nm == "Geometric"):
                    return split_case(ip, f, k, geo)
                out.append(Case(f, "%d pieces" % k, b, False, PROP, {"sized": False}))
    return out
