"""A distributed operator as seen by one generic rank of an SPMD program.

Every rank runs the same code: a value computed on rank `rank` is a term in the atom `rank`; the value
that rank i contributes to a collective is that term with rank := i.  Rank i holds the rows
[offT(i), offT(i)+szT(i)) of the operator (sum of its local operators) and the slices of distributed
vectors; partitions tile [0, nr) and [0, nc).  The number of ranks and all sizes are symbolic."""
import re
import poly
from spec import *
from specs_dense import argcells
from models import num, val, line, wr, shapes
import models, loops

MPIT = {"double": ("ompi_mpi_double",), "std::complex<double>": ("ompi_mpi_c_double_complex", "ompi_mpi_cxx_dblcplex"), "int": ("ompi_mpi_int",),
        "float": ("ompi_mpi_float",), "std::complex<float>": ("ompi_mpi_c_float_complex", "ompi_mpi_cxx_cplex"), "bool": ("ompi_mpi_c_bool",)}


def flat_view(off, n):
    return View(P(off), P(n), ONE, ONE, ZERO)


class Suspend(Exception):
    """a rank has reached a collective whose other participants have not arrived yet"""


class Ranks:
    """three ranks with uneven parts, advanced together from collective to collective (fixed sizes only)"""
    NP, MU = 3, 2
    SZ = {"T": (2, 1, 2), "S": (1, 3, 2)}

    def __init__(self):
        self.known = []

    def at(self, r):
        self.r, self.k, self.dep = r, 0, None
        poly.INST.update({"rank": P(r) if r else ZERO, "np": P(self.NP), "mu": P(self.MU), "nr": P(sum(self.SZ["T"])), "nc": P(sum(self.SZ["S"]))})

    def meet(self, name, line, data):
        """what every rank brought to this collective"""
        k = self.k
        self.k += 1
        if k < len(self.known):
            return self.known[k]
        self.dep = (name, line, data)
        raise Suspend()


CTX = None


def run_ranks(ir, case, run, cap=16):
    """run(plan) analyses one rank; the outcomes of all ranks, or the reason why they cannot all proceed"""
    global CTX
    res, plan = Result(), []
    while res.parts < cap:
        CTX = R = Ranks()
        outs = None
        try:
            for step in range(12):
                deps, ends, tr = [], [], []
                for r in range(R.NP):
                    R.at(r)
                    try:
                        ip, o = run(plan)
                        ends.append((r, o))
                        tr = ip.trace if len(ip.trace) > len(tr) else tr
                    except Suspend:
                        deps.append((r, R.dep))
                if not deps:
                    outs = [x for r, o in ends for x in o or []]
                    break
                if any(x.status == "undecided" for r, o in ends for x in o or []):
                    outs = [x for r, o in ends for x in o or []]
                    break
                if ends and any(o is not None for r, o in ends):
                    outs = [Outcome("violation", "rank %d waits in MPI_%s while rank %d has left the operation" % (deps[0][0], deps[0][1][0], ends[0][0]), ir.loc(case.fn, deps[0][1][1]))]
                    break
                if ends:
                    outs = None
                    break
                if len({d[0] for r, d in deps}) > 1:
                    outs = [Outcome("violation", "ranks meet in different collectives: %s" % ", ".join("rank %d in MPI_%s" % (r, d[0]) for r, d in deps), ir.loc(case.fn, deps[0][1][1]))]
                    break
                R.known.append([d for r, d in deps])
        finally:
            CTX = None
        if outs is not None:
            res.parts += 1
            for o in outs:
                o.case = case
                if o.status == "ok":
                    res.holds += 1
                elif o.status == "violation":
                    o.where = o.where or ir.loc(case.fn)
                    res.violations.append(o)
                elif o.status != "throw":
                    res.undecided.append(o)
        i = len(tr) - 1
        while i >= 0 and not tr[i][1]:
            i -= 1
        if i < 0 or not outs:
            break
        plan = [b for _, b in tr[:i]] + [False]
    return res


class DistModel:
    def __init__(self, ip, s, T, sym="N", perm=True, nops=2):
        self.ip, self.s, self.T, self.sym, self.use_perm = ip, s, T, sym, perm
        F = ip.F
        for a in ("nr", "nc", "np"):
            F.add_ge0(P(a) - 1)
        self.N = {"T": P("nr") if sym == "N" else P("nc"), "S": P("nc")}
        self.rows = "T" if sym == "N" else "S"
        F.add_ge0(P("np") - 1 - P("rank"))
        F.add_ge0(P("rank"))
        self.known = set()
        ip.total_hook = self.total
        ip.iv_hook = self.ivs
        self.ncoll = 0
        c = ip.contracts
        c["MPI_Comm_rank"] = lambda ip, f, o, a, e: self.out(a[1], P("rank"))
        c["MPI_Comm_size"] = lambda ip, f, o, a, e: self.out(a[1], P("np"))
        c["MPI_Wtime"] = lambda ip, f, o, a, e: Poly.atom("$" + ip.fresh("time"))
        c["htool::wrapper_mpi::mpi_type"] = self.c_type
        for n in ("Allgatherv", "Allgather", "Alltoallv", "Allreduce", "Bcast", "Reduce", "Gatherv", "Scatterv", "Gather"):
            m = getattr(self, "c_" + n.lower(), None)
            c["MPI_" + n] = m if m else (lambda ip, f, o, a, e, n=n: self.unk_coll(n))
        for n in ("Send", "Isend", "Recv", "Irecv", "Waitall", "Wait"):
            c["MPI_" + n] = lambda ip, f, o, a, e, n=n: self.unk_coll(n)
        q = "htool::IPartition::"
        c[q + "get_size_of_partition"] = lambda ip, f, o, a, e: self.part(self.which(o), num(ip, a[0]))[1]
        c[q + "get_offset_of_partition"] = lambda ip, f, o, a, e: self.part(self.which(o), num(ip, a[0]))[0]
        c[q + "get_global_size"] = lambda ip, f, o, a, e: self.N[self.which(o)]
        c[q + "global_to_partition_numbering"] = lambda ip, f, o, a, e: self.renum(o, None, a[0], a[1], "N", e)
        c[q + "partition_to_global_numbering"] = lambda ip, f, o, a, e: self.renum(o, None, a[0], a[1], "T", e)
        c[q + "local_to_local_partition_numbering"] = lambda ip, f, o, a, e: self.renum(o, num(ip, a[0]), a[1], a[2], "N", e)
        c[q + "local_partition_to_local_numbering"] = lambda ip, f, o, a, e: self.renum(o, num(ip, a[0]), a[1], a[2], "T", e)
        c[q + "is_renumbering_local"] = lambda ip, f, o, a, e: self.local
        self.local = True
        q = "htool::VirtualLocalOperator::"
        c[q + "add_vector_product_global_to_local"] = lambda ip, f, o, a, e: self.lop(o, a, "N", None, e)
        c[q + "add_matrix_product_global_to_local"] = lambda ip, f, o, a, e: self.lop(o, a, "N", num(ip, a[4]), e)
        c[q + "add_vector_product_transp_local_to_global"] = lambda ip, f, o, a, e: self.lop(o, a, "T", None, e)
        c[q + "add_matrix_product_transp_local_to_global"] = lambda ip, f, o, a, e: self.lop(o, a, "T", num(ip, a[4]), e)
        c["htool::NbrToStr"] = c["htool::StrToNbr"] = lambda ip, f, o, a, e: Unk("text")
        self.ops = []
        for k in range(nops):
            o = Obj("htool::VirtualLocalOperator<%s>" % T, "op%d" % k, True)
            o.tag["lop"] = "A%d" % k
            self.ops.append(o)
        D = Obj("htool::DistributedOperator<%s>" % T, "D", True)
        for w, n in (("T", "m_target_partition"), ("S", "m_source_partition")):
            p = Obj("htool::IPartition<%s>" % T, "part" + w, True)
            p.tag["part"] = w if sym == "N" else "S"
            D.f[n] = p
        D.f["m_local_operators"] = Coll([("one", PObj(o)) for o in self.ops], "ops", "const htool::VirtualLocalOperator<%s> *" % T)
        D.f["m_use_permutation"] = perm
        D.f["m_symmetry"] = sym
        D.f["m_UPLO"] = "N" if sym == "N" else "L"
        D.f["infos"] = Unk("map")
        self.D = D

    # ---------------------------------------------------------------- partitions
    def which(self, o):
        if isinstance(o, Obj) and "part" in o.tag:
            return o.tag["part"]
        raise Undecided("partition")

    def part(self, w, i):
        F = self.ip.F
        if not isinstance(i, Poly):
            raise Undecided("partition index")
        i = F.norm(i)
        if CTX is not None:
            if not i.is_const() or not 0 <= i.const_value() < CTX.NP:
                raise Undecided("partition index %s" % i)
            t, j = CTX.SZ[w], int(i.const_value())
            return P(sum(t[:j])) if j else ZERO, P(t[j])
        a = str(i)
        off = ZERO if a == "0" else P("off%s(%s)" % (w, a))
        sz = P("sz%s(%s)" % (w, a))
        self.ip.fn_atoms["sz%s(%s)" % (w, a)] = (lambda q: self.part(w, q)[1], i)
        self.ip.fn_atoms["off%s(%s)" % (w, a)] = (lambda q: self.part(w, q)[0], i)
        for x in (sz - 1, off, self.N[w] - off - sz):
            k = str(x)
            F.add_ge0(x)
        return off, sz

    def index(self, i):
        """a generic rank number"""
        F = self.ip.F
        F.add_ge0(i)
        F.add_ge0(P("np") - 1 - i)
        for w in "TS":
            self.part(w, i)

    def pre(self, w, k):
        """sum of the sizes of the first k parts"""
        k = self.ip.F.norm(k)
        if k.is_zero():
            return ZERO
        if k == P("np"):
            return self.N[w]
        if len(k.atoms()) == 1 and k == Poly.atom(list(k.atoms())[0]):
            return self.part(w, k)[0]
        j = k - 1
        if len(j.atoms()) == 1 and j == Poly.atom(list(j.atoms())[0]):
            o, s = self.part(w, j)
            return o + s
        return None

    def total(self, ip, delta, ita, k):
        for w in "TS":
            a = "sz%s(%s)" % (w, ita)
            if a in delta.atoms():
                sp = delta.split(a)
                if sp is None or not sp[1].is_zero() or loops.dep_poly(sp[0], ita):
                    return None
                r = self.pre(w, k)
                return None if r is None else sp[0] * r
        return None

    def ivs(self, ip, ita, N):
        if not ip.F.eq(N, P("np")):
            return []
        return [[loops.Iv("off%s(%s)" % (w, ita), ZERO, P("sz%s(%s)" % (w, ita)), self.N[w])] for w in "TS"]

    # ---------------------------------------------------------------- spmd substitution
    def remap(self, x, mp):
        """x with rank-like atoms renamed (simultaneously)"""
        for i in mp.values():
            self.index(i)
        pat = re.compile(r"(?<![\w.])(%s)(?![\w.])" % "|".join(map(re.escape, mp)))
        atoms = x.poly_atoms() if isinstance(x, MatVal) else x.atoms()
        sub = {}
        for a in atoms:
            if pat.search(a):
                b = pat.sub(lambda m: str(mp[m.group(1)]), a)
                sub[a] = mp[a] if a in mp else P(b)
        return x.subs(sub) if sub else x

    # ---------------------------------------------------------------- operators
    def H(self, k, i, op="N"):
        o, s = self.part(self.rows, i)
        return self.ip.A.of_factor(("H", "A%d" % k, o, s, ZERO, self.N["S"], op))

    def full(self, op="N"):
        A = self.ip.A
        v = None
        for k in range(len(self.ops)):
            x = A.of_factor(("H", "A%d" % k, ZERO, self.N["T"], ZERO, self.N["S"], op))
            v = x if v is None else A.add(v, x)
        return v

    def lop(self, o, a, tr, mu, e):
        ip, A = self.ip, self.ip.A
        if not isinstance(o, Obj) or "lop" not in o.tag:
            raise Undecided("local operator")
        al, x, be, y = num(ip, a[0]), val(ip, a[1]), num(ip, a[2]), val(ip, a[3])
        if not isinstance(x, Ptr) or not isinstance(y, Ptr) or x.buf is None or y.buf is None:
            raise Undecided("operand of a local operator")
        off, sz = self.part(self.rows, P("rank"))
        M = A.of_factor(("H", o.tag["lop"], off, sz, ZERO, self.N["S"], "N"))
        if tr == "T":
            M = A.T(M)
        nx, ny = M.c, M.r
        if mu is None:
            vx, vy = flat_view(x.off, nx), View(ZERO, ny, ONE, ONE, ZERO)
            ip.check_view(x.buf, vx, "read", line(e))
            r = A.mul(M, ip.M.read(x.buf, vx))
        else:
            vx, vy = View(x.off, mu, nx, ONE, mu), View(ZERO, mu, ny, ONE, mu)
            ip.check_view(x.buf, vx, "read", line(e))
            X = ip.M.read(x.buf, vx)
            r = X if is_unk(X) else A.mul(X, A.T(M))
        models.acc(ip, al, r, be, y, vy, line(e))
        ip.call_log.add(e.get("f"))
        return None

    # ---------------------------------------------------------------- renumbering
    def permop(self, w, i, tr):
        n = self.N[w] if i is None else self.part(w, i)[1]
        nm = "perm:%s" % w if i is None else "perm:%s(%s)" % (w, self.ip.F.norm(i))
        self.ip.A.perm.add(nm)
        return self.ip.A.of_factor(("op", nm, n, n, tr))

    def renum(self, o, i, x, y, tr, e):
        ip = self.ip
        w = self.which(o)
        x, y = val(ip, x), val(ip, y)
        if not isinstance(x, Ptr) or not isinstance(y, Ptr) or x.buf is None or y.buf is None:
            raise Undecided("renumbered vector")
        p = self.permop(w, i, tr)
        v = flat_view(x.off, p.r)
        ip.check_view(x.buf, v, "read", line(e))
        if CTX is not None:
            ip.check_view(y.buf, flat_view(y.off, p.r), "write", line(e))
        X = ip.M.read(x.buf, v)
        wr(ip, y, View(ZERO, p.r, ONE, ONE, ZERO), X if is_unk(X) else ip.A.mul(p, X), line(e))
        ip.call_log.add(e.get("f"))
        return None

    # ---------------------------------------------------------------- message passing
    def out(self, a, v):
        p = val(self.ip, a)
        self.ip.lset(("p", p), v) if not isinstance(p, PCell) else self.ip.lset(p.c, v)
        return ZERO

    def unk_coll(self, n):
        raise Undecided("communication by MPI_" + n)

    def c_type(self, ip, f, obj, args, e):
        from ir import walk
        hit = []
        walk(f["body"], lambda n: hit.append(n["n"]) if n.get("k") == "ref" and str(n.get("n", "")).startswith("ompi_mpi_") else None)
        return Sym("mpi:" + hit[0]) if len(hit) == 1 else Unk("datatype")

    def dtype(self, e, a, node, buf):
        v = val(self.ip, a)
        nm = None
        if isinstance(v, Sym) and v.name.startswith("mpi:"):
            nm = v.name[4:]
        else:
            from ir import walk
            hit = []
            walk(node, lambda n: hit.append(n["n"]) if n.get("k") == "ref" and str(n.get("n", "")).startswith("ompi_mpi_") else None)
            nm = hit[0] if len(hit) == 1 else None
        if nm is None:
            raise Undecided("MPI datatype")
        T = "int" if isinstance(buf, IBuf) else self.T
        if nm not in MPIT[T]:
            self.ip.alarm("MPI datatype %s for a buffer of %s" % (nm, T), line(e))
        return nm

    def opname(self, node):
        from ir import walk
        hit = []
        walk(node, lambda n: hit.append(n["n"]) if n.get("k") == "ref" and str(n.get("n", "")).startswith("ompi_mpi_op_") else None)
        return hit[0] if len(hit) == 1 else None

    def counts(self, a, i):
        p = val(self.ip, a)
        if not isinstance(p, Ptr) or not isinstance(p.buf, IBuf):
            raise Undecided("count array")
        r = self.ip.iget(p.buf, p.off + i)
        if not isinstance(r, Poly):
            raise Undecided("count array: %s" % r)
        return r

    def agree(self, e, what, a, b):
        F = self.ip.F
        if F.eq(a, b):
            return
        d = F.norm(a - b)
        if F.differs(a, b) or all(x in ("mu", "nr", "nc") or re.match(r"sz[TS]\((rank|dst|<(it|x)\d+>)\)$", x) for x in d.atoms()):
            self.ip.alarm("%s: %s against %s" % (what, F.norm(a), F.norm(b)), line(e))
            return
        raise Undecided("%s: %s against %s" % (what, F.norm(a), F.norm(b)))

    def slab(self, p, n, e):
        """value of n elements at p in a shape in which it is known: (view shape, value)"""
        ip = self.ip
        n = ip.F.norm(n)
        if not isinstance(p, Ptr) or p.buf is None:
            raise Undecided("communication buffer")
        ip.check_view(p.buf, flat_view(p.off, n), "read", line(e))
        best = None
        for r, c in shapes(ip, [p], n) + [(n, ONE)]:
            x = ip.M.read(p.buf, View(p.off, r, c, ONE, r))
            if not is_unk(x):
                return r, c, x
            best = x
        raise Undecided("communicated value: %s" % best)

    def comm_point(self, name, e):
        self.ncoll += 1
        bad = [l for l, v in self.ip.trace if "rank" in l]
        self.ip.call_log.add("coll:%s:%s" % (name, line(e)))

    def c_allgatherv(self, ip, f, o, a, e):
        self.comm_point("Allgatherv", e)
        if CTX is not None:
            return self.r_allgatherv(ip, a, e)
        sp, n, rp = val(ip, a[0]), num(ip, a[1]), val(ip, a[3])
        self.dtype(e, a[2], e["args"][2], getattr(sp, "buf", None))
        self.dtype(e, a[6], e["args"][6], getattr(rp, "buf", None))
        if not isinstance(rp, Ptr) or rp.buf is None:
            raise Undecided("communication buffer")
        r, c, x = self.slab(sp, n, e)

        def body(i):
            mp = {"rank": i}
            self.index(i)
            ci, di = self.counts(a[4], i), self.counts(a[5], i)
            self.agree(e, "MPI_Allgatherv: the count sent by a rank and the count expected from it", self.remap(n, mp), ci)
            ri, cc = self.remap(r, mp), self.remap(c, mp)
            wr(ip, Ptr(rp.buf, rp.off + di), View(ZERO, ri, cc, ONE, ri), self.remap(x, mp), line(e))
        loops.symbolic(ip, P("np"), body, {"l": line(e)})
        return ZERO

    def c_alltoallv(self, ip, f, o, a, e):
        self.comm_point("Alltoallv", e)
        if CTX is not None:
            return self.r_alltoallv(ip, a, e)
        sp, rp = val(ip, a[0]), val(ip, a[4])
        self.dtype(e, a[3], e["args"][3], getattr(sp, "buf", None))
        self.dtype(e, a[7], e["args"][7], getattr(rp, "buf", None))
        if not isinstance(sp, Ptr) or sp.buf is None or not isinstance(rp, Ptr) or rp.buf is None:
            raise Undecided("communication buffer")
        d = P("dst")
        self.index(d)
        n = self.counts(a[1], d)
        r, c, x = self.slab(Ptr(sp.buf, sp.off + self.counts(a[2], d)), n, e)

        def body(i):
            mp = {"rank": i, "dst": P("rank")}
            self.index(i)
            ci, di = self.counts(a[5], i), self.counts(a[6], i)
            self.agree(e, "MPI_Alltoallv: the count sent by a rank and the count expected from it", self.remap(n, mp), ci)
            ri, cc = self.remap(r, mp), self.remap(c, mp)
            wr(ip, Ptr(rp.buf, rp.off + di), View(ZERO, ri, cc, ONE, ri), self.remap(x, mp), line(e))
        loops.symbolic(ip, P("np"), body, {"l": line(e)})
        return ZERO

    def c_allreduce(self, ip, f, o, a, e):
        self.comm_point("Allreduce", e)
        n0 = e["args"][0]
        while n0.get("k") in ("cast", "icast"):
            n0 = n0["e"]
        rp = val(ip, a[1])
        sp = rp if n0.get("k") == "int" and n0.get("v") == 1 else val(ip, a[0])
        n = num(ip, a[2])
        self.dtype(e, a[3], e["args"][3], getattr(rp, "buf", None))
        if self.opname(e["args"][4]) != "ompi_mpi_op_sum":
            raise Undecided("reduction operator")
        if not isinstance(rp, Ptr) or rp.buf is None:
            raise Undecided("communication buffer")
        if CTX is not None:
            return self.r_allreduce(ip, sp, rp, n, e)
        r, c, x = self.slab(sp, n, e)
        t = Buffer(ip.fresh("reduced"), ip.F.norm(n), "zero")
        t.hints = [(r, c)]
        v = View(ZERO, r, c, ONE, r)

        def body(i):
            self.index(i)
            ip.mwrite(t, v, ip.A.add(ip.M.read(t, v), self.remap(x, {"rank": i})), line(e))
        loops.symbolic(ip, P("np"), body, {"l": line(e)})
        wr(ip, rp, v, ip.M.read(t, v), line(e))
        return ZERO

    # ---------------------------------------------------------------- collectives between fixed ranks
    def brought(self, p, n, e):
        ip = self.ip
        n = ip.F.norm(n)
        if not n.is_const():
            raise Undecided("communicated length %s" % n)
        if n.const_value() < 0:
            raise Undecided("negative count")
        if n.is_zero():
            return (0, None)
        v = flat_view(p.off, n)
        ip.check_view(p.buf, v, "read", line(e))
        x = ip.M.read(p.buf, v)
        if is_unk(x):
            raise Undecided("communicated value: %s" % x)
        return (int(n.const_value()), x)

    def bufp(self, a):
        p = val(self.ip, a)
        if not isinstance(p, Ptr) or p.buf is None:
            raise Undecided("communication buffer")
        return p

    def place_from(self, e, what, i, got, want, p, at):
        ip = self.ip
        want = ip.F.norm(want)
        if not want.is_const():
            raise Undecided("count array")
        if got[0] != want.const_value():
            ip.alarm("%s: rank %d sends %d elements where rank %d expects %s" % (what, i, got[0], CTX.r, want), line(e))
            return
        if got[0]:
            v = flat_view(p.off + at, P(got[0]))
            ip.check_view(p.buf, v, "write", line(e))
            ip.mwrite(p.buf, v, got[1], line(e))

    def r_allgatherv(self, ip, a, e):
        sp, n, rp = self.bufp(a[0]), num(ip, a[1]), self.bufp(a[3])
        self.dtype(e, a[2], e["args"][2], sp.buf)
        self.dtype(e, a[6], e["args"][6], rp.buf)
        all_ = CTX.meet("Allgatherv", line(e), self.brought(sp, n, e))
        for i, d in enumerate(all_):
            i_ = P(i) if i else ZERO
            self.place_from(e, "MPI_Allgatherv", i, d[2], self.counts(a[4], i_), rp, self.counts(a[5], i_))
        return ZERO

    def r_alltoallv(self, ip, a, e):
        sp, rp = self.bufp(a[0]), self.bufp(a[4])
        self.dtype(e, a[3], e["args"][3], sp.buf)
        self.dtype(e, a[7], e["args"][7], rp.buf)
        mine = []
        for d in range(CTX.NP):
            d_ = P(d) if d else ZERO
            mine.append(self.brought(Ptr(sp.buf, sp.off + self.counts(a[2], d_)), self.counts(a[1], d_), e))
        all_ = CTX.meet("Alltoallv", line(e), mine)
        for i, d in enumerate(all_):
            i_ = P(i) if i else ZERO
            self.place_from(e, "MPI_Alltoallv", i, d[2][CTX.r], self.counts(a[5], i_), rp, self.counts(a[6], i_))
        return ZERO

    def r_allreduce(self, ip, sp, rp, n, e):
        all_ = CTX.meet("Allreduce", line(e), self.brought(sp, n, e))
        if len({d[2][0] for d in all_}) > 1:
            ip.alarm("MPI_Allreduce: ranks reduce different numbers of elements", line(e))
            return ZERO
        x = None
        for d in all_:
            if d[2][0]:
                x = d[2][1] if x is None else ip.A.add(x, d[2][1])
        if x is not None:
            v = flat_view(rp.off, x.r)
            ip.check_view(rp.buf, v, "write", line(e))
            ip.mwrite(rp.buf, v, x, line(e))
        return ZERO
