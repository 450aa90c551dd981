"""Runs the interpreter over every partition of an entry function and compares the
effect with the specification."""
import os, re, sys, traceback, time, signal
from poly import Poly, P, ZERO, ONE
from terms import *
from interp import *
import interp as I


class TimeUp(BaseException):
    pass


LIMIT = [None]       # no new partition is started after this moment


def limit(deadline, case_s):
    """time limits of this worker; raises TimeUp inside a partition that runs over"""
    def ring(*a):
        raise TimeUp()
    left = min(deadline - time.time(), case_s)
    LIMIT[0] = time.time() + left
    signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, max(left, 0.01) + 2)


class Outcome:
    __slots__ = ("status", "what", "where", "detail", "path", "case")

    def __init__(self, status, what, where="", detail="", path=None, case=""):
        self.status, self.what, self.where, self.detail, self.path, self.case = status, what, where, detail, path or [], case


class Case:
    """one entry function under one flag combination"""

    def __init__(self, fn, label, setup, cplx, prop, options=None):
        self.fn, self.label, self.setup, self.cplx, self.prop = fn, label, setup, cplx, prop
        self.options = options or {}


class Result:
    def __init__(self):
        self.parts = 0
        self.holds = 0
        self.undecided = []
        self.violations = []
        self.calls = set()
        self.sized, self.sized_ok = [], 0
        self.logged = 0
        self.rejected, self.why = 0, None


def last_writer(ir, buf, default):
    n = buf.head
    while n is not None:
        if n.line and isinstance(n.line, tuple) and n.line[0] is not None:
            return ir.loc(n.line[0], n.line[1] or None) + " (in %s)" % n.line[0]["q"]
        n = n.prev
    return default


# combinations the library documents (by reporting an error) as not supported
UNSUPPORTED = re.compile(r"trans[ab]?=C .*symmetry=S|trans[ab]?=T .*symmetry=H|non-local renumbering|block disjoint|^(UPLO=. )?L 2 blocks|above the partition")


def run_case(ir, case, cap=256):
    res = run_partitions(ir, case, cap)
    if res.rejected and res.rejected == res.parts and not res.undecided and not UNSUPPORTED.search(case.label):
        res.violations.append(Outcome("violation", "a supported combination is rejected", ir.loc(case.fn), case=case, detail=str(res.why)[:200]))
    if (res.undecided or case.options.get("ranks")) and not res.violations and case.options.get("sized", True):
        refute(ir, case, res, tables=(0, 1) if res.undecided else (0,))
    return res


def refute(ir, case, res, cap=64, tables=(0, 1)):
    """the undecided obligations once more at fixed sizes: only a definite difference counts"""
    import sized
    for k in tables:
        sz = case.options.get("sizes")
        with sized.At(k, sz[k % len(sz)] if sz else None):
            try:
                r = run_partitions(ir, case, cap, k)
            except Exception as e:
                res.sized.append("crash: %r" % e)
                continue
        res.sized += ["%d: %s" % (k, o.what) for o in r.undecided]
        res.sized_ok += r.holds
        for o in r.violations:
            o.what += " (refuted at fixed sizes)"
            res.violations.append(o)
        if r.violations:
            return


def run_one(ir, case, plan, sized=None):
    """one partition: the interpreter after the run and its outcomes (None: infeasible)"""
    ip = Interp(ir, case.cplx, plan)
    if sized is not None:
        import sized as SZ
        SZ.install(ip, sized)
    I.Obj._n = I.Vec._n = I.Coll._n = I.Smart._n = 0
    where = ir.loc(case.fn)
    try:
        this, args, checks = case.setup(ip, case.fn)
        if case.fn.get("ctor") and isinstance(this, Obj):
            v = ip.construct(case.fn, case.fn["clst"], args, this)
        else:
            v = ip.invoke(case.fn, this, args)
        ip.retval = v
        outs = checks(ip)
    except Infeasible:
        outs = None
    except Throw:
        outs = [Outcome("throw", "throws")]
    except Definite as u:
        outs = [Outcome("violation", u.what, u.where or where)]
    except Undecided as u:
        outs = [Outcome("undecided", str(u))]
    except (Break, Continue) as u:
        outs = [Outcome("undecided", "stray break/continue")]
    except TimeUp:
        outs = [Outcome("undecided", "out of time")]
    except RecursionError:
        outs = [Outcome("undecided", "recursion")]
    except Exception as u:
        # a value the models do not understand: no verdict
        outs = [Outcome("undecided", "internal: %s: %s" % (type(u).__name__, str(u)[:200]))]
    for o in outs or []:
        o.case = case
        o.path = list(ip.trace)
        if ip.tainted and o.status == "violation":
            o.status = "undecided"
            o.what = "tainted: %s | %s" % (ip.tainted[0], o.what)
        if o.status == "violation" and not o.where:
            o.where = where
    return ip, outs


def run_partitions(ir, case, cap=256, sized=None):
    if sized is not None and case.options.get("ranks"):
        return case.options["ranks"](ir, case, lambda plan: run_one(ir, case, plan, sized))
    res = Result()
    plan = []
    while res.parts < cap:
        if LIMIT[0] is not None and time.time() > LIMIT[0]:
            res.undecided.append(Outcome("undecided", "out of time", case=case))
            break
        if len(res.violations) >= 20:
            break
        ip, outs = run_one(ir, case, plan, sized)
        if outs is not None:
            res.parts += 1
            res.calls |= ip.call_log
            if any(o.status == "throw" for o in outs):
                res.rejected += 1
                res.why = ip.logged[:2] or [o.what for o in outs][:2]
            for o in outs:
                if o.status == "ok":
                    res.holds += 1
                elif o.status == "violation":
                    res.violations.append(o)
                elif o.status == "throw":
                    pass
                else:
                    res.undecided.append(o)
        # next partition
        tr = ip.trace
        i = len(tr) - 1
        while i >= 0 and not tr[i][1]:
            i -= 1
        if i < 0:
            break
        plan = [b for _, b in tr[:i]] + [False]
    else:
        res.undecided.append(Outcome("undecided", "partition cap reached", case=case))
    return res


# ------------------------------------------------------------------ building blocks
def cell(v):
    return Cell(v)


class Spec:
    """helper bound to one interpreter run"""

    def __init__(self, ip, T):
        self.ip, self.T = ip, T
        self.inputs = []      # (buffer, name) that must stay unchanged
        for a in ("m", "n", "k", "mu"):
            ip.F.add_ge0(P(a) - 1)

    def buf(self, name, size, out=False):
        b = Buffer(name, P(size), "init")
        b.src = name
        if not out:
            self.inputs.append(b)
        return b

    def matrix(self, name, r, c, out=False, hints=True):
        r, c = P(r), P(c)
        o = Obj("htool::Matrix<%s>" % self.T, name)
        b = self.buf(name, r * c, out)
        b.hints = [(r, c)]
        o.f["m_number_of_rows"] = r
        o.f["m_number_of_cols"] = c
        o.f["m_data"] = Ptr(b, ZERO)
        o.f["m_is_owning_data"] = True
        o.f["m_pivots"] = Vec(IBuf(name + ".pivots", None), Poly.atom(name + ".npiv"))
        o.tag["buf"] = b
        return o

    def lowrank(self, name, r, c, rank, out=False):
        r, c, k = P(r), P(c), P(rank)
        o = Obj("htool::LowRankMatrix<%s, double>" % self.T, name)
        self.ip.F.add_ge0(k)
        o.f["m_U"] = self.matrix(name + ".U", r, k, out)
        o.f["m_V"] = self.matrix(name + ".V", k, c, out)
        o.f["m_epsilon"] = Poly.atom("eps_" + name)
        o.tag["lr"] = (r, c, k)
        return o

    def lr(self, o):
        r, c, k = o.tag["lr"]
        A = self.ip.A
        return A.mul(A.view(o.name + ".U", View(ZERO, r, k, ONE, r)), A.view(o.name + ".V", View(ZERO, k, c, ONE, k)))

    def valof(self, o):
        return self.lr(o) if "lr" in o.tag else self.val(o)

    def finalof(self, o):
        if "lr" in o.tag:
            a, ba = self.final_matrix(o.f["m_U"])
            b, bb = self.final_matrix(o.f["m_V"])
            if is_unk(a) or is_unk(b):
                return (a if is_unk(a) else b), ba
            F = self.ip.F
            if not F.eq(a.c, b.r):
                return Unk("rank mismatch"), ba
            return self.ip.A.mul(a, b), ba
        return self.final_matrix(o)

    def dims(self, o, r, c):
        """the result keeps its shape"""
        F = self.ip.F
        if "lr" in o.tag:
            U, V = o.f["m_U"].f, o.f["m_V"].f
            got = (U["m_number_of_rows"], V["m_number_of_cols"])
            inner = (U["m_number_of_cols"], V["m_number_of_rows"])
        else:
            got = (o.f["m_number_of_rows"], o.f["m_number_of_cols"])
            inner = None
        if any(not isinstance(x, Poly) for x in got):
            return []
        if F.eq(got[0], P(r)) and F.eq(got[1], P(c)):
            return []
        return [Outcome("violation", "the result is %s x %s instead of %s x %s" % (F.norm(got[0]), F.norm(got[1]), r, c))]

    def val(self, o):
        """value of a Matrix object in its initial state"""
        b = o.tag["buf"]
        return self.ip.A.view(b.name, View(ZERO, o.f["m_number_of_rows"], o.f["m_number_of_cols"], ONE, o.f["m_number_of_rows"]))

    def sym(self, o, uplo, kind):
        n = o.f["m_number_of_rows"]
        return self.ip.A.of_factor(("sym", o.tag["buf"].name, ZERO, n, n, uplo, kind, "N"))

    def ptr(self, name, size, out=False, hints=()):
        b = self.buf(name, size, out)
        b.hints = [(P(a), P(c)) for a, c in hints]
        return b

    def scalar(self, name):
        return Poly.atom("$" + name)

    def final_matrix(self, o):
        """current value of a Matrix object (through whatever buffer it now owns)"""
        r, c = o.f.get("m_number_of_rows"), o.f.get("m_number_of_cols")
        p = o.f.get("m_data")
        if not isinstance(p, Ptr) or is_unk(r) or is_unk(c):
            return Unk("matrix state"), None
        if p.buf is None:
            return self.ip.A.zero(r, c), None
        return self.ip.M.read(p.buf, View(p.off, r, c, ONE, r)), p.buf

    def compare(self, got, want, what, buf=None, where=""):
        r = self.ip.A.equal(got, want)
        if r is True:
            return Outcome("ok", what)
        if r is None:
            return Outcome("undecided", what + ": " + str(got if is_unk(got) else want))
        import numeval
        d = numeval.definite(self.ip.A, got, want)
        if d is None and self.ip.sized is not None:
            return Outcome("undecided", what + ": cannot be evaluated at fixed sizes")
        if d is False and self.ip.sized is not None:
            return Outcome("ok", what)
        if d is False:
            return Outcome("undecided", what + ": written differently from the specification, equal at every sample: %s" % (got,))
        w = where
        if buf is not None:
            w = last_writer(self.ip.ir, buf, where)
        return Outcome("violation", what, w, "computes %s ; specified %s" % (got, self.ip.A.norm(want)))

    def frame(self):
        """inputs keep their value"""
        out = []
        for b in self.inputs:
            n = b.head
            dirty = False
            while n is not None:
                dirty = True
                n = n.prev
            if not dirty:
                continue
            v = View(ZERO, b.size, ONE, ONE, ZERO)
            done = False
            for sh in [View(ZERO, r, c, ONE, r) for r, c in getattr(b, "hints", [])] + [v]:
                got = self.ip.M.read(b, sh)
                o = self.compare(got, self.ip.A.view(b.name, sh), "input %s is left unchanged" % b.name, b)
                if o.status != "undecided":
                    out.append(o)
                    done = True
                    break
            if not done:
                out.append(o)
        return out

    def alarms(self):
        return [Outcome("violation", a[0], a[1], a[0]) for a in self.ip.alarms + self.ip.overruns()]


def load_ir(repo="/repo"):
    pass
