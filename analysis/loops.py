"""Loop summaries.

A loop is never unrolled (unless its trip count is a constant <= 6): the set of written
locations is discovered by a fixpoint, induction variables and prefix sums are derived,
and the effect of one generic iteration is lifted over the whole iteration space:
disjoint writes become one write of an extended region, accumulations become contractions.
"""
from poly import Poly, P, ZERO, ONE
from terms import *
from interp import *
import interp as I


class Iv:
    """the iterations enumerate the cells of a partition of [start, start+N): cell = [atom, atom+s)"""
    __slots__ = ("a", "start", "s", "N")

    def __init__(self, a, start, s, N):
        self.a, self.start, self.s, self.N = a, P(start), P(s), P(N)

    def __repr__(self):
        return "Iv(%s from %s, +%s of %s)" % (self.a, self.start, self.s, self.N)


# ------------------------------------------------------------------ facts snapshot
def snap(F):
    return (dict(F.sub), list(F.ge), list(F.ne), set(F.free), dict(F.preds))


def restore(F, s):
    F.sub, F.ge, F.ne, F.free, F.preds = dict(s[0]), list(s[1]), list(s[2]), set(s[3]), dict(s[4])
    F.cache = {}


# ------------------------------------------------------------------ statement entry points
def do_for(ip, s):
    ip.env = {"vars": {}, "up": ip.env}
    try:
        if s.get("init"):
            ip.block(s["init"])
        run(ip, s.get("c"), lambda: body_of(ip, s["body"]), (lambda: ip.rv(s["inc"])) if s.get("inc") else None, s)
    finally:
        ip.env = ip.env["up"]


def do_while(ip, s):
    run(ip, s["c"], lambda: body_of(ip, s["body"]), None, s)


def do_do(ip, s):
    body_of(ip, s["body"])
    run(ip, s["c"], lambda: body_of(ip, s["body"]), None, s)


def body_of(ip, b):
    try:
        if b is not None:
            ip.block(b)
    except Continue:
        pass


def do_forrange(ip, s):
    l = ip.lv(s["range"])
    v = ip.lget(l)
    iterate(ip, v, lambda el: bind_body(ip, s, el), s)


def bind_body(ip, s, el):
    d = s["var"]
    ip.env = {"vars": {}, "up": ip.env}
    try:
        if is_ref(d["t"]):
            x = ip.lget(el)
            if isinstance(x, (Obj, Vec, Coll, Smart)):
                ip.env["vars"][d["id"]] = Cell(x)
            elif isinstance(el, tuple) and el[0] != "t":
                ip.env["vars"][d["id"]] = LCell(ip, el)
            else:
                ip.env["vars"][d["id"]] = Cell(x)
        else:
            x = ip.lget(el)
            if isinstance(x, Obj):
                x = ip.copy_obj(x)
            ip.env["vars"][d["id"]] = Cell(ip.copyval(x))
        body_of(ip, s["body"])
    finally:
        ip.env = ip.env["up"]


def iterate(ip, v, body, s):
    """for every element of a container"""
    if isinstance(v, Vec):
        n = ip.F.norm(v.size)
        if n.is_const():
            for i in range(int(n.const_value())):
                try:
                    body(("e", v.buf, P(i)))
                except Break:
                    return
            return
        symbolic(ip, n, lambda it: body(("e", v.buf, it)), s)
        return
    if isinstance(v, Coll):
        pos = ZERO
        for p in list(v.parts):
            if p[0] == "one":
                try:
                    w = isinstance(p[1], PObj) and isinstance(s.get("var"), dict) and s["var"]["t"].replace(" ", "").endswith("*&")
                    body(("t", p[1]) if isinstance(p[1], (Obj, PObj, Smart, Vec, Coll)) and not w else ("c", v, pos))
                except Break:
                    return
                pos = pos + 1
            elif p[0] in ("sym", "symref", "sym0"):
                src = p[1] if p[0] == "symref" else v
                n = ip.F.norm(p[2])
                if n.is_zero():
                    continue
                off = ZERO if p[0] == "symref" else pos
                symbolic(ip, n, lambda it: body(("t", ip.sym_elem(src, off + it)) if p[0] != "sym0" else ("c", v, off + it)), s)
                pos = pos + n
            elif p[0] == "each":
                raise Undecided("iteration over a collected range")
            else:
                raise Undecided("iteration over an unknown collection")
        return
    if isinstance(v, Tup):
        for x in v.vs:
            try:
                body(("t", x))
            except Break:
                return
        return
    if is_unk(v):
        raise Undecided("range-for over " + v.why)
    raise Undecided("range-for over %r" % (v,))


def for_each(ip, a, b, body, e):
    if isinstance(a, It) and isinstance(b, It) and a.c is b.c and ip.F.zero(a.i) and ip.F.eq(b.i, ip.coll_size(a.c)):
        iterate(ip, a.c, body, e)
    elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.buf is b.buf:
        n = ip.F.norm(b.off - a.off)
        if n.is_const():
            for i in range(int(n.const_value())):
                body(("e", a.buf, a.off + i))
        else:
            symbolic(ip, n, lambda it: body(("e", a.buf, a.off + it)), e)
    else:
        raise Undecided("for_each")


# ------------------------------------------------------------------ general loops
def peek(ip, c):
    """truth of a condition without splitting the partition: True/False/None, constant?"""
    v = ip.rv(c) if c is not None else True
    if isinstance(v, bool):
        return v, True, v
    if isinstance(v, Poly):
        v = Cond("ne", v)
    if isinstance(v, Cond) and v.k in ("eq", "ne", "ge"):
        p = ip.F.norm(v.p)
        if p.is_const():
            x = p.const_value()
            return {"eq": x == 0, "ne": x != 0, "ge": x >= 0}[v.k], True, v
        if v.k == "ge":
            if ip.F.nonneg(p):
                return True, False, v
            if ip.F.nonneg(-p - 1):
                return False, False, v
    return None, False, v


LIMIT = 40


def run(ip, c, body, inc, s):
    import idioms
    if idioms.search_loop(ip, s) or idioms.swap_loop(ip, c, s):
        return
    m = ip.mark()
    tr = len(ip.trace)
    t, const, _ = peek(ip, c)
    if t is False:
        return
    if const:
        k = 0
        ok = True
        while True:
            if k:                            # (the condition itself may have effects)
                t, const, _ = peek(ip, c)
            if not const:
                ok = False
                break
            if not t:
                return
            k += 1
            if k > getattr(ip, "loop_limit", LIMIT):
                ok = False
                break
            try:
                body()
            except Break:
                return
            if inc:
                inc()
        if not ok and len(ip.trace) == tr:
            ip.rollback(m)
        elif not ok:
            raise Undecided("loop with data-dependent continuation")
    general(ip, c, body, inc, s)


class Frame:
    def __init__(self, ip):
        self.atoms = set()
        self.plan = []
        self.trace = []
        self.memo = {}
        self.trip = None        # (iterations, index atom) of a loop that is being summarised

    def choose(self, key, label):
        if key in self.memo:
            return self.memo[key]
        i = len(self.trace)
        v = self.plan[i] if i < len(self.plan) else True
        self.trace.append((label, v))
        self.memo[key] = v
        return v


def variants(ip, fr, fn, cap=24):
    """run fn under every outcome of the iteration-dependent branches; each run is rolled back"""
    out = []
    fr.plan = []
    while True:
        fs, m = snap(ip.F), ip.mark()
        fr.trace, fr.memo = [], {}
        nt = len(ip.tainted)
        try:
            r = fn()
            out.append((list(fr.trace), r))
        except Infeasible:
            pass
        finally:
            tr = fr.trace
            restore(ip.F, fs)
            ip.rollback(m)
        if len(out) > cap:
            raise Undecided("too many iteration-dependent branches")
        i = len(tr) - 1
        while i >= 0 and not tr[i][1]:
            i -= 1
        if i < 0:
            return out
        fr.plan = [b for _, b in tr[:i]] + [False]


class Loc:
    """a scalar location that survives the iteration"""

    def __init__(self, kind, a, b=None):
        self.kind, self.a, self.b = kind, a, b

    def key(self):
        return (self.kind, id(self.a) if self.kind != "f" else self.a.uid, self.b)

    def get(self, ip):
        if self.kind == "c":
            return self.a.v
        if self.kind == "f":
            return ip.getfield(self.a, self.b)
        return getattr(self.a, self.b)

    def set(self, ip, v):
        if self.kind == "c":
            ip.setcell(self.a, v)
        elif self.kind == "f":
            ip.setfield(self.a, self.b, v)
        else:
            ip.setattr_(self.a, self.b, v)


class Writes:
    def __init__(self):
        self.locs = {}
        self.bufs = {}
        self.ibufs = {}
        self.colls = {}


def observe(ip, fn, marks):
    """run fn recording what it writes among locations older than the loop"""
    cm, bm, om = marks
    ip.written_cells = (ip.written_cells or []) + [{}]
    ip.written_fields = (ip.written_fields or []) + [{}]
    ip.written_attrs = (ip.written_attrs or []) + [{}]
    ip.written_bufs = (ip.written_bufs or []) + [{}]
    w = Writes()
    try:
        r = fn()
        for c, old in ip.written_cells[-1].values():
            if c.birth <= cm:
                l = Loc("c", c)
                w.locs[l.key()] = l
        for o, n, old, had in ip.written_fields[-1].values():
            if o.uid <= om or o.lazy:
                l = Loc("f", o, n)
                w.locs[l.key()] = l
        for o, n, old in ip.written_attrs[-1].values():
            if isinstance(o, IBuf):
                if o.uid <= marks[1][1]:
                    w.ibufs[o.uid] = o
            elif isinstance(o, Coll):
                if o.uid <= marks[1][2]:
                    w.colls[o.uid] = o
            elif isinstance(o, Vec):
                if o.uid <= marks[1][3]:
                    l = Loc("a", o, n)
                    w.locs[l.key()] = l
            elif isinstance(o, Smart):
                if o.uid <= marks[1][4]:
                    l = Loc("a", o, n)
                    w.locs[l.key()] = l
        for b, old in ip.written_bufs[-1].values():
            if b.uid <= marks[1][0]:
                w.bufs[b.uid] = b
    finally:
        ip.written_cells = ip.written_cells[:-1]
        ip.written_fields = ip.written_fields[:-1]
        ip.written_attrs = ip.written_attrs[:-1]
        ip.written_bufs = ip.written_bufs[:-1]
    return w


def merge(W, w):
    n = len(W.locs) + len(W.bufs) + len(W.ibufs) + len(W.colls)
    W.locs.update(w.locs)
    W.bufs.update(w.bufs)
    W.ibufs.update(w.ibufs)
    W.colls.update(w.colls)
    return len(W.locs) + len(W.bufs) + len(W.ibufs) + len(W.colls) != n


def iter_atom(ip):
    ip.iter_n = getattr(ip, "iter_n", 0) + 1
    return "<it%d>" % ip.iter_n


def newatom(ip, fr, coef=False):
    ip.iter_n = getattr(ip, "iter_n", 0) + 1
    a = ("$" if coef else "") + "<x%d>" % ip.iter_n
    fr.atoms.add(a)
    ip.loopatoms.add(a)
    if not coef:
        ip.F.free.add(a)
    return a


def is_coef(v):
    return isinstance(v, MatVal) or (isinstance(v, Poly) and any("$" in a for a in v.atoms()))


def symbol_for(ip, fr, v, coef):
    if coef or is_coef(v):
        return Poly.atom(newatom(ip, fr, True))
    if isinstance(v, Poly):
        return Poly.atom(newatom(ip, fr))
    if isinstance(v, Ptr) and v.buf is not None:
        return Ptr(v.buf, Poly.atom(newatom(ip, fr)))
    if isinstance(v, It):
        return It(v.c, Poly.atom(newatom(ip, fr)), v.rev)
    return Unk("loop-carried")


def marks_of(ip):
    return (Cell.n, (Buffer._n, IBuf._n, Coll._n, Vec._n, Smart._n), Obj._n)


def general(ip, c, body, inc, s):
    """loop controlled by a condition over induction variables"""
    def one():
        if c is not None:
            ip.rv(c)
        body()
        if inc:
            inc()
    fr = Frame(ip)
    ip.frames.append(fr)
    fs = snap(ip.F)
    try:
        marks = marks_of(ip)
        W, coefs = discover(ip, fr, one, marks)
        # ---- induction variables
        syms = {}
        ind, cond = induction(ip, fr, W, coefs, c, one, syms)
    finally:
        ip.frames.pop()
        free = ip.F.free
        restore(ip.F, fs)
    # trip count
    it = None
    if isinstance(cond, bool):
        raise Undecided("loop condition")
    if isinstance(cond, Poly):
        cond = Cond("ne", cond)
    if not isinstance(cond, Cond) or cond.k not in ("ge", "ne"):
        raise Undecided("loop condition %r" % (cond,))
    ita = iter_atom(ip)
    itp = Poly.atom(ita)
    sub = {}
    for l in W.locs.values():
        x = syms.get(l.key())
        k = ind.get(l.key())
        if x is None:
            continue
        a, v0 = x
        if k is not None:
            sub[a] = v0 + k * itp
    p = ip.F.norm(cond.p.subs(sub))
    if any(a.startswith("<x") or a.startswith("$<x") for a in p.atoms()):
        raise Undecided("loop condition over a non-inductive variable")
    sp = p.split(ita)
    if sp is None:
        raise Undecided("non-linear loop condition")
    k, p0 = sp
    if k.is_zero():
        # invariant condition: zero-trip or non-terminating
        if ip.decide(cond if not sub else Cond(cond.k, p0)):
            raise Undecided("loop without progress")
        return
    if not k.is_const():
        raise Undecided("symbolic loop step")
    kc = k.const_value()
    if cond.k == "ge":
        if kc >= 0:
            raise Undecided("loop direction")
        if kc == -1:
            N = p0 + 1
        else:
            q = p0.div(P(-kc))
            N = Poly.atom("idiv(%s,%s)" % (p0, -kc)) + 1
    else:
        if abs(kc) != 1:
            raise Undecided("loop step")
        N = p0 if kc == -1 else -p0
    N = ip.F.norm(N)
    if ip.F.nonneg(-N):
        return
    if not ip.F.nonneg(N):
        if cond.k == "ne":
            ip.F.add_ge0(N)
        elif not ip.decide(Cond("ge", N - 1)):
            return

    def gen(itv):
        one()
    summarise(ip, N, ita, gen, W, coefs, s, ind, syms)


def symbolic(ip, N, body, s):
    """loop over a container: exactly N iterations with index it"""
    if not ip.F.nonneg(N) and not ip.F.nonneg(N - 1):
        if ip.F.nonneg(-N):
            return
    fr = Frame(ip)
    ip.frames.append(fr)
    fs = snap(ip.F)
    try:
        marks = marks_of(ip)
        a = newatom(ip, fr)
        ip.F.free.discard(a)

        def one():
            try:
                body(Poly.atom(a))
            except Break:
                raise Undecided("break in a symbolic loop")
        W, coefs = discover(ip, fr, one, marks)
        syms = {}
        ind, _ = induction(ip, fr, W, coefs, None, one, syms)
    finally:
        ip.frames.pop()
        restore(ip.F, fs)
    ita = iter_atom(ip)

    def gen(itv):
        try:
            body(itv)
        except Break:
            raise Undecided("break in a symbolic loop")
    summarise(ip, ip.F.norm(N), ita, gen, W, coefs, s, ind, syms)


def discover(ip, fr, one, marks):
    W = Writes()
    coefs = set()
    ip.discovering = getattr(ip, "discovering", 0) + 1
    na = len(ip.alarms)
    try:
        for _ in range(5):
            def go():
                for l in list(W.locs.values()):
                    l.set(ip, symbol_for(ip, fr, l.get(ip), l.key() in coefs))
                for c in W.colls.values():
                    pass
                w = observe(ip, one, marks)
                for l in w.locs.values():
                    if is_coef(l.get(ip)):
                        coefs.add(l.key())
                return w
            changed = False
            n0 = len(coefs)
            for tr, w in variants(ip, fr, go):
                if merge(W, w):
                    changed = True
            if not changed and len(coefs) == n0:
                return W, coefs
    finally:
        ip.discovering -= 1
        del ip.alarms[na:]
    raise Undecided("loop writes do not stabilise")


def induction(ip, fr, W, coefs, c, one, syms):
    """step of each inductive location; syms: loc key -> (atom, initial Poly)"""
    na = len(ip.alarms)
    cond_box = []

    def go():
        cur = {}
        for l in W.locs.values():
            v = l.get(ip)
            x = symbol_for(ip, fr, v, l.key() in coefs)
            cur[l.key()] = (v, x)
            l.set(ip, x)
        cv = ip.rv(c) if c is not None else None
        one()
        return cur, {l.key(): l.get(ip) for l in W.locs.values()}, cv
    ind = {}
    bad = set()
    first = None
    res = variants(ip, fr, go)
    del ip.alarms[na:]
    if not res:
        raise Undecided("no feasible iteration")
    for tr, (cur, new, cv) in res:
        if first is None:
            cond_box.append(cv)
        for k in cur:
            v, x = cur[k]
            y = new[k]
            d = None
            if k in coefs:
                continue
            if isinstance(x, Poly) and isinstance(y, Poly):
                d = ip.F.norm(y - x)
                a = list(x.atoms())[0]
                v0 = v
            elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.buf is y.buf:
                d = ip.F.norm(y.off - x.off)
                a = list(x.off.atoms())[0]
                v0 = v.off
            elif isinstance(x, It) and isinstance(y, It) and x.c is y.c:
                d = ip.F.norm(y.i - x.i)
                a = list(x.i.atoms())[0]
                v0 = v.i
            if d is None:
                bad.add(k)
                continue
            if first is None:
                syms[k] = (a, v0)
                ind[k] = d
            else:
                # same step under every branch outcome (atoms differ between runs: compare after renaming)
                if ind.get(k) is None or not ip.F.eq(rename(d, cur, first), ind[k]):
                    bad.add(k)
        if first is None:
            first = cur
    for k in bad:
        ind.pop(k, None)
        syms.pop(k, None)
    # steps depending on other loop symbols are prefix sums: resolved during the summary
    for k in list(ind):
        if any(a in fr.atoms or "<x" in a for a in ind[k].atoms()):
            ind[k] = None
    for k in list(ind):
        if ind[k] is None:
            del ind[k]
    return ind, cond_box[0]


def rename(d, cur, first):
    mp = {}
    for k in cur:
        x, y = cur[k][1], first[k][1]
        for p, q in ((x, y),) if isinstance(x, Poly) else (((x.off, y.off),) if isinstance(x, Ptr) else (((x.i, y.i),) if isinstance(x, It) else ())):
            mp[list(p.atoms())[0]] = q
    return d.subs(mp)


def psum(ip, delta, ita, k):
    """sum of delta(it) for it in [0,k)"""
    delta, k = ip.F.norm(delta), ip.F.norm(k)
    if k.is_zero():
        return ZERO
    if not dep_poly(delta, ita):
        return delta * k
    sp = delta.split(ita)
    rest = delta
    name = "sum{%s}(%s)" % (str(delta).replace(ita, "."), k)
    tot = ip.total_hook(ip, delta, ita, k) if ip.total_hook else None
    return tot if tot is not None else Poly.atom(name)


def dep_poly(p, ita):
    return any(ita in a for a in p.atoms())


class Iteration:
    pass


def summarise(ip, N, ita, gen, W, coefs, s, ind, syms):
    F, A, M = ip.F, ip.A, ip.M
    itp = Poly.atom(ita)
    fr = Frame(ip)
    fr.trip = (N, ita)
    fr.atoms.add(ita)
    ip.loopatoms.add(ita)
    ip.frames.append(fr)
    fs = snap(F)
    touched0 = ip.touched
    ip.touched = []
    pre = {b.uid: b.head for b in W.bufs.values()}
    barname = {}
    results = []
    cellbar = {}
    try:
        F.add_ge0(N - 1 - itp)
        F.add_ge0(N - 1)
        ps = {}
        zones = {}

        def go(pass2):
            snapcells = {}
            for l in W.locs.values():
                k = l.key()
                v = l.get(ip)
                snapcells[k] = v
                if k in coefs:
                    a = cellbar.setdefault(k, "$<x%s>" % ip.fresh("c"))
                    fr.atoms.add(a)
                    ip.loopatoms.add(a)
                    l.set(ip, Poly.atom(a))
                elif k in ind:
                    l.set(ip, shift(v, ind[k] * itp))
                elif k in ps:
                    l.set(ip, shift(v, psum(ip, ps[k], ita, itp)))
                elif isinstance(v, (Poly, Ptr, It)) and not pass2:
                    a = cellbar.setdefault(k, "<x%s>" % ip.fresh("c"))
                    fr.atoms.add(a)
                    ip.loopatoms.add(a)
                    F.free.add(a)
                    l.set(ip, setoff(v, Poly.atom(a)))
                else:
                    l.set(ip, Unk("loop-carried"))
            for b in W.bufs.values():
                nm = barname.setdefault(b.uid, "%s@%s" % (b.name, ita))
                old = b.head
                ip.journal.append(lambda b=b, old=old: setattr(b, "head", old))
                b.head = Node(old, None, ("barrier", nm, zones[b.uid]) if b.uid in zones else ("barrier", nm), None)
            ib0 = {}
            for b in W.ibufs.values():
                nm = "ibar(%s@%s)" % (b.name, ita)
                ip.setattr_(b, "entries", b.entries + ((None, BarFn(nm, ip.bar_atoms), None),))
                ib0[b.uid] = len(b.entries)
            cl0 = {c.uid: list(c.parts) for c in W.colls.values()}
            ip.append_log = (ip.append_log or []) + [[]]
            na = len(ip.append_log[-1])
            lb = ip.loop_bufs
            ip.loop_bufs = (lb or []) + [W.bufs]
            try:
                gen(itp)
                app = ip.append_log[-1]
            finally:
                ip.append_log = ip.append_log[:-1]
                ip.loop_bufs = lb
            r = Iteration()
            r.writes = {}
            r.facts = snap(F)
            for b in W.bufs.values():
                ns = []
                n = b.head
                while n is not None and not (n.view is None and isinstance(n.val, tuple) and n.val[1] == barname[b.uid]):
                    ns.append(n)
                    n = n.prev
                if n is None:
                    r.writes[b.uid] = None      # replaced wholesale
                else:
                    r.writes[b.uid] = [(x.view.norm(F) if x.view is not None else None, A.norm(x.val) if x.view is not None and not is_unk(x.val) else x.val, x.line) for x in reversed(ns)]
            r.cells = {l.key(): l.get(ip) for l in W.locs.values()}
            r.old = snapcells
            r.ient = {b.uid: b.entries[ib0[b.uid]:] if len(b.entries) >= ib0[b.uid] else None for b in W.ibufs.values()}
            r.app = app
            r.colls = {c.uid: c.parts[len(cl0[c.uid]):] if c.parts[:len(cl0[c.uid])] == cl0[c.uid] else None for c in W.colls.values()}
            return r
        # prefix sums need one extra look at the steps
        rest = [k for k in W.locs if k not in ind and k not in coefs]
        if rest:
            na = len(ip.alarms)
            got = variants(ip, fr, lambda: go(False))
            del ip.alarms[na:]
            for k in rest:
                ds = []
                for tr, r in got:
                    o, n = r.old[k], r.cells[k]
                    a = cellbar.get(k)
                    if a is None or not isinstance(n, (Poly, Ptr, It)):
                        ds.append(None)
                        continue
                    d = F.norm(offof(n) - Poly.atom(a))
                    ds.append(None if (d.atoms() & fr.atoms - {ita}) else d)
                if ds and all(d is not None and d == ds[0] for d in ds):
                    ps[k] = ds[0]
        def attempt():
            ip.touched = []
            results = variants(ip, fr, lambda: go(True))
            touched = ip.touched
            ivs = intervals(ip, ita, N, touched, ps)
            if not results:
                raise Undecided("no feasible iteration")
            # effects must agree between branch outcomes
            base = max((r for tr, r in results), key=lambda r: (sum(len(squash(ip, x)) if x else 0 for x in r.writes.values()), sum(len(x) if x else 0 for x in r.ient.values()), -len(r.facts[0])))
            base.first = {}
            for tr, r in results:
                if r is not base:
                    unify(ip, base, r, barname, ita)
            for a, (fn, q) in list(ip.fn_atoms.items()):
                if ita in a and not (q.atoms() - {ita}):
                    fn(q)                   # facts attached to the indexed atoms of this iteration
            lifted = {}
            for b in W.bufs.values():
                lifted[b.uid] = lift_writes(ip, b, base.writes[b.uid], ivs, ita, N, barname, pre)
            return base, ivs, lifted

        na = len(ip.alarms)
        base, ivs, lifted = attempt()
        if any(v is None or v == "fam" and is_unk(val.val) for x in lifted.values() for v, val, ln in x):
            z = write_zones(ip, base, W, ivs, ita)
            if z:
                zones.update(z)
                na2 = len(ip.alarms)
                b2, iv2, l2 = attempt()
                z2 = write_zones(ip, b2, W, iv2, ita)
                if all(z2.get(u) == q for u, q in z.items()):
                    base, ivs, lifted = b2, iv2, l2
                    del ip.alarms[na:na2]
                else:
                    del ip.alarms[na2:]
        if ip.debug and any(v is None for x in lifted.values() for v, val, ln in x):
            print("   zones", zones)
        finals = {}
        for k, l in W.locs.items():
            v0 = base.old[k]
            if k in coefs:
                finals[k] = lift_scalar(ip, v0, base.cells[k], cellbar[k], ivs, ita, N)
            elif k in ind:
                finals[k] = shift(v0, ind[k] * N)
            elif k in ps:
                finals[k] = shift(v0, psum(ip, ps[k], ita, N))
            else:
                y = base.cells[k]
                finals[k] = Unk("loop-carried") if not same_obj(y, v0) else v0
    finally:
        ip.frames.pop()
        restore(F, fs)
        ip.touched = touched0
    # ---- apply
    for k, l in W.locs.items():
        l.set(ip, finals[k])
    for b in W.bufs.values():
        for v, val, ln in lifted[b.uid]:
            if v == "once":
                # the same value every iteration
                if ip.decide(Cond("ge", N - 1)):
                    wv, val = val
                    ip.mwrite(b, wv, val, ln[1] if ln else 0)
            elif v == "fam":
                ip.mfam(b, val, ln[1] if ln else 0)
            elif v is None:
                ip.mhavoc(b, val.why if is_unk(val) else "loop")
            else:
                ip.mwrite(b, v, val, ln[1] if ln else 0)
            if ln and b.head is not None:
                b.head.line = ln
    ients = {"ibar(%s@%s)" % (b.name, ita): base.ient[b.uid] for b in W.ibufs.values() if b.uid not in base.first}
    for b in W.ibufs.values():
        es = base.ient[b.uid]
        lo = 0
        if b.uid in base.first:
            lo = 1
            for idx, v, lp in base.first[b.uid]:
                if idx is None or lp is not None or not isinstance(v, Poly) or "ibar(" in str(v):
                    es = None
                    break
                ip.setattr_(b, "entries", b.entries + ((ip.reindex(idx, ita, ZERO), ip.reindex(v, ita, ZERO), None),))
        own = "ibar(%s@%s)" % (b.name, ita)
        if es:
            es = [(i_, resolve_bars(ip, v_, own, ients, ita, lo), l_) for i_, v_, l_ in es]
        apply_ibuf(ip, b, es, ita, N, lo)
    for c in W.colls.values():
        new = base.colls[c.uid]
        if new is None or any(p[0] not in ("one",) for p in new):
            ip.setattr_(c, "parts", [("unk", "loop")])
        else:
            lp = I.Loop(ZERO, ONE, N, set(), ("range", ita))
            for p in new:
                ip.setattr_(c, "parts", c.parts + [("each", lp, p[1])])
            if len(new) > 1:
                ip.setattr_(c, "parts", c.parts[:-len(new)] + [("unk", "interleaved")])


class BarFn:
    def __init__(self, nm, reg):
        self.nm, self.reg = nm, reg

    def __call__(self, off):
        a = "%s[%s]" % (self.nm, off)
        self.reg[a] = (self.nm, off)
        return Poly.atom(a)


def resolve_bars(ip, v, own, ients, ita, lo):
    """reads of what earlier iterations stored in another integer array"""
    if not isinstance(v, Poly):
        return v
    mp = {}
    for a in v.atoms():
        r = ip.bar_atoms.get(a)
        if r is None or r[0] == own:
            continue
        es = ients.get(r[0])
        if es is None or len(es) != 1:
            continue
        idx, w, lp = es[0]
        if idx is None or lp is not None or not isinstance(w, Poly) or any(x in ip.bar_atoms for x in w.atoms()):
            continue
        sp = ip.F.norm(idx).split(ita)
        if sp is None or not (sp[0] == 1):
            continue
        j = ip.F.norm(r[1] - sp[1])
        back = ip.F.norm(Poly.atom(ita) - j)
        if back.is_const() and 1 <= back.d.get((), 0) <= lo:
            mp[a] = ip.reindex(w, ita, j)
    return v.subs(mp) if mp else v


def same_obj(a, b):
    if a is b:
        return True
    if isinstance(a, (str, bool)) and a == b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym) and a.name == b.name:
        return True
    return False


def offof(v):
    return v if isinstance(v, Poly) else (v.off if isinstance(v, Ptr) else v.i)


def setoff(v, p):
    if isinstance(v, Poly):
        return p
    if isinstance(v, Ptr):
        return Ptr(v.buf, p)
    return It(v.c, p, v.rev)


def shift(v, d):
    if isinstance(v, (Poly, Ptr, It)):
        return setoff(v, offof(v) + d)
    return Unk("loop-carried")


def apply_ibuf(ip, b, es, ita, N, lo=0):
    F = ip.F
    up = Poly.atom(ita) + lo
    N = N - lo
    if es is None:
        ip.setattr_(b, "entries", b.entries + ((None, Unk("loop"), None),))
        return
    nm = "ibar(%s@%s)" % (b.name, ita)
    for idx, v, lp in es:
        if idx is None or lp is not None or not isinstance(v, Poly):
            # recurrences and nested writes are not represented
            ip.setattr_(b, "entries", b.entries + ((None, Unk("loop"), None),))
            return
        bars = [a for a in v.atoms() if a.startswith(nm)]
        if bars:
            # b[it+c] = b[it+c-1] + delta
            prev = "%s[%s]" % (nm, F.norm(idx - 1))
            d = F.norm(v - Poly.atom(prev))
            if bars == [prev] and prev not in d.atoms():
                if lo:
                    d = F.norm(ip.reindex(d, ita, up))
                sp = F.norm(idx).split(ita)
                if sp is not None and sp[0] == 1:
                    c = sp[1] + lo
                    v0 = ip.iget(b, F.norm(c - 1))
                    if isinstance(v0, Poly):
                        # value at index j: v0 + sum of the first j-c+1 deltas
                        def fn(off, c=c, v0=v0, d=d, old=b.entries):
                            return v0 + psum(ip, d, ita, F.norm(off - c + 1))
                        snapb = IBuf(b.name, b.size, b.base)
                        snapb.src, snapb.entries = b.src, b.entries

                        def sel(off, c=c, fn=fn):
                            if F.nonneg(off - c + 1) and F.nonneg(c + N - 1 - off):
                                return fn(off)
                            if F.nonneg(c - 1 - off) or F.nonneg(off - c - N):
                                return ip.iget(snapb, off)
                            return Unk("prefix range")
                        ip.setattr_(b, "entries", b.entries + ((None, sel, None),))
                        continue
            # accumulation into a fixed element
            same = "%s[%s]" % (nm, F.norm(idx))
            d = F.norm(v - Poly.atom(same))
            if bars == [same] and not dep_poly(idx, ita) and not lo:
                v0 = ip.iget(b, idx)
                if isinstance(v0, Poly):
                    ip.setattr_(b, "entries", b.entries + ((idx, v0 + psum(ip, d, ita, N), None),))
                    continue
            ip.setattr_(b, "entries", b.entries + ((None, Unk("loop recurrence"), None),))
            return
        if lo:
            idx, v = F.norm(ip.reindex(idx, ita, up)), F.norm(ip.reindex(v, ita, up))
        if not dep_poly(idx, ita):
            if dep_poly(v, ita):
                v = v.subs({ita: N - 1}) if not any(ita in a and a != ita for a in v.atoms()) else Unk("last iteration")
            ip.setattr_(b, "entries", b.entries + ((idx, v, None),))
        else:
            ip.setattr_(b, "entries", b.entries + ((idx, v, (ita, N)),))


# ------------------------------------------------------------------ agreement between branches
def unify(ip, base, r, barname=None, ita=None):
    """the same effect under every iteration-dependent branch, else unknown"""
    A, F = ip.A, ip.F
    here = snap(F)
    restore(F, r.facts)
    try:
        for u in base.writes:
            a, b = base.writes[u], r.writes[u]
            if a is None or b is None:
                base.writes[u] = None
                continue
            a, b = squash(ip, a), squash(ip, b)
            ok = len(b) <= len(a)
            if ok:
                left = list(b)
                for v1, x1, l1 in a:
                    if v1 is None or is_unk(x1):
                        ok = len(a) == len(b) and all(y[0] is None or is_unk(y[1]) for y in b if y[0] == v1)
                        if not ok:
                            break
                        left = [y for y in left if y[0] != v1]
                        continue
                    n1 = v1.norm(F)
                    hit = [y for y in left if y[0] is not None and y[0].norm(F) == n1]
                    if hit:
                        left.remove(hit[0])
                        y = hit[0][1]
                    elif barname is not None:
                        y = A.view(barname[u], v1)
                    else:
                        ok = False
                        break
                    if is_unk(y) or A.equal(A.norm(x1), A.norm(y)) is not True:
                        ok = False
                        break
                ok = ok and not left
            base.writes[u] = a if ok else None
            if not ok:
                base.why = "branch-dependent effect"
                base.diff = (a, b)
                if ip.debug:
                    print("DIFF", a, "\n  ", b)
    finally:
        restore(F, here)
    for k in base.cells:
        x, y = base.cells[k], r.cells[k]
        if isinstance(x, Poly) and isinstance(y, Poly) and x == y:
            continue
        if isinstance(x, (Poly, MatVal)) and isinstance(y, (Poly, MatVal)) and A.equal(ip.to_mat(x), ip.to_mat(y)) is True:
            continue
        if isinstance(x, (Ptr, It)) and type(x) is type(y) and offof(x) == offof(y):
            continue
        if not same_obj(x, y):
            base.cells[k] = Unk("branch-dependent value")
    for u in base.ient:
        if base.ient[u] != r.ient[u]:
            # only the first iteration behaves differently
            a, b = base.ient[u], r.ient[u]
            restore(F, r.facts)
            if ip.debug: print('IENT', a, b, [str(x) for x in F.ge], F.sub)
            first = bool(ita) and F.nonneg(-Poly.atom(ita))
            restore(F, here)
            if first and a is not None and b is not None and u not in base.first:
                base.first[u] = b
            else:
                base.ient[u] = None
    for u in base.colls:
        if base.colls[u] is None or r.colls[u] is None or len(base.colls[u]) != len(r.colls[u]):
            base.colls[u] = None
    return


def squash(ip, ws):
    """later writes of the same view replace earlier ones"""
    out = []
    for w in ws:
        if w[0] is not None:
            out = [x for x in out if x[0] is None or x[0] != w[0]]
        out.append(w)
    return out


# ------------------------------------------------------------------ lifting
def intervals(ip, ita, N, touched, ps):
    out = [[Iv(ita, ZERO, ONE, N)]]
    seen = set()
    for coll, idx, el in touched:
        if not dep_poly(idx, ita) or id(coll) in seen:
            continue
        seen.add(id(coll))
        if ip.domain_hook:
            d = ip.domain_hook(ip, coll, idx, el)
            if d:
                out.append(d)
    if ip.iv_hook:
        out += ip.iv_hook(ip, ita, N)
    for k, delta in ps.items():
        if dep_poly(delta, ita):
            a = psum(ip, delta, ita, Poly.atom(ita))
            at = list(a.atoms())
            if len(a.d) == 1 and len(at) == 1:
                out.append([Iv(at[0], ZERO, delta, psum(ip, delta, ita, N))])
    return out


class NoLift(Exception):
    pass


def deps(x, ita):
    if isinstance(x, Poly):
        return dep_poly(x, ita)
    if isinstance(x, tuple):
        return any(deps(y, ita) for y in x)
    if isinstance(x, str):
        return ita in x
    return False


def plift(p, iv, k_expected=None):
    """p = base + k*atom -> (k, base at the start of the domain)"""
    sp = p.split(iv.a)
    if sp is None:
        raise NoLift("non-linear position")
    k, b = sp
    return k, b + k * iv.start


def flift(ip, f, axis, iv, ita):
    """extend a factor along an axis over the domain; raises NoLift"""
    F = ip.F
    r, c = ip.A.fdims(f)
    dim = r if axis == 0 else c
    if not F.eq(dim, iv.s):
        raise NoLift("extent %s is not the cell size %s" % (dim, iv.s))
    k = f[0]
    if k == "v":
        _, b, off, r, c, rs, cs, op = f
        kk, base = plift(off, iv)
        if kk.is_zero():
            raise NoLift("does not move")
        if not F.eq(iv.s, ONE):
            if not F.eq(kk, rs if axis == 0 else cs):
                raise NoLift("stride %s for a cell of stride %s" % (kk, rs if axis == 0 else cs))
        g = ("v", b, base, iv.N, c, kk, cs, op) if axis == 0 else ("v", b, base, r, iv.N, rs, kk, op)
        return g
    if k == "H":
        _, nm, r0, r, c0, c, op = f
        rowaxis = (axis == 0) == (op in "NJ")
        if rowaxis:
            kk, base = plift(r0, iv)
            if not kk == 1:
                raise NoLift("block position")
            return ("H", nm, base, iv.N, c0, c, op)
        kk, base = plift(c0, iv)
        if not kk == 1:
            raise NoLift("block position")
        return ("H", nm, r0, r, base, iv.N, op)
    if k == "ones":
        return ("ones", iv.N, f[2]) if axis == 0 else ("ones", f[1], iv.N)
    if k == "sub":
        p = f[2] if axis == 0 else f[4]
        kk, base = plift(p, iv)
        if not kk == 1:
            raise NoLift("block position")
        return ("sub", f[1], base, iv.N, f[4], f[5]) if axis == 0 else ("sub", f[1], f[2], f[3], base, iv.N)
    raise NoLift("factor " + k)


def iv_dep(f, iv):
    """does the factor move with this interval"""
    def d(x):
        if isinstance(x, Poly):
            return iv.a in x.atoms()
        if isinstance(x, tuple):
            return any(d(y) for y in x)
        return False
    return d(f)


def any_dep(f, iv, ita):
    """depends on the iteration in any way that belongs to this interval (position or extent)"""
    def d(x):
        if isinstance(x, Poly):
            return iv.a in x.atoms() or bool(iv.s.atoms() & x.atoms() & {a for a in x.atoms() if ita in a})
        if isinstance(x, tuple):
            return any(d(y) for y in x)
        return False
    return d(f)


def segments(ip, w):
    """split a word at inner dimensions equal to one"""
    segs, cur = [], []
    for i, f in enumerate(w):
        cur.append(f)
        if i + 1 < len(w) and ip.A.fdims(f)[1] == 1:
            segs.append(cur)
            cur = []
    if cur:
        segs.append(cur)
    return segs


def tseg(ip, sg):
    return [ip.A.fT(f) for f in reversed(sg)]


def lift_item_axis(ip, item, axis, iv, ita):
    """extend an item of an iteration-dependent region along the region's own axis"""
    ro, rr, co, cc, w = item
    if axis == 1:
        t = lift_item_axis(ip, (co, cc, ro, rr, tuple(tseg(ip, list(w)))), 0, iv, ita)
        return (t[2], t[3], t[0], t[1], tuple(tseg(ip, list(t[4]))))
    F = ip.F
    if not (ro.is_zero() and F.eq(rr, iv.s)):
        raise NoLift("partial rows")
    w = list(w)
    if not w:
        if not F.eq(iv.s, ONE):
            raise NoLift("identity block")
        if not (co.is_zero() and F.eq(cc, ONE)):
            raise NoLift("placed scalar")
        return (ZERO, iv.N, co, cc, (("ones", iv.N, ONE),))
    dep = [i for i, f in enumerate(w) if any_dep(f, iv, ita)]
    if not dep:
        if F.eq(iv.s, ONE):
            return (ZERO, iv.N, co, cc, tuple([("ones", iv.N, ONE)] + w))
        raise NoLift("no dependency")
    if dep == [0]:
        g = flift(ip, w[0], 0, iv, ita)
        return (ZERO, iv.N, co, cc, tuple([g] + w[1:]))
    # move a scalar segment that carries the dependency to the front
    if F.eq(iv.s, ONE):
        segs = segments(ip, w)
        dsegs = [i for i, sg in enumerate(segs) if any(any_dep(f, iv, ita) for f in sg)]
        scal = [i for i, sg in enumerate(segs) if ip.A.fdims(sg[0])[0] == 1 and ip.A.fdims(sg[-1])[1] == 1]
        if len(dsegs) == 1 and dsegs[0] in scal:
            i = dsegs[0]
            sg = segs[i]
            rest = [f for j, x in enumerate(segs) if j != i for f in x]
            for cand in (sg, tseg(ip, sg)):
                dd = [j for j, f in enumerate(cand) if any_dep(f, iv, ita)]
                if dd == [0]:
                    g = flift(ip, cand[0], 0, iv, ita)
                    return (ZERO, iv.N, co, cc, tuple([g] + cand[1:] + rest))
        if len(dsegs) == 2:
            # row i of a factor scaled by a scalar that depends on i: diag
            i, j = dsegs
            for a, b in ((i, j), (j, i)):
                if b not in scal:
                    continue
                sb = segs[b]
                if len(sb) != 1 or sb[0][0] != "v":
                    continue
                sa = segs[a]
                cands = [sa] + ([tseg(ip, sa)] if a in scal else [])
                for ca in cands:
                    dd = [q for q, f in enumerate(ca) if any_dep(f, iv, ita)]
                    if dd != [0]:
                        continue
                    if a not in scal and any(q not in scal for q in range(a)):
                        continue
                    g = flift(ip, ca[0], 0, iv, ita)
                    dg = flift(ip, sb[0], 0, iv, ita)
                    rest = [f for q, x in enumerate(segs) if q not in (a, b) for f in x]
                    return (ZERO, iv.N, co, cc, tuple([("diag", dg, iv.N), g] + ca[1:] + rest))
    raise NoLift("dependency in the middle of a product")


def contract_item(ip, item, iv, ita):
    """sum of an item over the domain (region independent of it)"""
    ro, rr, co, cc, w = item
    F = ip.F
    w = list(w)
    dep = [i for i, f in enumerate(w) if any_dep(f, iv, ita)]
    if not dep:
        if F.eq(iv.s, ONE):
            return (ro, rr, co, cc, tuple(w)), iv.N
        raise NoLift("block sum without dependency")
    if len(dep) == 2 and dep[1] == dep[0] + 1:
        i, j = dep
        g = flift(ip, w[i], 1, iv, ita)
        h = flift(ip, w[j], 0, iv, ita)
        return (ro, rr, co, cc, tuple(w[:i] + [g, h] + w[j + 1:])), ONE
    if F.eq(iv.s, ONE):
        segs = segments(ip, w)
        scal = [i for i, sg in enumerate(segs) if ip.A.fdims(sg[0])[0] == 1 and ip.A.fdims(sg[-1])[1] == 1]
        ds = [i for i, sg in enumerate(segs) if any(any_dep(f, iv, ita) for f in sg)]

        def orient(i, want):
            sg = segs[i]
            for cand in ([sg] + ([tseg(ip, sg)] if i in scal else [])):
                dd = [q for q, f in enumerate(cand) if any_dep(f, iv, ita)]
                if dd == [len(cand) - 1 if want == "last" else 0]:
                    return cand
            return None
        if len(ds) == 2:
            for a, b in (ds, ds[::-1]):
                # a ... b brought together: scalars move freely, end segments keep their place
                ca, cb = orient(a, "last"), orient(b, "first")
                if ca is None or cb is None:
                    continue
                if a not in scal and a != 0:
                    continue
                if b not in scal and b != len(segs) - 1:
                    continue
                if a in scal and b in scal:
                    others = [i for i in range(len(segs)) if i not in (a, b)]
                    head = [f for i in others if i == 0 and i not in scal for f in segs[i]]
                    mids = [f for i in others if i in scal for f in segs[i]]
                    tail = [f for i in others if i not in scal and i != 0 for f in segs[i]]
                    pre, post = head + mids, tail
                elif a not in scal and b in scal:
                    pre = []
                    post = [f for i in range(len(segs)) if i not in (a, b) for f in segs[i]]
                elif a in scal and b not in scal:
                    pre = [f for i in range(len(segs)) if i not in (a, b) for f in segs[i]]
                    post = []
                else:
                    pre, post = [], []
                    mids = [f for i in range(len(segs)) if i not in (a, b) for f in segs[i]]
                    if mids:
                        pre = []
                        ca = mids_front(ip, ca, mids)
                        if ca is None:
                            continue
                g = flift(ip, ca[-1], 1, iv, ita)
                h = flift(ip, cb[0], 0, iv, ita)
                return (ro, rr, co, cc, tuple(pre + ca[:-1] + [g, h] + cb[1:] + post)), ONE
        if len(ds) == 1:
            a = ds[0]
            ca = orient(a, "last")
            if ca is not None:
                g = flift(ip, ca[-1], 1, iv, ita)
                new = ca[:-1] + [g, ("ones", iv.N, ONE)]
                return (ro, rr, co, cc, tuple(f for i, sg in enumerate(segs) for f in (new if i == a else sg))), ONE
            ca = orient(a, "first")
            if ca is not None:
                h = flift(ip, ca[0], 0, iv, ita)
                new = [("ones", ONE, iv.N), h] + ca[1:]
                return (ro, rr, co, cc, tuple(f for i, sg in enumerate(segs) for f in (new if i == a else sg))), ONE
    raise NoLift("cannot contract")


def mids_front(ip, ca, mids):
    return None


def view_axis(ip, v, iv, ita):
    """how the written region moves with this interval: (axis, lifted view) or None when it does not"""
    F = ip.F
    if not any_dep(v.key(), iv, ita):
        return None
    k, base = plift(v.off, iv)
    if k.is_zero():
        raise NoLift("region extent varies in place")
    one = F.eq(iv.s, ONE)
    if not one:
        if F.eq(v.r, iv.s) and F.eq(k, v.rs):
            return 0, View(base, iv.N, v.c, v.rs, v.cs)
        if F.eq(v.c, iv.s) and F.eq(k, v.cs):
            return 1, View(base, v.r, iv.N, v.rs, v.cs)
        if F.eq(v.r, iv.s) and v.c == 1 and F.eq(v.rs, k):
            return 0, View(base, iv.N, v.c, v.rs, v.cs)
        raise NoLift("region %s does not tile the domain %s" % (v, iv))
    if v.r == 1:
        return 0, View(base, iv.N, v.c, k, v.cs)
    if v.c == 1:
        return 1, View(base, v.r, iv.N, v.rs, k)
    raise NoLift("moving block region")


def grid_ok(ip, v):
    F = ip.F
    v = v.norm(F)
    if v.r == 1 or v.c == 1:
        return True
    return F.nonneg(v.cs - v.r * v.rs) or F.nonneg(v.rs - v.c * v.cs) or F.nonneg(-v.cs - v.r * v.rs) or F.nonneg(-v.rs - v.c * v.cs)


def lift_writes(ip, b, ws, ivs, ita, N, barname, pre):
    if ws is None:
        return [(None, Unk("loop body effect depends on the branch"), None)]
    ws = squash(ip, ws)
    last = None
    for dom in ivs:
        try:
            out = []
            full = []
            for v, val, ln in ws:
                if v is None or is_unk(val) and (deps(v.key(), ita) or not is_unk(val)):
                    raise NoLift(val.why if is_unk(val) else "unknown write")
                if is_unk(val):
                    x = ("once", (v, val), ln)
                    out.append(x)
                    full.append(v)
                    continue
                x = lift_one(ip, b, v, val, ln, dom, ita, N, barname, pre, ws)
                out.append(x)
                full.append(x[0] if x[0] != "once" else x[1][0])
            for i in range(len(full)):
                for j in range(i):
                    if not ip.M._disjoint(full[i].norm(ip.F), full[j].norm(ip.F)) and not coords_disjoint(ip, full[i], full[j]):
                        raise NoLift("interleaved writes of overlapping regions")
            return out
        except NoLift as x:
            last = last or x
            if ip.debug:
                print("   nolift", dom, x, [(str(w[0]), str(w[1])[:300]) for w in ws])
    ws2 = early_unbar(ip, b, ws, ita, N, barname, pre, ivs)
    if ws2 is not None:
        return lift_writes(ip, b, ws2, ivs, ita, N, barname, pre)
    fam = family(ip, b, ws, ivs, ita, N, barname)
    if fam is not None:
        return fam
    fam = family(ip, b, ws, ivs, ita, N, barname, Unk("loop effect: %s" % last))
    if fam is not None:
        return fam
    return [(None, Unk("loop effect: %s" % last), ws[-1][2] if ws else None)]


def write_zones(ip, base, W, ivs, ita):
    """per buffer, ranges containing everything the whole loop writes"""
    out = {}
    for b in W.bufs.values():
        ws = base.writes[b.uid]
        zs = []
        for v, val, ln in ws or [(None, None, None)]:
            if v is None and isinstance(val, Fam):
                v = View(val.lo, ip.F.norm(val.hi - val.lo), ONE, ONE, ZERO)
            if v is None:
                zs = None
                break
            z = whole(ip, v, ivs, ita)
            if z is None:
                if dep_poly(v.off, ita) or dep_poly(v.span(), ita):
                    zs = None
                    break
                z = (v.off, v.off + v.span())
            zs.append((ip.F.norm(z[0]), ip.F.norm(z[1])))
        if zs:
            out[b.uid] = tuple(sorted(set(zs), key=str))
    return out


def whole(ip, v, ivs, ita):
    """(lo, hi) containing the region over every iteration and whether iterations cannot overlap, or None"""
    F = ip.F
    v = v.norm(F)
    sp = v.span()
    for dom in ivs:
        if len(dom) != 1:
            continue
        iv = dom[0]
        s = v.off.split(iv.a)
        if s is None or s[0].is_zero():
            continue
        k, base = s
        if dep_poly(k, ita):
            continue
        # cell of this iteration: [k*a, k*a + k*s)
        lo = base
        if dep_poly(base, ita):
            continue
        if not F.nonneg(k) or not F.nonneg(k * iv.s - sp):
            continue
        return F.norm(base + k * iv.start), F.norm(base + k * (iv.start + iv.N)), True
    return None


def reindex_mat(ip, x, it, q):
    if is_unk(x):
        return x
    atoms = x.poly_atoms() if isinstance(x, MatVal) else x.atoms()
    mp = {}
    for a in atoms:
        if it in a:
            mp[a] = ip.reindex(Poly.atom(a), it, q)
    return x.subs(mp) if mp else x


def early_unbar(ip, b, ws, ita, N, barname, pre, ivs):
    """reads, disjoint from everything the loop writes, of a buffer the loop writes elsewhere"""
    F, A = ip.F, ip.A
    mybar = barname[b.uid]
    zone = []
    for v, val, ln in ws:
        if v is None or is_unk(val):
            return None
        if not any(f[0] == "v" and f[1] == mybar for f in val.factors()):
            pass
        z = whole(ip, v, ivs, ita)
        if z is None:
            if dep_poly(v.off, ita):
                return None
            z = (v.off, v.off + v.span(), False)
        zone.append(z)
    out, hit = [], False
    for v, val, ln in ws:
        n = A.zero(val.r, val.c)
        for it, k in val.items.items():
            ro, rr, co, cc, w = it
            cur = None
            ch = False
            for f in w:
                x = None
                if f[0] == "v" and f[1] == mybar:
                    rv = View(f[2], f[3], f[4], f[5], f[6]).norm(F)
                    if rv == v.norm(F) or rv == v.T().norm(F):
                        pass
                    elif all(F.nonneg(lo - rv.off - rv.span(), 3) or F.nonneg(rv.off - hi) for lo, hi, _ in zone):
                        x = ip.M.read_at(b, pre[b.uid], rv)
                        if is_unk(x):
                            return None
                        if f[7] == "J":
                            x = A.J(x)
                        ch = hit = True
                x = x if x is not None else A.of_factor(f)
                cur = x if cur is None else A.mul(cur, x)
            if not ch or cur is None:
                n = A.add(n, MatVal(val.r, val.c, {it: k}))
            else:
                n = A.add(n, A.place(A.scale(k, cur), val.r, val.c, ro, co))
            if is_unk(n):
                return None
        out.append((v, n, ln))
    return out if hit else None


class Fam:
    """one region per iteration, pairwise disjoint, kept indexed by the iteration"""

    def __init__(self, ip, ita, N, v, val, lo, hi):
        self.ip, self.ita, self.N, self.v, self.val, self.lo, self.hi = ip, ita, N, v, val, lo, hi
        self.why = "family of regions"

    def at(self, q):
        ip = self.ip
        g = lambda p: ip.F.norm(ip.reindex(p, self.ita, q))
        v = self.v
        return View(g(v.off), g(v.r), g(v.c), g(v.rs), g(v.cs)).norm(ip.F), reindex_mat(ip, self.val, self.ita, q)

    def cands(self, R):
        out = []
        for a in sorted(R.off.atoms() | R.r.atoms() | R.c.atoms()):
            fa = self.ip.fn_atoms.get(a)
            for q in ([fa[1]] if fa else []) + [Poly.atom(a)]:
                if q not in out:
                    out.append(q)
        out.append(ZERO)
        F = self.ip.F
        return [q for q in out if F.nonneg(q) and F.nonneg(self.N - 1 - q)]

    def __repr__(self):
        return "Fam(%s: %s := %s)" % (self.ita, self.v, self.val)


def family(ip, b, ws, ivs, ita, N, barname, unk=None):
    out = []
    bars = set(barname.values())
    for v, val, ln in ws:
        if v is None:
            return None
        if unk is not None:
            val = unk
        elif is_unk(val):
            return None
        elif any(isinstance(x, str) and x in bars for f in val.factors() for x in flat(f)):
            return None
        z = whole(ip, v, ivs, ita)
        if z is None:
            return None
        out.append(("fam", Fam(ip, ita, N, v, val, z[0], z[1]), ln))
    for i in range(len(out)):
        for j in range(i):
            if not (ip.F.nonneg(out[i][1].lo - out[j][1].hi) or ip.F.nonneg(out[j][1].lo - out[i][1].hi)):
                return None
    return out


def coords_disjoint(ip, W, R):
    F = ip.F
    W, R = W.norm(F), R.norm(F)
    p = ip.M._fits(W, R)
    if p is None:
        return False
    r0, c0 = F.norm(p[0]), F.norm(p[1])
    return (F.disjoint(r0, R.r, ZERO, W.r) or F.disjoint(c0, R.c, ZERO, W.c)) and ip.M._same_grid(W, R, r0, c0)


def lift_one(ip, b, v, val, ln, dom, ita, N, barname, pre, ws):
    F, A = ip.F, ip.A
    mybar = barname[b.uid]
    bars = set(barname.values())
    for x in (val.r, val.c):
        pass
    # separate the previous value of the region
    old = ZERO
    items = {}
    oldf = A.nf(("v", mybar, v.off, v.r, v.c, v.rs, v.cs, "N"))
    oldj = A.nf(("v", mybar, v.off, v.r, v.c, v.rs, v.cs, "J"))
    inplace = False
    for it, k in val.items.items():
        if it[4] == (oldf,) and it[0].is_zero() and it[2].is_zero():
            old = old + k
            continue
        if deps(k, ita):
            raise NoLift("iteration-dependent coefficient")
        for f in it[4]:
            if f[0] == "v" and f[1] in bars:
                if f in (oldf, oldj, A.fT(oldf), A.fT(oldj)) :
                    inplace = True
                    continue
                check_bar(ip, f, b, ws, dom, ita, barname)
        items[it] = k
    if deps(old, ita):
        raise NoLift("iteration-dependent scaling")
    vdep = [(iv, view_axis(ip, v, iv, ita)) for iv in dom]
    moving = [(iv, x) for iv, x in vdep if x is not None]
    fixed = [iv for iv, x in vdep if x is None]
    if moving and not fixed:
        # injective: every cell of the domain is written once
        lv = v
        for iv in dom:
            ax, lv = view_axis(ip, lv, iv, ita)
        if deps(lv.key(), ita):
            raise NoLift("region depends on the iteration in another way")
        if not grid_ok(ip, lv):
            raise NoLift("regions of different iterations may overlap")
        acc = A.zero(lv.r, lv.c)
        if not old.is_zero():
            items = dict(items)
            items[(ZERO, v.r, ZERO, v.c, (oldf,))] = old
        cur_v = v
        cur = items
        for iv in dom:
            ax, nv = view_axis(ip, cur_v, iv, ita)
            nxt = {}
            for it, k in cur.items():
                t = lift_item_axis(ip, it, ax, iv, ita)
                t = (t[0], t[1], t[2], t[3], tuple(A.nf(f) for f in t[4]))
                nxt[t] = nxt.get(t, ZERO) + k
            cur, cur_v = nxt, nv
        res = MatVal(lv.r, lv.c, cur)
        finish_check(res, ita, bars)
        return (lv, unbar(ip, res, barname, pre, b), ln)
    # accumulation
    if not moving and not items and old == 1:
        return (v, unbar(ip, MatVal(v.r, v.c, {(ZERO, v.r, ZERO, v.c, (oldf,)): ONE}), barname, pre, b), ln)
    if inplace:
        raise NoLift("the region is transformed repeatedly")
    if old.is_zero() and not moving:
        if deps(v.key(), ita):
            raise NoLift("last write wins")
        if any(deps(it, ita) for it in items):
            # the last iteration's value
            if len(dom) != 1 or isinstance(N, Unk) or any(f[0] == "v" and f[1] in bars for it in items for f in it[4]):
                res = Unk("last write wins")
            else:
                res = reindex_mat(ip, MatVal(v.r, v.c, items), ita, N - 1)
            return ("once", (v, res), ln)
        res = MatVal(v.r, v.c, items)
        return ("once", (v, unbar(ip, res, barname, pre, b)), ln)
    if not (old == 1):
        raise NoLift("the region is rescaled at every iteration")
    lv = v
    for iv, _ in moving:
        ax, lv = view_axis(ip, lv, iv, ita)
    if deps(lv.key(), ita):
        raise NoLift("region depends on the iteration in another way")
    cur = items
    two = len(dom) == 2
    if two:
        for it in items:
            if not any(any_dep(f, dom[0], ita) and any_dep(f, dom[1], ita) for f in it[4]):
                raise NoLift("sum over blocks of a term that is not a block")
    for iv in fixed:
        nxt = {}
        for it, k in cur.items():
            t, mult = contract_item(ip, it, iv, ita)
            t = (t[0], t[1], t[2], t[3], tuple(A.nf(f) for f in t[4]))
            nxt[t] = nxt.get(t, ZERO) + k * mult
        cur = nxt
    cur_v = v
    for iv, _ in moving:
        ax, nv = view_axis(ip, cur_v, iv, ita)
        nxt = {}
        for it, k in cur.items():
            t = lift_item_axis(ip, it, ax, iv, ita)
            t = (t[0], t[1], t[2], t[3], tuple(A.nf(f) for f in t[4]))
            nxt[t] = nxt.get(t, ZERO) + k
        cur, cur_v = nxt, nv
    if not grid_ok(ip, lv):
        raise NoLift("accumulated regions may overlap")
    lold = A.nf(("v", mybar, lv.off, lv.r, lv.c, lv.rs, lv.cs, "N"))
    key = (ZERO, lv.r, ZERO, lv.c, (lold,))
    cur[key] = cur.get(key, ZERO) + ONE
    res = MatVal(lv.r, lv.c, cur)
    finish_check(res, ita, bars)
    return (lv, unbar(ip, res, barname, pre, b), ln)


def nobar(x, bars):
    if isinstance(x, tuple):
        return tuple(nobar(y, bars) for y in x)
    return "" if isinstance(x, str) and x in bars else x


def finish_check(M, ita, bars=()):
    for it, k in M.items.items():
        if deps(nobar(it, bars), ita) or deps(k, ita):
            raise NoLift("remaining iteration dependency in %s" % (show_word(it[4]),))


def show_word(w):
    return " ".join(show_factor(f) for f in w)


def check_bar(ip, f, b, ws, dom, ita, barname):
    """a read of a buffer written by the loop, elsewhere than the written region"""
    F = ip.F
    wb = None
    for u, nm in barname.items():
        if nm == f[1]:
            wb = u
    rv = View(f[2], f[3], f[4], f[5], f[6])
    # where does the loop write that buffer
    mine = [w for w in ws] if wb == b.uid else None
    if mine is None:
        raise NoLift("reads another buffer written by the loop")
    for v, val, ln in mine:
        lv, lr = v, rv
        try:
            for iv in dom:
                x = view_axis(ip, lv, iv, ita)
                if x is not None:
                    lv = x[1]
            if any_dep(lr.key(), dom[0], ita):
                for iv in dom:
                    x = view_axis(ip, lr, iv, ita)
                    if x is not None:
                        lr = x[1]
        except NoLift:
            raise NoLift("reads its own output")
        if deps(lv.key(), ita) or deps(lr.key(), ita):
            raise NoLift("reads its own output")
        if not ip.M._disjoint(lv.norm(F), lr.norm(F)) and not coords_disjoint(ip, lv, lr):
            raise NoLift("reads its own output")


def unbar(ip, Mv, barname, pre, b):
    """replace the value before the loop"""
    A = ip.A
    inv = {nm: u for u, nm in barname.items()}
    Mv = A.norm(Mv)
    if is_unk(Mv):
        return Mv
    out = A.zero(Mv.r, Mv.c)
    bufs = getattr(ip, "loop_buf_objs", None)
    for it, k in Mv.items.items():
        ro, rr, co, cc, w = it
        idx = [i for i, f in enumerate(w) if f[0] == "v" and f[1] in inv]
        if any(f[0] != "v" and any(isinstance(x, str) and x in inv for x in flat(f)) for f in w):
            return Unk("structured read of a loop-written buffer")
        if not idx:
            out = A.add(out, MatVal(Mv.r, Mv.c, {it: k}))
            continue
        cur = None
        first = True
        for f in w:
            if f[0] == "v" and f[1] in inv:
                u = inv[f[1]]
                if u != b.uid:
                    return Unk("foreign barrier")
                x = ip.M.read_at(b, pre[u], View(f[2], f[3], f[4], f[5], f[6]))
                if f[7] == "J":
                    x = A.J(x)
            else:
                x = A.of_factor(f)
            cur = x if cur is None else A.mul(cur, x)
            if is_unk(cur):
                return cur
        out = A.add(out, A.place(A.scale(k, cur), Mv.r, Mv.c, ro, co))
        if is_unk(out):
            return out
    return out


def flat(f):
    for x in f:
        if isinstance(x, tuple):
            yield from flat(x)
        else:
            yield x


def lift_scalar(ip, v0, new, bar, ivs, ita, N):
    """scalar accumulator"""
    A = ip.A
    if not isinstance(new, (Poly, MatVal)) or not isinstance(v0, (Poly, MatVal)):
        return Unk("loop-carried scalar")
    if isinstance(new, Poly) and new == Poly.atom(bar):
        return v0
    m = ip.to_mat(new)
    items = dict(m.items)
    key = (ZERO, ONE, ZERO, ONE, ())
    k = items.pop(key, ZERO)
    sp = k.split(bar)
    if sp is None:
        return Unk("loop-carried scalar")
    kk, rest = sp
    for it, c in items.items():
        if bar in c.atoms() or deps(c, ita):
            return Unk("loop-carried scalar")
    if kk.is_zero() and not any(deps(it, ita) for it in items) and not deps(rest, ita):
        # overwritten with an invariant value
        return new if ip.F.nonneg(N - 1) else Unk("conditional scalar")
    if not (kk == 1) or deps(rest, ita):
        return Unk("loop-carried scalar")
    for dom in ivs:
        try:
            cur = dict(items)
            if not rest.is_zero():
                cur[key] = rest
            for iv in dom:
                nxt = {}
                for it, c in cur.items():
                    t, mult = contract_item(ip, it, iv, ita)
                    t = (t[0], t[1], t[2], t[3], tuple(A.nf(f) for f in t[4]))
                    nxt[t] = nxt.get(t, ZERO) + c * mult
                cur = nxt
            res = MatVal(ONE, ONE, cur)
            finish_check(res, ita)
            return ip.to_scalar(A.add(res, ip.to_mat(v0)))
        except NoLift:
            continue
    return Unk("scalar accumulation")
