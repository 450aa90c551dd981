"""Flag-partitioned abstract interpreter over the resolved program.

One run interprets one entry function for one partition (concrete flags, symbolic sizes,
symbolic data) in the matrix-term domain of terms.py.  Branches on undetermined conditions
split the partition; loops are summarised (never unrolled, except for constant trip counts
<= 6); calls are inlined or replaced by contracts.  Anything outside the domain becomes Unk
or aborts the partition with Undecided.
"""
import re
from fractions import Fraction
from poly import Poly, P, ZERO, ONE
from terms import *
import perms


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Throw(Exception):
    pass


class Replay(Exception):
    pass


class Infeasible(Exception):
    """the partition's assumptions contradict each other"""


# ------------------------------------------------------------------ values
class Obj:
    _n = 0

    def __init__(self, cls, name=None, lazy=False):
        Obj._n += 1
        self.uid = Obj._n
        self.cls = cls
        self.name = name or "o%d" % Obj._n
        self.lazy = lazy
        self.f = {}
        self.tag = {}

    def __repr__(self):
        return "Obj(%s:%s)" % (self.name, short(self.cls))


class Ptr:
    """pointer into a coefficient/int buffer"""
    __slots__ = ("buf", "off")

    def __init__(self, buf, off=ZERO):
        self.buf, self.off = buf, P(off)

    def __repr__(self):
        return "Ptr(%s+%s)" % (self.buf, self.off)


class PObj:
    """pointer to an object (or null)"""
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return "PObj(%s)" % self.o


class PCell:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


class Smart:
    """unique_ptr / shared_ptr; target None | Obj | Lazy"""
    _n = 0

    def __init__(self, target, name=None, elt=None):
        Smart._n += 1
        self.t = target
        self.name = name
        self.elt = elt
        self.uid = Smart._n


class Vec:
    """std::vector of numbers"""
    _n = 0

    def __init__(self, buf, size):
        Vec._n += 1
        self.buf, self.size = buf, P(size)
        self.uid = Vec._n

    def __repr__(self):
        return "Vec(%s,%s)" % (self.buf, self.size)


class Coll:
    """sequence of objects/pointers: parts ('one', v) | ('each', loop, v) | ('sym', gen, n, dom)"""
    _n = 0

    def __init__(self, parts=None, name=None, elt=""):
        Coll._n += 1
        self.parts = parts if parts is not None else []
        self.name = name
        self.elt = elt
        self.uid = Coll._n

    def __repr__(self):
        return "Coll(%s,%s)" % (self.name, self.parts)


class It:
    """iterator into a Coll"""

    def __init__(self, c, i, rev=False):
        self.c, self.i, self.rev = c, P(i), rev


class Closure:
    def __init__(self, f, caps, this, generic=None):
        self.f, self.caps, self.this, self.generic = f, caps, this, generic


class MemPtr:
    def __init__(self, fid, q):
        self.f, self.q = fid, q


class Tup:
    def __init__(self, vs):
        self.vs = vs


class StrV:
    """opaque or known string"""
    __slots__ = ("s",)

    def __init__(self, s=None):
        self.s = s


class Sym:
    """symbolic value of an enumeration / char"""

    def __init__(self, name, dom=None):
        self.name, self.dom = name, dom

    def __repr__(self):
        return "Sym(%s)" % self.name


class Cond:
    __slots__ = ("k", "p")

    def __init__(self, k, p):
        self.k, self.p = k, p      # k in eq, ne, ge (p>=0), pred, npred

    def neg(self):
        if self.k == "eq":
            return Cond("ne", self.p)
        if self.k == "ne":
            return Cond("eq", self.p)
        if self.k == "ge":
            return Cond("ge", -self.p - 1)
        if self.k == "pred":
            return Cond("npred", self.p)
        return Cond("pred", self.p)

    def __repr__(self):
        return "Cond(%s %s)" % (self.k, self.p)


class IBuf:
    """integer array; entries: (index Poly, value, loop or None) newest last"""
    _n = 0

    def __init__(self, name, size, base="init"):
        IBuf._n += 1
        self.uid = IBuf._n
        self.name, self.size, self.base = name, size, base
        self.src = name
        self.entries = ()
        self.elem = "i"
        self.freed = False

    def __repr__(self):
        return "<int %s>" % self.name


class Cell:
    __slots__ = ("v", "birth")
    n = 0

    def __init__(self, v):
        Cell.n += 1
        self.birth = Cell.n
        self.v = v


class Loop:
    _n = 0

    def __init__(self, o, s, N, var, dom):
        self.o, self.s, self.N = P(o), P(s), P(N)   # interval of the iteration inside [0,N)
        self.var = var                              # set of atoms that vary with the iteration
        self.dom = dom


def short(t):
    return re.sub(r"htool::|std::|<.*", "", t or "?")


def strip_t(t):
    t = t.strip()
    while True:
        u = t
        if t.startswith("const "):
            t = t[6:]
        if t.endswith("&&"):
            t = t[:-2].strip()
        if t.endswith("&"):
            t = t[:-1].strip()
        if t.endswith(" const"):
            t = t[:-6].strip()
        if t == u:
            return t


def is_ref(t):
    return t.rstrip().endswith("&")


def is_cref(t):
    t = t.strip()
    return t.startswith("const ") and t.endswith("&")


INT_T = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "long long", "unsigned long long", "signed char", "unsigned char"}
FLT_T = {"double", "float", "std::complex<double>", "std::complex<float>"}


def targ(t, i=0):
    """i-th template argument of a type string"""
    k = t.find("<")
    if k < 0:
        return None
    depth, cur, out = 0, "", []
    for ch in t[k:]:
        if ch == "<":
            depth += 1
            if depth == 1:
                continue
        if ch == ">":
            depth -= 1
            if depth == 0:
                out.append(cur.strip())
                break
        if ch == "," and depth == 1:
            out.append(cur.strip())
            cur = ""
            continue
        cur += ch
    return out[i] if i < len(out) else None


class Interp:
    def __init__(self, ir, cplx, plan=None):
        self.ir = ir
        self.cplx = cplx
        self.F = Facts()
        self.A = Alg(self.F, cplx)
        self.M = Memory(self.A)
        self.journal = []
        self.plan = plan or []
        self.trace = []
        self.memo = {}
        self.events = []          # recorded contract/MPI/log events
        self.contracts = {}
        self.hooks = {}
        self.text = None
        self.stack = []
        self.tainted = []
        self.loopatoms = set()
        self.fresh_n = 0
        self.lazy_hook = None
        self.call_log = set()
        self.bounds = {}
        self.alarms = []          # definite defects found on the way (bounds, use-after-free, ...)
        self.elem_gen = None
        self.depth = 0
        self.steps = 0
        self.all_allocs = []
        self.asserted = []
        self.inlined = set()
        self.virt_hook = None
        self.logged = []
        self.frames = []
        self.touched = []
        self.domain_hook = None
        self.total_hook = None
        self.iv_hook = None
        self.fn_atoms = {}
        self.permarrays, self.permatoms, self.permbufs = {}, {}, {}
        self.idivs = []
        self.on_reorder = self.on_find_if = None
        self.sized = None
        self.bar_atoms = {}
        self.debug = False
        self.loop_bufs = []
        self.pred_facts = {}
        self.symdoms = {}
        self.globals = {}

    # -------------------------------------------------------------- journal
    def mark(self):
        return len(self.journal)

    def rollback(self, m):
        while len(self.journal) > m:
            self.journal.pop()()

    def wild(self, p):
        """a write whose target is not known: no conclusion about memory holds on this path"""
        if not self.tainted or len(self.tainted) < 20:
            self.tainted.append("write through %s" % (p,))

    def setcell(self, c, v):
        if isinstance(c, LCell):
            self.lset(c.l, v)
            return
        old = c.v
        self.journal.append(lambda: setattr(c, "v", old))
        if self.written_cells:
            for s in self.written_cells:
                s.setdefault(id(c), (c, old))
        c.v = v

    written_cells = None

    def setfield(self, o, n, v):
        had = n in o.f
        old = o.f.get(n)

        def undo():
            if had:
                o.f[n] = old
            else:
                o.f.pop(n, None)
        self.journal.append(undo)
        if self.written_fields:
            for s in self.written_fields:
                s.setdefault((o.uid, n), (o, n, old if had else None, had))
        o.f[n] = v

    written_fields = None

    def setattr_(self, o, n, v):
        old = getattr(o, n)
        self.journal.append(lambda: setattr(o, n, old))
        if self.written_attrs:
            for s in self.written_attrs:
                s.setdefault((id(o), n), (o, n, old))
        setattr(o, n, v)

    written_attrs = None

    def fresh(self, base):
        self.fresh_n += 1
        return "%s#%d" % (base, self.fresh_n)

    # -------------------------------------------------------------- decisions
    def isloop(self, p):
        return bool(p.atoms() & self.loopatoms)

    def decide(self, cond, where=""):
        """truth of a Cond in this partition"""
        F = self.F
        k, p = cond.k, cond.p
        if k in ("pred", "npred"):
            v = F.preds.get(p)
            if v is None:
                v = self.choose(("pred", p), str(p))
                F.preds[p] = v
                if v:
                    for q in self.pred_facts.get(p, ()):
                        self.assume_eq0(q)
                elif p[0] == "symeq" and p[1] in self.symdoms:
                    rest = [d for d in self.symdoms[p[1]] if F.preds.get(("symeq", p[1], d)) is not False]
                    if len(rest) == 1 and F.preds.get(("symeq", p[1], rest[0])) is None:
                        F.preds[("symeq", p[1], rest[0])] = True
                        for q in self.pred_facts.get(("symeq", p[1], rest[0]), ()):
                            self.assume_eq0(q)
            return v if k == "pred" else not v
        p = F.norm(p)
        if k in ("eq", "ne"):
            if not self.coef_only(p):
                p = F.strip(p)
            if p.is_zero():
                r = True
            elif F.nonzero(p):
                r = False
            else:
                if self.coef_only(p):
                    key = ("ceq", p)
                else:
                    key = ("eq", p)
                r = self.choose(key, "%s == 0" % p)
                if r:
                    self.assume_eq0(p)
                else:
                    F.add_ne0(p)
                    if not self.coef_only(p):
                        if F.nonneg(p):
                            F.add_ge0(p - 1)
                        elif F.nonneg(-p):
                            F.add_ge0(-p - 1)
                if F.infeasible():
                    raise Infeasible()
            return r if k == "eq" else not r
        if k == "ge":
            if F.nonneg(p):
                return True
            if F.nonneg(-p - 1):
                return False
            # p == 0 excluded and p >= 0 etc. handled by facts
            r = self.choose(("ge", p), "%s >= 0" % p)
            F.add_ge0(p if r else -p - 1)
            if F.infeasible():
                raise Infeasible()
            return r
        raise Undecided("cond")

    def coef_only(self, p):
        return any("$" in a for a in p.atoms())

    def assume_eq0(self, p):
        F = self.F
        F.add_eq0(p)
        if self.cplx:
            for a in list(F.sub):
                if a.startswith("$") and ("~" + a) not in F.sub:
                    F.sub["~" + a] = self.A.cJ(F.sub[a])
                if a.startswith("~$") and a[1:] not in F.sub:
                    F.sub[a[1:]] = self.A.cJ(F.sub[a])

    def choose(self, key, label):
        if key in self.memo:
            return self.memo[key]
        i = len(self.trace)
        v = self.plan[i] if i < len(self.plan) else True
        if self.loopatoms:
            hit = [fr for fr in self.frames if any(self.key_has(key, a) for a in fr.atoms)]
            if hit:
                return hit[-1].choose(key, label)
            if any(self.key_has(key, a) for a in self.loopatoms):
                raise Undecided("branch on a finished loop's variable: " + label)
        self.trace.append((label, v))
        self.memo[key] = v
        return v

    def key_has(self, key, a):
        k = key[1]
        if isinstance(k, Poly):
            return any(a in x for x in k.atoms())
        return a in str(k)

    def truth(self, v, where=""):
        if v is True or v is False:
            return v
        if isinstance(v, Cond):
            return self.decide(v, where)
        if isinstance(v, Poly):
            return self.decide(Cond("ne", v), where)
        if isinstance(v, Ptr):
            return v.buf is not None
        if isinstance(v, PObj):
            return self.nonnull(v)
        if isinstance(v, Smart):
            return self.smart_nonnull(v)
        if isinstance(v, str):
            return v != "\0"
        if isinstance(v, PCell):
            return True
        if isinstance(v, Unk):
            self.tainted.append("branch on %s at %s" % (v.why, where))
            return self.choose(("unk", "unk:%s:%d" % (where, len(self.trace))), "unknown condition")
        self.tainted.append("branch on %r" % (v,))
        return self.choose(("unk", "unk:%s:%d" % (where, len(self.trace))), "unknown condition")

    def nonnull(self, v):
        o = v.o
        if o is None:
            return False
        if isinstance(o, Obj) and o.tag.get("maybe_null"):
            return self.decide(Cond("npred", ("null", o.name)))
        return True

    def smart_nonnull(self, s):
        if s.t is None:
            return False
        if s.t == "lazy":
            return self.decide(Cond("npred", ("null", s.name)))
        return True

    # -------------------------------------------------------------- lazies
    def lazy_value(self, t, name):
        """a symbolic value of type t"""
        t = strip_t(t)
        if t in INT_T:
            return Poly.atom(name)
        if t == "bool":
            return Cond("pred", ("flag", name))
        if t == "char":
            return Sym(name)
        if t in FLT_T:
            return Poly.atom("$" + name)
        if t.endswith("*"):
            e = strip_t(t[:-1])
            if e in FLT_T:
                b = Buffer(name, None, "init")
                b.src = name
                return Ptr(b, ZERO)
            if e in INT_T:
                return Ptr(IBuf(name, None), ZERO)
            return PObj(self.lazy_obj(e, "*" + name))
        if t.startswith("std::vector<") or t.startswith("std::array<"):
            e = targ(t)
            n = Poly.atom(name + ".size")
            if t.startswith("std::array<"):
                try:
                    n = P(int(targ(t, 1)))
                except Exception:
                    pass
            if e in FLT_T:
                return Vec(Buffer(name, n, "init"), n)
            if e in INT_T:
                return Vec(IBuf(name, n), n)
            return Coll([("sym", None, n, None)], name, e)
        if t.startswith("std::unique_ptr<") or t.startswith("std::shared_ptr<"):
            return Smart("lazy", name, targ(t))
        if t.startswith("std::basic_string"):
            return StrV()
        if t.startswith("std::map") or t.startswith("std::function") or t.startswith("std::"):
            o = Obj(t, name, True)
            return o
        if t in self.ir.rec_by_t:
            return self.lazy_obj(t, name)
        if t in self.ir.enum_like or "::" in t:
            return Sym(name)
        return Unk("lazy " + t)

    def lazy_obj(self, t, name):
        o = Obj(strip_t(t), name, True)
        if self.lazy_hook:
            self.lazy_hook(self, o)
        return o

    def smart_target(self, s):
        if s.t == "lazy":
            o = self.lazy_value(s.elt, "*" + s.name)
            s.t = o          # deterministic materialisation: not journalled
        return s.t

    def getfield(self, o, n, ft=None):
        if not isinstance(o, Obj):
            return Unk("field %s of %r" % (n, o))
        if n in o.f:
            return o.f[n]
        if o.lazy:
            if ft is None:
                ft = self.field_type(o.cls, n)
            if ft is None:
                return Unk("field type %s.%s" % (o.cls, n))
            v = self.lazy_value(ft, o.name + "." + n)
            o.f[n] = v
            return v
        if ft is None:
            ft = self.field_type(o.cls, n)
        return self.default_value(ft or "?", o.name + "." + n)

    def field_type(self, cls, n):
        r = self.ir.rec_by_t.get(cls)
        while r:
            for f in r["fields"]:
                if f["n"] == n:
                    return f["t"]
            nxt = None
            for b in r["bases"]:
                nxt = self.ir.rec_by_t.get(b["t"])
                if nxt:
                    t = self.field_type(b["t"], n)
                    if t:
                        return t
            break
        return None

    def default_value(self, t, name=""):
        t = strip_t(t)
        if t in INT_T or t in FLT_T:
            return Poly.atom(self.fresh("uninit." + name)) if name else ZERO
        if t == "bool":
            return Unk("uninitialised bool")
        if t == "char":
            return Unk("uninitialised char")
        if t.endswith("*"):
            return Unk("uninitialised pointer")
        v = self.construct_std(t, [], None)
        if v is not None:
            return v
        r = self.ir.rec_by_t.get(t)
        if r:
            return self.default_construct(t)
        return Unk("default " + t)

    def default_construct(self, t):
        for f in self.ir.funcs.values():
            if f.get("ctor") and f["clst"] == t and not f["params"]:
                return self.construct(f, t, [])
        o = Obj(t)
        r = self.ir.rec_by_t.get(t)
        for fl in (r["fields"] if r else []):
            if fl.get("init"):
                o.f[fl["n"]] = self.rv(fl["init"])
        return o

    # -------------------------------------------------------------- cells / lvalues
    # an lvalue is one of: Cell, ('f', obj, name), ('e', buf, off), ('c', coll, idx), ('t', value)
    def lget(self, lv):
        if isinstance(lv, Cell):
            return lv.v
        k = lv[0]
        if k == "f":
            return self.getfield(lv[1], lv[2])
        if k == "e":
            return self.elem(lv[1], lv[2])
        if k == "c":
            return self.coll_get(lv[1], lv[2])
        if k == "t":
            return lv[1]
        raise Undecided("lget")

    def lset(self, lv, v, line=0):
        if isinstance(lv, Cell):
            self.setcell(lv, v)
            return
        k = lv[0]
        if k == "f":
            self.setfield(lv[1], lv[2], v)
        elif k == "e":
            self.elem_set(lv[1], lv[2], v, line)
        elif k == "c":
            self.coll_set(lv[1], lv[2], v)
        elif k == "t":
            if is_unk(lv[1]):
                self.wild(lv[1])
        else:
            raise Undecided("lset")

    def elem(self, buf, off):
        if buf is None:
            return Unk("null deref")
        if isinstance(buf, IBuf):
            return self.iget(buf, off)
        if self.permbufs:
            d = perms.decode(self, buf, off)
            if d is not None:
                buf, off = d
        self.check_range(buf, off, ONE, "read")
        v = self.M.read(buf, View(off, 1, 1, 0, 0))
        return self.to_scalar(v)

    def to_scalar(self, v):
        if isinstance(v, MatVal):
            if not v.items:
                return ZERO
            if all(not k[4] for k in v.items):
                r = ZERO
                for c in v.items.values():
                    r = r + c
                return r
            if all(len(k[4]) == 1 and k[4][0][0] == "ones" for k in v.items):
                r = ZERO
                for c in v.items.values():
                    r = r + c
                return r
        return v

    def to_mat(self, v):
        if isinstance(v, Poly):
            if v.is_zero():
                return self.A.zero(1, 1)
            return MatVal(ONE, ONE, {(ZERO, ONE, ZERO, ONE, ()): v})
        return v

    def elem_set(self, buf, off, v, line):
        if buf is None:
            return
        if isinstance(buf, IBuf):
            self.iset(buf, off, v)
            return
        if self.permbufs:
            d = perms.decode(self, buf, off)
            if d is not None:
                buf.renumbered = True
                buf, off = d
        self.check_range(buf, off, ONE, "write", line)
        if isinstance(v, (Poly, MatVal)):
            self.mwrite(buf, View(off, 1, 1, 0, 0), self.to_mat(v), line)
        else:
            self.mwrite(buf, View(off, 1, 1, 0, 0), v if is_unk(v) else Unk("stored %r" % (v,)), line)

    def iget(self, b, off):
        F = self.F
        off = F.norm(off)
        for idx, val, lp in reversed(b.entries):
            if idx is None:
                return val if not callable(val) else val(off)
            if lp is None:
                d = F.norm(idx - off)
                if d.is_zero():
                    return val
                if not F.nonzero(d):
                    return Unk("aliasing int write")
                continue
            it, n = lp
            sp = F.norm(idx).split(it)
            if sp is None:
                return Unk("int write index")
            k, r = sp
            if k.is_zero():
                return Unk("int write index")
            q = F.norm(off - r).div(k)
            if q is None:
                return Unk("int index")
            if F.nonneg(q) and F.nonneg(n - 1 - q):
                return self.reindex(val, it, q) if isinstance(val, Poly) else val
            if F.nonneg(q - n) or F.nonneg(-q - 1):
                continue
            return Unk("int range")
        if isinstance(b.base, Poly):
            return b.base
        if b.base == "zero":
            return ZERO
        if b.base == "init":
            return Poly.atom("%s[%s]" % (b.src, off))
        if b.base == "perm":
            return perms.value(self, b, off)
        return Unk("uninitialised int")

    def reindex(self, p, it, q):
        """p with the index `it` replaced by q, also inside indexed atoms"""
        mp = {it: q}
        for a in p.atoms():
            if a != it and it in a:
                fa = self.fn_atoms.get(a)
                mp[a] = fa[0](fa[1].subs({it: q})) if fa else Poly.atom(a.replace(it, str(q)))
        return p.subs(mp)

    def iset(self, b, off, v):
        self.setattr_(b, "entries", b.entries + ((P(off), v, None),))

    def mwrite(self, buf, view, val, line=0):
        old = buf.head
        self.journal.append(lambda: setattr(buf, "head", old))
        if self.written_bufs:
            for s in self.written_bufs:
                s.setdefault(buf.uid, (buf, old))
        self.M.write(buf, view, val, (self.stack[-1] if self.stack else None, line))

    def mhavoc(self, buf, why, line=0):
        if isinstance(buf, IBuf):
            self.setattr_(buf, "entries", buf.entries + ((None, Unk(why), None),))
            return
        old = buf.head
        self.journal.append(lambda: setattr(buf, "head", old))
        if self.written_bufs:
            for s in self.written_bufs:
                s.setdefault(buf.uid, (buf, old))
        self.M.havoc(buf, why, (self.stack[-1] if self.stack else None, line))

    def mfam(self, buf, fam, line=0):
        old = buf.head
        self.journal.append(lambda: setattr(buf, "head", old))
        if self.written_bufs:
            for s in self.written_bufs:
                s.setdefault(buf.uid, (buf, old))
        buf.head = Node(buf.head, None, fam, (self.stack[-1] if self.stack else None, line))

    written_bufs = None

    # bounds: definite overrun only
    def check_range(self, buf, off, n, what, line=0):
        if buf.freed:
            self.alarm("use of freed memory %s" % buf.name, line)
        if buf.size is None:
            return
        F = self.F
        hi = F.norm(off + n - P(buf.size))
        lo = F.norm(P(off))
        nn = F.norm(P(n))
        # definite when positive for every admissible size (given a nonempty access)
        if F.nonneg(hi - 1) and (F.nonneg(nn - 1) or self.generic_pos(nn)):
            self.alarm("%s of %s: [%s, +%s) exceeds size %s" % (what, buf.name, lo, nn, F.norm(P(buf.size))), line)
        elif F.nonneg(-lo - 1) and (F.nonneg(nn - 1) or self.generic_pos(nn)):
            self.alarm("%s of %s: offset %s is negative" % (what, buf.name, lo), line)
        else:
            self.bound(hi, (nn,), what, buf, line)

    def bound(self, over, shape, what, buf, line):
        """`over` elements past the end unless the sizes forbid it: judged once the whole path is known"""
        if over.is_const() or all(c <= 0 for c in over.d.values()):
            return
        trips = tuple(fr.trip for fr in self.frames)
        if None in trips or any(fr.trace for fr in self.frames):
            return          # a trial iteration, or one branch of an iteration
        its = {t[1] for t in trips}
        for q in (over,) + tuple(shape):
            if any("$" in a or "(" in a or "<" in a and a not in its for a in q.atoms()):
                return
        k = (over, shape, trips)
        if k not in self.bounds:
            f = self.stack[-1] if self.stack else None
            self.bounds[k] = (what, buf.name, "%s:%s" % (self.ir.loc(f, line or f["l"]) if f else "?", f["q"] if f else "?"))

    def overruns(self):
        r = []
        if self.bounds:
            F = self.F
            ms = F.models()
            for (over, shape, trips), (what, name, where) in self.bounds.items():
                o = F.norm(over)
                sh = [F.norm(q) for q in shape]
                for env in ms:
                    if self.overrun(o, sh, trips, env, F):
                        r.append(("%s of %s: %s elements past its end" % (what, name, o), where))
                        break
        return r

    def overrun(self, o, shape, trips, env, F, ends=(0, 1)):
        if trips:
            env = env.child()
            for last in ends:       # the first and the last iteration
                for N, a in trips:
                    n = evalp(F.norm(N), env)
                    if n < 1:
                        return False
                    env[a] = n - 1 if last else 0
                if self.overrun(o, shape, (), env, F):
                    return True
            return False
        return evalp(o, env) > 0 and all(evalp(q, env) > 0 for q in shape)

    def generic_pos(self, p):
        return False

    def alarm(self, msg, line=0):
        f = self.stack[-1] if self.stack else None
        self.alarms.append((msg, "%s:%s" % (self.ir.loc(f, line or f["l"]) if f else "?", f["q"] if f else "?")))

    # -------------------------------------------------------------- collections
    def coll_size(self, c):
        n = ZERO
        for p in c.parts:
            if p[0] == "one":
                n = n + 1
            elif p[0] == "each":
                n = n + p[1].N
            elif p[0] in ("sym", "sym0", "symref"):
                n = n + p[2]
            else:
                return Unk("coll size")
        return n

    def coll_get(self, c, idx):
        F = self.F
        if is_unk(idx):
            return Unk("index")
        idx = F.norm(P(idx))
        pos = ZERO
        for p in c.parts:
            if p[0] == "one":
                if F.eq(pos, idx):
                    return p[1]
                pos = pos + 1
            elif p[0] in ("sym", "sym0", "symref"):
                d = idx - pos
                if F.nonneg(d) or len(c.parts) == 1:
                    if len(c.parts) == 1 or F.nonneg(p[2] - 1 - d):
                        if p[0] == "symref":
                            return self.sym_elem(p[1], F.norm(d))
                        if p[0] == "sym0":
                            return self.def_elem(c, F.norm(d))
                        return self.sym_elem(c, F.norm(d))
                pos = pos + p[2]
            elif p[0] == "each":
                d = idx - pos
                if len(c.parts) == 1 or (F.nonneg(d) and F.nonneg(p[1].N - 1 - d)):
                    if p[1].dom and p[1].dom[0] == "range":
                        return self.subst_value(p[2], p[1], F.norm(d))
                    it = p[1].dom[1] if p[1].dom else None
                    return Unk("each index")
                pos = pos + p[1].N
        g = getattr(c, "popped", None)
        if g is not None and g[0] == len(c.parts) and F.eq(pos, idx):
            return g[1]       # storage of the element popped last, not reused yet
        if self.text is not None and idx.is_const() and all(p[0] == "one" for p in c.parts) and not 0 <= idx.const_value() < len(c.parts):
            f = self.stack[-1] if self.stack else None
            raise Definite("element %s of a list of %d is used" % (idx, len(c.parts)), "%s:%s" % (self.ir.loc(f), f["q"]) if f else "")
        return Unk("coll index %s" % idx)

    def subst_value(self, v, loop, d):
        it = loop.dom[1]
        if isinstance(v, Poly):
            return v.subs({it: d})
        if isinstance(v, PObj) or isinstance(v, Obj):
            o = v.o if isinstance(v, PObj) else v
            g = o.tag.get("gen") if isinstance(o, Obj) else None
            if g:
                e = self.sym_elem(g[0], F_norm(self, g[1].subs({it: d})))
                return e
        return Unk("subst")

    def sym_elem(self, c, idx):
        """element of a symbolic collection; memoised by index"""
        cache = getattr(c, "cache", None)
        if cache is None:
            cache = c.cache = {}
        k = self.F.norm(P(idx))
        if k in cache:
            self.touched.append((c, k, cache[k]))
            v = cache[k]
            o = v.o if isinstance(v, PObj) else v
            if isinstance(o, Obj):
                for p in o.tag.get("facts", ()):
                    self.F.add_ge0(p)
            return v
        name = "%s[%s]" % (c.name, k)
        t = c.elt
        if self.elem_gen:
            v = self.elem_gen(self, c, k, name)
            if v is not None:
                cache[k] = v
                self.touched.append((c, k, v))
                return v
        v = self.lazy_value(t, name)
        o = v.o if isinstance(v, PObj) else v
        if isinstance(v, Smart):
            o = self.smart_target(v)
        if isinstance(o, Obj):
            o.tag["gen"] = (c, k)
        cache[k] = v
        self.touched.append((c, k, v))
        return v

    def def_elem(self, c, idx):
        cache = getattr(c, "dcache", None)
        if cache is None:
            cache = c.dcache = {}
        k = self.F.norm(P(idx))
        if k not in cache:
            cache[k] = self.default_zero(c.elt)
        return cache[k]

    def coll_set(self, c, idx, v):
        F = self.F
        idx = F.norm(P(idx))
        if idx.is_const() and all(p[0] == "one" for p in c.parts):
            i = int(idx.const_value())
            if 0 <= i < len(c.parts):
                np = list(c.parts)
                np[i] = ("one", v)
                self.setattr_(c, "parts", np)
                return
        self.setattr_(c, "parts", [("unk", "indexed store")])

    def coll_append(self, c, v):
        if self.append_log:
            self.append_log[-1].append((c, v))
        self.setattr_(c, "parts", c.parts + [("one", v)])
        if getattr(c, "popped", None) is not None:
            self.setattr_(c, "popped", None)

    append_log = None

    # -------------------------------------------------------------- scalars
    def sadd(self, a, b, sign=1):
        if isinstance(a, Poly) and isinstance(b, Poly):
            return a + b * sign if sign == 1 else a - b
        if is_unk(a):
            return a
        if is_unk(b):
            return b
        if isinstance(a, (Poly, MatVal)) and isinstance(b, (Poly, MatVal)):
            return self.to_scalar(self.A.add(self.to_mat(a), self.to_mat(b), ONE, P(sign)))
        return Unk("add %r %r" % (a, b))

    def smul(self, a, b):
        if isinstance(a, Poly) and isinstance(b, Poly):
            return a * b
        if is_unk(a):
            return a
        if is_unk(b):
            return b
        if isinstance(a, Poly) and isinstance(b, MatVal):
            return self.to_scalar(self.A.scale(a, b))
        if isinstance(b, Poly) and isinstance(a, MatVal):
            return self.to_scalar(self.A.scale(b, a))
        if isinstance(a, MatVal) and isinstance(b, MatVal):
            return self.to_scalar(self.A.mul(a, b))
        return Unk("mul")

    def sconj(self, a):
        if isinstance(a, Poly):
            return self.A.cJ(a)
        if isinstance(a, MatVal):
            return self.A.J(a)
        return a if is_unk(a) else Unk("conj")

    # -------------------------------------------------------------- expressions
    def rv(self, e):
        """rvalue"""
        if e is None:
            return None
        m = getattr(self, "x_" + e["k"], None)
        if m is None:
            return Unk("expr " + e["k"])
        v = m(e)
        if isinstance(v, LV):
            v = self.lget(v.lv)
        return v

    def lv(self, e):
        """lvalue of an expression, falling back to a temporary"""
        k = e["k"]
        if k == "ref":
            c = self.lookup(e)
            return c if c is not None else ("t", Unk("ref " + str(e.get("n"))))
        if k == "mem":
            if e.get("d") == "static":
                return ("t", Unk("static member"))
            o = self.base_obj(e)
            if isinstance(o, Obj):
                return ("f", o, e["n"])
            return ("t", Unk("member of %r" % (o,)))
        if k == "un" and e["op"] == "*":
            return self.deref(self.rv(e["e"]))
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            self.x_un(e)
            return self.lv(e["e"])
        if k == "idx":
            b, i = self.rv(e["b"]), self.rv(e["i"])
            return self.index_lv(b, i)
        if k == "asg":
            self.x_asg(e)
            return self.lv(e["a"])
        if k == "cond":
            return self.lv(e["a"]) if self.truth(self.rv(e["c"]), "l%d" % e["l"]) else self.lv(e["b"])
        if k in ("opcall", "mcall", "call"):
            v = getattr(self, "x_" + k)(e)
            if isinstance(v, LV):
                return v.lv
            return ("t", v)
        if k in ("cast", "icast"):
            return self.lv(e["e"])
        return ("t", self.rv(e))


    def base_obj(self, e):
        b = e["b"]
        if e.get("arrow"):
            v = self.rv(b)
            return self.pointee(v)
        v = self.rvobj(b)
        return v

    def rvobj(self, e):
        """value of an expression used as an object"""
        return self.lget(self.lv(e)) if e["k"] in ("ref", "mem", "un", "idx", "cond", "opcall", "mcall", "call", "asg") else self.rv(e)

    def pointee(self, v):
        if isinstance(v, PObj):
            if isinstance(v.o, Obj) and v.o.tag.get("maybe_null"):
                # dereferencing asserts non-null
                self.F.preds[("null", v.o.name)] = False
            if v.o is None:
                self.alarm("null pointer dereferenced")
                raise Undecided("null deref")
            return v.o
        if isinstance(v, Smart):
            t = self.smart_target(v)
            if t is None:
                self.alarm("null pointer dereferenced")
                raise Undecided("null smart pointer deref")
            return t
        if isinstance(v, PCell):
            return self.lget(v.c)
        if isinstance(v, It):
            x = self.coll_get(v.c, v.i)
            if isinstance(x, (PObj, Smart)):
                return x
            return x
        if isinstance(v, Obj):
            return v
        return v if is_unk(v) else Unk("pointee %r" % (v,))

    def deref(self, v):
        if isinstance(v, Ptr):
            if v.buf is None:
                return ("t", Unk("null deref"))
            return ("e", v.buf, v.off)
        if isinstance(v, PCell):
            return v.c
        if isinstance(v, It):
            return ("c", v.c, v.i)
        if isinstance(v, (PObj, Smart)):
            return ("t", self.pointee(v))
        return ("t", v if is_unk(v) else Unk("deref %r" % (v,)))

    def index_lv(self, b, i):
        if isinstance(b, Ptr) and isinstance(i, Poly):
            if b.buf is None:
                return ("t", Unk("null index"))
            return ("e", b.buf, b.off + i)
        if isinstance(b, Vec) and isinstance(i, Poly):
            return ("e", b.buf, i)
        if isinstance(b, Coll) and isinstance(i, Poly):
            return ("c", b, i)
        if isinstance(b, It) and isinstance(i, Poly):
            return ("c", b.c, b.i + i)
        return ("t", Unk("index %r" % (b,)))

    def lookup(self, e):
        fr = self.env
        i = e["id"]
        while fr is not None:
            if i in fr["vars"]:
                return fr["vars"][i]
            fr = fr.get("up")
        g = self.globals.get(i)
        return g

    globals = {}

    def x_int(self, e):
        return P(e["v"])

    def x_float(self, e):
        return Poly.const(Fraction(e["v"]).limit_denominator(10 ** 12)) if e["v"] == e["v"] and abs(e["v"]) < 1e300 else Unk("float")

    def x_char(self, e):
        return e["v"] if e["v"] != "" else "\0"

    def x_bool(self, e):
        return e["v"]

    def x_str(self, e):
        return StrV(e["v"])

    def x_null(self, e):
        return PObj(None)

    def x_zero(self, e):
        t = strip_t(e["t"])
        if t == "bool":
            return False
        if t == "char":
            return "\0"
        if t.endswith("*"):
            return PObj(None)
        if t in INT_T or t in FLT_T:
            return ZERO
        v = self.construct_std(t, [], e)
        if v is not None:
            return v
        if t in self.ir.rec_by_t:
            return self.default_construct(t)
        return Sym("zero:" + t)

    def x_sizeof(self, e):
        return Poly.atom("sizeof(%s)" % e["at"])

    def x_this(self, e):
        return PObj(self.env_this)

    def x_ref(self, e):
        d = e.get("d")
        if d == "func":
            return MemPtr(e["id"], e.get("q"))
        if "cv" in e:
            return P(e["cv"])
        if d in ("enum", "EnumConstant"):
            return Sym("enum:" + e["q"], None)
        c = self.lookup(e)
        if c is None:
            if d in ("var", "parm", "global", "static"):
                if e["n"] == "npos":
                    return P(2 ** 64 - 1)
                return Unk("unbound " + e["n"])
            return Sym("decl:" + str(e.get("q")))
        return self.lget(c)

    def x_mem(self, e):
        if e.get("d") == "static":
            return Unk("static member " + e["n"])
        return self.lget(self.lv(e))

    def x_idx(self, e):
        return self.lget(self.lv(e))

    def x_memptr(self, e):
        return MemPtr(e["f"], e["q"])

    def x_cond(self, e):
        if self.truth(self.rv(e["c"]), "l%d" % e["l"]):
            return self.rv(e["a"])
        return self.rv(e["b"])

    def x_icast(self, e):
        v = self.rv(e["e"])
        ck = e["ck"]
        if ck == "NullToPointer":
            t = strip_t(e["t"])
            el = strip_t(t[:-1]) if t.endswith("*") else ""
            if el in FLT_T or el in INT_T:
                return Ptr(None)
            return PObj(None)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            if isinstance(v, Poly):
                return Cond("ne", v)
            return v
        if ck == "FloatingToIntegral":
            if isinstance(v, Poly) and v.is_const() and v.const_value() == int(v.const_value()):
                return v
            if isinstance(v, Poly) and not any(a.startswith("$") or a.startswith("~$") for a in v.atoms()):
                return v if all(isinstance(c, int) for c in v.d.values()) else Poly.atom("floor(%s)" % v)
            return Unk("floating to integral")
        if ck == "IntegralCast":
            if v is True or v is False:
                return P(int(v))
            if isinstance(v, Cond):
                return P(1) if self.truth(v) else ZERO
            if isinstance(v, str):
                return P(ord(v)) if strip_t(e["t"]) != "char" else v
            if isinstance(v, Poly) and strip_t(e["t"]) == "char":
                return v
            return v
        if ck == "IntegralToFloating":
            if v is True or v is False:
                return P(int(v))
        return v

    x_cast = x_icast

    def x_cast(self, e):
        if e["ck"] in ("Dynamic",):
            return self.rv(e["e"])
        if e["ck"] == "BitCast" and "char" in strip_t(e["t"]):
            return ("bytes", self.rv(e["e"]))
        return self.x_icast(e)

    def x_init(self, e):
        t = strip_t(e["t"])
        if t in self.ir.rec_by_t:
            o = Obj(t)
            r = self.ir.rec_by_t[t]
            for f, x in zip(r["fields"], e["e"]):
                o.f[f["n"]] = self.rv(x)
            return o
        if len(e["e"]) == 1 and (t in INT_T or t in FLT_T or t.endswith("*") or t in ("bool", "char") or "::*)" in t or (e["e"][0].get("t") and strip_t(e["e"][0]["t"]) == t)):
            return self.rv(e["e"][0])
        if not e["e"]:
            return self.x_zero(e)
        return Tup([self.rv(x) for x in e["e"]])

    def x_lambda(self, e):
        caps = {}
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = self.env_this
                continue
            if "init" in c:
                caps[c["id"]] = Cell(self.rv(c["init"]))
                continue
            cell = self.lookup({"id": c["id"]})
            if cell is None:
                cell = Cell(Unk("capture " + c["n"]))
            caps[c["id"]] = cell if c["ref"] else Cell(self.copyval(self.lget(cell)))
        return Closure(e["f"], caps, this, e.get("specs"))

    def copyval(self, v):
        if isinstance(v, Vec):
            return self.copy_vec(v)
        if isinstance(v, Coll):
            c = Coll(list(v.parts), v.name, v.elt)
            c.cache = getattr(v, "cache", None) or {}
            v.cache = c.cache
            if hasattr(v, "hdesc"):
                c.hdesc = v.hdesc
            return c
        return v

    def copy_vec(self, v):
        if isinstance(v.buf, IBuf):
            b = IBuf(self.fresh("copy." + v.buf.name), v.size, v.buf.base)
            b.src = v.buf.src
            b.entries = v.buf.entries
        else:
            b = self.clone_buf(v.buf, v.size)
        return Vec(b, v.size)

    def clone_buf(self, src, size):
        if not isinstance(src, Buffer):
            raise Undecided("copy of unknown storage")
        b = Buffer(self.fresh("copy"), size, src.base)
        b.name = src.name
        b.head = src.head
        b.hints = list(getattr(src, "hints", []))
        return b

    def x_throw(self, e):
        raise Throw()

    def x_unk(self, e):
        return Unk("unk expr")

    def x_new(self, e):
        t = strip_t(e["at"])
        if e["array"]:
            n = self.rv(e["size"])
            if isinstance(n, Poly) and (t in FLT_T or t in INT_T):
                n = self.F.norm(n)
                init = e.get("init")
                base = "uninit"
                if t.startswith("std::complex"):
                    base = "zero"
                if init is not None and init["k"] in ("zero", "init"):
                    base = "zero"
                if t in INT_T:
                    b = IBuf(self.fresh("new"), n, "zero" if base == "zero" else "uninit")
                else:
                    b = Buffer(self.fresh("new"), n, base)
                b.owned = True
                self.all_allocs.append((b, self.stack[-1] if self.stack else None, e["l"]))
                return Ptr(b, ZERO)
            return Unk("new[]")
        v = self.rv(e["init"]) if e.get("init") else self.default_value(t)
        if isinstance(v, Obj):
            return PObj(v)
        return PCell(Cell(v))

    def x_delete(self, e):
        v = self.rv(e["e"])
        if isinstance(v, Ptr) and v.buf is not None:
            b = v.buf
            if b.freed:
                self.alarm("memory %s freed twice" % b.name, e["l"])
            self.setattr_(b, "freed", True)
            if not getattr(b, "owned", False) and not getattr(b, "may_free", True):
                self.alarm("memory %s freed but not owned" % b.name, e["l"])
        return None

    # -- operators
    def x_un(self, e):
        op = e["op"]
        if op == "*":
            return self.lget(self.lv(e))
        if op == "&":
            l = self.lv(e["e"])
            return self.addr(l)
        if op in ("++", "--"):
            l = self.lv(e["e"])
            v = self.lget(l)
            d = 1 if op == "++" else -1
            if isinstance(v, Poly):
                n = v + d
            elif isinstance(v, Ptr):
                n = Ptr(v.buf, v.off + d)
            elif isinstance(v, It):
                n = It(v.c, v.i - d if v.rev else v.i + d, v.rev)
            else:
                n = v if is_unk(v) else Unk("++")
            self.lset(l, n, e["l"])
            return v if e.get("post") else n
        v = self.rv(e["e"])
        if op == "!":
            if isinstance(v, Cond):
                return v.neg()
            if v is True or v is False:
                return not v
            if is_unk(v):
                return v
            return not self.truth(v, "l%d" % e["l"])
        if op == "-":
            if isinstance(v, Poly):
                return -v
            if isinstance(v, MatVal):
                return self.A.scale(P(-1), v)
            return v if is_unk(v) else Unk("neg")
        if op == "+":
            return v
        return Unk("unary " + op)

    def addr(self, l):
        if isinstance(l, tuple):
            if l[0] == "e":
                return Ptr(l[1], l[2])
            v = self.lget(l)
            if isinstance(v, Obj):
                return PObj(v)
            return PCell(l)
        v = l.v
        if isinstance(v, Obj):
            return PObj(v)
        return PCell(l)

    def x_bin(self, e):
        op = e["op"]
        if op == "&&":
            a = self.rv(e["a"])
            if not self.truth(a, "l%d" % e["l"]):
                return False
            b = self.rv(e["b"])
            return self.as_bool(b)
        if op == "||":
            a = self.rv(e["a"])
            if self.truth(a, "l%d" % e["l"]):
                return True
            b = self.rv(e["b"])
            return self.as_bool(b)
        if op == ",":
            self.rv(e["a"])
            return self.rv(e["b"])
        a, b = self.rv(e["a"]), self.rv(e["b"])
        if op in ("->*", ".*"):
            return ("boundmem", self.pointee(a) if op == "->*" else a, b)
        return self.binop(op, a, b, e)

    def as_bool(self, v):
        return v

    def binop(self, op, a, b, e=None):
        where = "l%d" % e["l"] if e else ""
        if is_unk(a) and op not in ("==", "!="):
            return a
        if is_unk(b) and op not in ("==", "!="):
            return b
        if isinstance(a, bool):
            a = P(int(a)) if not isinstance(b, bool) else a
        if isinstance(b, bool) and isinstance(a, Poly):
            b = P(int(b))
        if isinstance(a, str) and isinstance(b, Poly):
            a = P(ord(a))
        if isinstance(b, str) and isinstance(a, Poly):
            b = P(ord(b))
        if op == "+":
            if isinstance(a, Ptr) and isinstance(b, Poly):
                return Ptr(a.buf, a.off + b)
            if isinstance(b, Ptr) and isinstance(a, Poly):
                return Ptr(b.buf, b.off + a)
            if isinstance(a, It) and isinstance(b, Poly):
                return It(a.c, a.i - b if a.rev else a.i + b, a.rev)
            if isinstance(a, StrV) or isinstance(b, StrV):
                return StrV()
            return self.sadd(a, b)
        if op == "-":
            if isinstance(a, Ptr) and isinstance(b, Poly):
                return Ptr(a.buf, a.off - b)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                return a.off - b.off if a.buf is b.buf else Unk("ptrdiff")
            if isinstance(a, It) and isinstance(b, It):
                return ((b.i - a.i) if a.rev else (a.i - b.i)) if a.c is b.c and a.rev == b.rev else Unk("itdiff")
            if isinstance(a, It) and isinstance(b, Poly):
                return It(a.c, a.i + b if a.rev else a.i - b, a.rev)
            return self.sadd(a, b, -1)
        if op == "*":
            return self.smul(a, b)
        if op == "/":
            if isinstance(a, Poly) and isinstance(b, Poly):
                q = self.F.norm(a).div(self.F.norm(b)) if not b.is_zero() else None
                t = strip_t(e["t"]) if e else "int"
                if a.is_const() and b.is_const() and b.const_value():
                    x, y = Fraction(a.const_value()), Fraction(b.const_value())
                    if t in INT_T:
                        return P(int(x / y))
                    if x.denominator != 1 or y.denominator != 1:
                        return P(Fraction(float(x) / float(y)))
                if q is not None and (t in FLT_T or all(isinstance(c, int) for c in q.d.values())):
                    return q
                if t in INT_T:
                    x, y = self.F.norm(a), self.F.norm(b)
                    w = Poly.atom("idiv(%s,%s)" % (x, y))
                    if y.is_const() and y.const_value() > 0 and self.F.nonneg(x) and w not in self.idivs:
                        self.idivs.append(w)
                        self.F.add_ge0(w)
                        self.F.add_ge0(x - w * y)
                        self.F.add_ge0(w * y + y - 1 - x)
                    return w
                if (a.is_const() or any("$@x" in x for x in a.atoms())) and not any("$@x" in x for x in b.atoms()):
                    # a coefficient divided by a number
                    return a * Poly.atom("$inv(%s)" % self.F.norm(b))
                return Poly.atom("$div(%s,%s)" % (self.F.norm(a), self.F.norm(b)))
            if isinstance(a, MatVal) and isinstance(b, Poly):
                return self.A.scale(Poly.atom("$inv(%s)" % b), a) if not b.is_const() else self.A.scale(Poly.const(Fraction(1) / Fraction(b.const_value())), a)
            return Unk("div")
        if op == "%":
            if isinstance(a, Poly) and isinstance(b, Poly):
                if a.is_const() and b.is_const() and b.const_value():
                    return P(int(a.const_value()) % int(b.const_value()))
                return Poly.atom("mod(%s,%s)" % (self.F.norm(a), self.F.norm(b)))
            return Unk("mod")
        if op in ("==", "!="):
            r = self.equal(a, b, where)
            if op == "==":
                return r
            if isinstance(r, Cond):
                return r.neg()
            if r is True or r is False:
                return not r
            return r
        if op in ("<", "<=", ">", ">="):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.buf is b.buf:
                a, b = a.off, b.off
            if isinstance(a, It) and isinstance(b, It) and a.c is b.c and a.rev == b.rev:
                a, b = (b.i, a.i) if a.rev else (a.i, b.i)
            if isinstance(a, Poly) and isinstance(b, Poly):
                if self.coef_only(a) or self.coef_only(b):
                    return Cond("pred", ("cmp", op, str(a), str(b)))
                frac = any(not isinstance(c, int) for p in (a, b) for c in p.d.values())
                if frac:
                    return Cond("pred", ("cmp", op, str(a), str(b)))
                d = {"<": b - a - 1, "<=": b - a, ">": a - b - 1, ">=": a - b}[op]
                return Cond("ge", d)
            if isinstance(a, (MatVal,)) or isinstance(b, MatVal):
                return Cond("pred", ("cmp", op, str(a), str(b)))
            return Unk("cmp")
        if op in ("&", "|", "^", "<<", ">>"):
            return Unk("bitop")
        return Unk("binop " + op)

    def equal(self, a, b, where=""):
        if is_unk(a):
            return a
        if is_unk(b):
            return b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, Poly) and isinstance(b, Poly):
            return Cond("eq", a - b)
        if isinstance(a, Cond) and isinstance(b, bool):
            return a if b else a.neg()
        if isinstance(b, Cond) and isinstance(a, bool):
            return b if a else b.neg()
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and isinstance(y, Poly) and y.is_const() and 0 < int(y.const_value()) < 128:
                a, b = x, chr(int(y.const_value()))
        if isinstance(a, (Sym, str)) and isinstance(b, (Sym, str)):
            return self.sym_eq(a, b)
        if isinstance(a, StrV) and isinstance(b, StrV):
            if a.s is not None and b.s is not None:
                return a.s == b.s
            return Unk("string compare")
        if isinstance(a, (Ptr, PObj, PCell, Smart)) and isinstance(b, (Ptr, PObj, PCell, Smart)):
            na, nb = self.isnull(a), self.isnull(b)
            if na is True and nb is True:
                return True
            if na is True or nb is True:
                x = b if na is True else a
                y = self.isnull(x)
                if y in (True, False):
                    return y
                return y
            oa, ob = self.ident_of(a), self.ident_of(b)
            if oa is None or ob is None:
                return Unk("pointer compare")
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.buf is b.buf:
                    return Cond("eq", a.off - b.off)
                return False
            if oa is ob:
                return True
            if isinstance(oa, Obj) and isinstance(ob, Obj) and (oa.lazy and ob.lazy) and not (oa.tag.get("distinct") and ob.tag.get("distinct")):
                k = tuple(sorted((oa.name, ob.name)))
                return Cond("pred", ("same",) + k)
            return False
        if isinstance(a, It) and isinstance(b, It) and a.c is b.c:
            return Cond("eq", a.i - b.i)
        return Unk("eq %r %r" % (a, b))

    def isnull(self, v):
        if isinstance(v, Ptr):
            return v.buf is None
        if isinstance(v, PObj):
            if v.o is None:
                return True
            if isinstance(v.o, Obj) and v.o.tag.get("maybe_null"):
                return Cond("pred", ("null", v.o.name))
            return False
        if isinstance(v, Smart):
            if v.t is None:
                return True
            if v.t == "lazy":
                return Cond("pred", ("null", v.name))
            return False
        return False

    def ident_of(self, v):
        if isinstance(v, Ptr):
            return v.buf
        if isinstance(v, PObj):
            return v.o
        if isinstance(v, Smart):
            return self.smart_target(v)
        if isinstance(v, PCell):
            return v.c
        return None

    def sym_eq(self, a, b):
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.name == b.name:
                return True
            if a.name.startswith("enum:") and b.name.startswith("enum:"):
                return False
        if isinstance(a, str) or (isinstance(a, Sym) and a.name.startswith("enum:")):
            a, b = b, a
        av = a.name
        bv = b if isinstance(b, str) else b.name
        # exclusive values of one symbol
        for k, v in self.F.preds.items():
            if k[0] == "symeq" and k[1] == av and v and k[2] != bv:
                return False
        if isinstance(a, Sym) and a.dom:
            if bv not in a.dom:
                return False
            rest = [d for d in a.dom if d != bv and self.F.preds.get(("symeq", av, d)) is not False]
            if not rest:
                k = ("symeq", av, bv)
                if k in self.pred_facts and self.F.preds.get(k) is None:
                    self.F.preds[k] = True
                    for q in self.pred_facts[k]:
                        self.assume_eq0(q)
                return True
        if isinstance(a, Sym) and a.dom:
            self.symdoms[av] = a.dom
        return Cond("pred", ("symeq", av, bv))

    def x_asg(self, e):
        op = e["op"]
        if op == "=":
            v = self.rv(e["b"])
            l = self.lv(e["a"])
            if isinstance(v, PObj) and v.o is None and strip_t(e["t"]).endswith("*") and strip_t(strip_t(e["t"])[:-1]) in (FLT_T | INT_T):
                v = Ptr(None)
            self.lset(l, v, e["l"])
            return v
        l = self.lv(e["a"])
        a = self.lget(l)
        b = self.rv(e["b"])
        v = self.binop(op[:-1], a, b, e)
        self.lset(l, v, e["l"])
        return v

    # -------------------------------------------------------------- calls
    def bind_args(self, f, e_args, pts):
        vals = []
        for i, a in enumerate(e_args):
            pt = pts[i] if pts and i < len(pts) else ""
            if is_ref(pt):
                l = self.lv(a)
                vals.append(l)
            else:
                vals.append(("t", self.rv(a)))
        return vals

    def x_call(self, e):
        if "fe" in e:
            fv = self.rv(e["fe"])
            args = [self.lv(a) for a in e["args"]]
            return self.call_value(fv, args, e)
        args = self.bind_args(None, e["args"], e.get("pt"))
        return self.dispatch(e["q"], e.get("f"), None, args, e)

    def x_mcall(self, e):
        if "fe" in e and "q" not in e:
            b = self.rv(e["fe"])
            if isinstance(b, tuple) and b and b[0] == "boundmem":
                args = [self.lv(a) for a in e["args"]]
                mp = b[2]
                if isinstance(mp, MemPtr):
                    return self.dispatch(mp.q, mp.f, b[1], args, e)
                self.wild(mp)
            return Unk("member pointer call")
        if e.get("arrow"):
            o = self.pointee(self.rv(e["obj"]))
            ol = ("t", o)
        else:
            ol = self.lv(e["obj"])
            o = self.lget(ol)
        if is_unk(o) and not e.get("const") and (e.get("q") or "").startswith("htool::"):
            self.wild(o)
        args = self.bind_args(None, e["args"], e.get("pt"))
        f = e.get("f")
        if e.get("virt") and not e.get("qual"):
            f = self.resolve_virtual(o, e)
        return self.dispatch(e["q"], f, o, args, e, ol)

    def resolve_virtual(self, o, e):
        f = self.ir.funcs.get(e["f"])
        if self.virt_hook:
            g = self.virt_hook(self, o, e)
            if g is not None:
                return g
        if isinstance(o, Obj):
            cls = o.cls
            seen = 0
            while cls and seen < 6:
                seen += 1
                r = self.ir.rec_by_t.get(cls)
                if not r:
                    break
                for m in r["methods"]:
                    if m["n"] == e["n"] and (m["id"] == e["f"] or self.overrides(m, e["f"])):
                        return m["id"]
                cls = r["bases"][0]["t"] if r["bases"] else None
        return e["f"]

    def overrides(self, m, fid, depth=0):
        if fid in m.get("overrides", []):
            return True
        if depth > 4:
            return False
        for o in m.get("overrides", []):
            g = self.ir.funcs.get(o)
            if g and self.overrides(g, fid, depth + 1):
                return True
        return False

    def x_opcall(self, e):
        q = e.get("q")
        if q is None:
            return Unk("operator")
        pts = list(e.get("pt") or [])
        if e.get("meth"):
            ol = self.lv(e["args"][0])
            o = self.lget(ol)
            args = self.bind_args(None, e["args"][1:], pts)
            if isinstance(o, Closure):
                return self.call_value(o, args, e)
            return self.dispatch(q, e.get("f"), o, args, e, ol)
        args = self.bind_args(None, e["args"], pts)
        return self.dispatch(q, e.get("f"), None, args, e)

    def call_value(self, fv, args, e):
        if isinstance(fv, Closure):
            fid = fv.f
            f = self.ir.funcs.get(fid)
            if (f is None or not f["hasbody"] or fv.generic) and fv.generic:
                # pick the specialisation named at the call site
                fid = e.get("f") if e.get("f") in self.ir.funcs else fv.generic[0]
                f = self.ir.funcs.get(fid)
            if f is None or not f["hasbody"]:
                return Unk("lambda body")
            return self.invoke(f, fv.this, args, caps=fv.caps)
        if isinstance(fv, MemPtr):
            return self.dispatch(fv.q, fv.f, None, args, e)
        if isinstance(fv, Functor):
            return fv.fn(self, args)
        return Unk("call of %r" % (fv,))

    def x_ctor(self, e):
        q = e["q"]
        t = strip_t(e["t"])
        if t.endswith("[]"):
            t = t[:-2]
        if q == "std::complex":
            a = [self.rv(x) for x in e["args"]]
            if not a:
                return ZERO
            if len(a) == 1:
                return a[0]
            if isinstance(a[1], Poly) and a[1].is_zero():
                return a[0]
            return Unk("complex")
        if q in self.hooks:
            r = self.hooks[q](self, e)
            if r is not NotImplemented:
                return r
        if q.startswith("htool::"):
            f = self.ir.funcs.get(e["f"])
            pts = e.get("pt")
            args = self.bind_args(None, e["args"], pts)
            k = "ctor:" + q
            if k in self.contracts:
                r = self.contracts[k](self, f, args, e)
                if r is not NotImplemented:
                    return r
            if f is None or not f["hasbody"]:
                o = Obj(t)
                o.tag["opaque"] = True
                return o
            if e.get("elid") and len(args) == 1 and (e.get("copy") or e.get("move")):
                return self.lget(args[0])
            return self.construct(f, t, args)
        # std types
        args = [self.lv(x) for x in e["args"]]
        v = self.construct_std(t, args, e)
        if v is not None:
            return v
        o = Obj(t)
        return o

    def construct(self, f, t, args, into=None):
        o = into or Obj(t)
        self.call_log.add(f["id"])
        if self.depth > 80:
            raise Undecided("depth")
        saved = (self.env, self.env_this)
        env = {"vars": {}, "up": None}
        for p, a in zip(f["params"], args):
            env["vars"][p["id"]] = self.param_cell(p, a)
        self.env, self.env_this = env, o
        self.stack.append(f)
        self.depth += 1
        try:
            r = self.ir.rec_by_t.get(t)
            done = set()
            for i in f.get("inits", []):
                if i.get("deleg"):
                    ee = i["e"]
                    if ee["k"] == "ctor":
                        g = self.ir.funcs.get(ee["f"])
                        self.construct(g, t, self.bind_args(None, ee["args"], ee.get("pt")), into=o)
                    continue
                if "base" in i:
                    ee = i.get("e")
                    if ee and ee["k"] == "ctor":
                        g = self.ir.funcs.get(ee["f"])
                        if g and g["hasbody"]:
                            self.construct(g, i["base"], self.bind_args(None, ee["args"], ee.get("pt")), into=o)
                    continue
                n = i.get("field")
                if n:
                    done.add(n)
                    ft = self.field_type(t, n) or ""
                    if i.get("e") is not None:
                        if is_ref(ft):
                            v = self.lget(self.lv(i["e"]))
                        else:
                            v = self.rv(i["e"])
                            v = self.coerce(v, ft)
                    else:
                        v = self.default_value(ft, n)
                    o.f[n] = v
            try:
                self.block(f["body"])
            except Return:
                pass
        finally:
            self.depth -= 1
            self.stack.pop()
            self.env, self.env_this = saved
        return o

    def coerce(self, v, t):
        t = strip_t(t)
        if isinstance(v, PObj) and v.o is None and t.endswith("*"):
            e = strip_t(t[:-1])
            if e in FLT_T or e in INT_T:
                return Ptr(None)
        if isinstance(v, Tup) and (t.startswith("std::vector<") or t.startswith("std::array<")):
            return self.vec_of(t, v.vs)
        return v

    def vec_of(self, t, vs):
        e = targ(t)
        if e in INT_T:
            b = IBuf(self.fresh("vec"), P(len(vs)), "zero")
            b.entries = tuple((P(i), x, None) for i, x in enumerate(vs))
            return Vec(b, P(len(vs)))
        if e in FLT_T:
            b = Buffer(self.fresh("vec"), P(len(vs)), "zero")
            for i, x in enumerate(vs):
                self.M.write(b, View(P(i), 1, 1, 0, 0), self.to_mat(x) if isinstance(x, (Poly, MatVal)) else Unk("init"))
            return Vec(b, P(len(vs)))
        return Coll([("one", x) for x in vs], None, e)

    def param_cell(self, p, a):
        if is_ref(p["t"]):
            if isinstance(a, Cell):
                return a
            if a[0] == "t":
                return Cell(a[1])
            v = self.lget(a)
            if isinstance(v, (Obj, Vec, Coll)):
                return Cell(v)
            return LCell(self, a)
        v = self.lget(a)
        return Cell(self.coerce(v, p["t"]))

    # -------------------------------------------------------------- library objects
    def construct_std(self, t, args, e):
        t = strip_t(t)
        import models
        base = t.split("<")[0]
        vals = [self.lget(a) for a in args]
        mv = bool(e and e.get("move"))
        if base == "std::vector":
            return self.make_vec(t, args, vals, e, mv)
        if base == "std::array":
            el = targ(t)
            try:
                n = P(int(targ(t, 1)))
            except Exception:
                return Unk("array")
            if vals and isinstance(vals[0], (Vec, Coll)):
                return self.copyval(vals[0])
            if el in INT_T:
                return Vec(IBuf(self.fresh("arr"), n, "uninit"), n)
            if el in FLT_T:
                return Vec(Buffer(self.fresh("arr"), n, "uninit"), n)
            return Coll([("one", self.default_value(el, "a")) for _ in range(int(n.const_value()))], None, el)
        if base in ("std::stack", "std::queue", "std::deque", "std::list", "std::set", "std::priority_queue"):
            if vals and isinstance(vals[0], Coll):
                return self.copyval(vals[0])
            if vals and isinstance(vals[0], Tup) and (base != "std::set"):
                return Coll([("one", x) for x in vals[0].vs], None, targ(t))
            if vals and isinstance(vals[0], (Vec, Tup)) or e and e.get("stdlist"):
                return Unk(base)
            return Coll([], None, targ(t))
        if base in ("std::unique_ptr", "std::shared_ptr"):
            if not vals:
                return Smart(None, None, targ(t))
            v = vals[0]
            if isinstance(v, Smart):
                r = Smart(v.t, v.name, targ(t))
                if v.t == "lazy":
                    pass
                if base == "std::unique_ptr" or mv:
                    self.setattr_(v, "t", None)
                return r
            if isinstance(v, PObj):
                return Smart(v.o, None, targ(t))
            return Unk("smart pointer of %r" % (v,))
        if base == "std::function":
            return vals[0] if vals else PObj(None)
        if base.startswith("std::basic_string") or base.startswith("std::__cxx11"):
            if vals and isinstance(vals[0], StrV):
                return vals[0]
            return StrV("") if not vals else StrV()
        if base == "std::pair":
            o = Obj(t)
            if len(vals) == 2:
                o.f["first"], o.f["second"] = vals
            elif len(vals) == 1 and isinstance(vals[0], Obj):
                o.f = dict(vals[0].f)
            elif not vals:
                o.f["first"] = self.default_zero(targ(t, 0))
                o.f["second"] = self.default_zero(targ(t, 1))
            else:
                return Unk("pair")
            return o
        if base == "std::tuple":
            return Tup(vals) if len(vals) != 1 or not isinstance(vals[0], Tup) else vals[0]
        if base in models.FUNCTORS:
            return models.Functor2(models.FUNCTORS[base])
        if base.startswith("__gnu_cxx::__normal_iterator") or base.startswith("std::reverse_iterator") or base.startswith("std::back_insert_iterator"):
            return vals[0] if vals else Unk("iterator")
        if base == "std::complex":
            if not vals:
                return ZERO
            if len(vals) == 1:
                return vals[0]
            if isinstance(vals[1], Poly) and vals[1].is_zero():
                return vals[0]
            return Unk("complex")
        if base.startswith("std::allocator") or base.startswith("std::integral_constant"):
            return Sym("alloc")
        if base == "std::initializer_list":
            return vals[0] if vals else Tup([])
        if base == "std::map" and vals and isinstance(vals[0], Obj):
            n = Obj(t, vals[0].name, vals[0].lazy)
            n.f = dict(vals[0].f)
            return n
        if base.startswith("std::"):
            return Obj(t)
        return None

    def default_zero(self, t):
        t = strip_t(t or "?")
        if t in INT_T or t in FLT_T:
            return ZERO
        if t == "bool":
            return False
        if t.endswith("*"):
            return Ptr(None) if strip_t(t[:-1]) in (INT_T | FLT_T) else PObj(None)
        return self.default_value(t)

    def make_vec(self, t, args, vals, e, mv):
        import models
        el = targ(t)
        num_el = el in INT_T or el in FLT_T
        if not vals:
            if el in INT_T:
                return Vec(IBuf(self.fresh("vec"), ZERO, "zero"), ZERO)
            if el in FLT_T:
                return Vec(Buffer(self.fresh("vec"), ZERO, "zero"), ZERO)
            return Coll([], None, el)
        v = vals[0]
        if isinstance(v, Tup):
            return self.vec_of(t, v.vs)
        if isinstance(v, (Vec, Coll)):
            if isinstance(v, Vec):
                r = self.copy_vec(v)
                if mv:
                    r = Vec(v.buf, v.size)
                    self.setattr_(v, "size", ZERO)
                    self.setattr_(v, "buf", IBuf(self.fresh("moved"), ZERO, "zero") if isinstance(v.buf, IBuf) else Buffer(self.fresh("moved"), ZERO, "zero"))
                return r
            c = self.copyval(v)
            if mv:
                self.setattr_(v, "parts", [])
            else:
                c.parts = [("one", self.copy_obj(p[1])) if p[0] == "one" and isinstance(p[1], Obj) else p for p in c.parts]
            c.domain = getattr(v, "domain", None)
            return c
        if isinstance(v, Ptr) and len(vals) >= 2 and isinstance(vals[1], Ptr):
            p, n = models.rng(self, v, vals[1])
            if p is None:
                return Unk("range vector")
            return models.range_vec(self, p, n)
        if isinstance(v, It) and len(vals) >= 2 and isinstance(vals[1], It):
            if self.F.zero(v.i) and self.F.eq(vals[1].i, self.coll_size(v.c)):
                return self.copyval(v.c)
            return Unk("range vector")
        if isinstance(v, Poly):
            n = self.F.norm(v)
            fill = models.num(self, args[1]) if len(args) > 1 and num_el else ZERO
            if isinstance(fill, Sym):
                fill = ZERO
            if el in INT_T:
                return Vec(IBuf(self.fresh("vec"), n, fill if isinstance(fill, Poly) else Unk("fill")), n)
            if el in FLT_T:
                b = Buffer(self.fresh("vec"), n, "zero")
                if not (isinstance(fill, Poly) and fill.is_zero()):
                    b.base = ("fill", fill) if isinstance(fill, Poly) else Unk("fill")
                return Vec(b, n)
            if n.is_const() and 0 <= n.const_value() <= 8:
                k = int(n.const_value())
                return Coll([("one", self.copyval(vals[1]) if len(vals) > 1 and not isinstance(vals[1], Sym) else self.default_zero(el)) for _ in range(k)], None, el)
            c = Coll([("sym0", None, n, None)], self.fresh("coll"), el)
            return c
        return Unk("vector(%r)" % (v,))

    def ctors_of(self, t):
        c = self.ir.__dict__.setdefault("ctors", None)
        if c is None:
            c = self.ir.ctors = {}
            for f in self.ir.funcs.values():
                if f.get("ctor"):
                    c.setdefault(f["clst"], []).append(f)
        return c.get(t, [])

    def pick_ctor(self, t, args, e):
        if t not in self.ir.rec_by_t:
            return NotImplemented
        best = None
        pts = [strip_t(x) for x in (e.get("pt") or [])]
        for f in self.ctors_of(t):
            if len(f["params"]) < len(args) or f.get("deleted") or any(not p.get("def") for p in f["params"][len(args):]):
                continue
            sc = 0
            for i, (p, a) in enumerate(zip(f["params"], args)):
                pt = strip_t(p["t"])
                v = self.lget(a)
                at = pts[i] if i < len(pts) else ""
                if pt == at:
                    sc += 4
                elif isinstance(v, Obj):
                    if v.cls == pt or self.derives(v.cls, pt):
                        sc += 2
                    else:
                        sc -= 50
                elif isinstance(v, Poly) and (pt in INT_T or pt in FLT_T):
                    sc += 1
                elif isinstance(v, (Vec, Coll)) and not pt.startswith("std::vector") and not pt.startswith("std::array"):
                    sc -= 50
                elif isinstance(v, Smart) and not ("_ptr<" in pt):
                    sc -= 50
                elif isinstance(v, (Poly, bool)) and pt in self.ir.rec_by_t:
                    sc -= 50
                if i == 0 and len(args) == 1 and (f.get("copyctor") or f.get("movector")):
                    # an rvalue selects the move constructor
                    rv = (e.get("pt") or [""])[0].strip().endswith("&&") or not (e.get("pt") or [""])[0].strip().endswith("&")
                    if f.get("movector"):
                        sc += 1 if rv else -50
                    else:
                        sc += 0
            if best is None or sc > best[0]:
                best = (sc, f)
        if best is None or best[0] < -20:
            return None
        return best[1]

    def derives(self, cls, base, depth=0):
        if cls == base:
            return True
        r = self.ir.rec_by_t.get(cls)
        if not r or depth > 5:
            return False
        return any(self.derives(b["t"], base, depth + 1) for b in r["bases"])

    def convert_args(self, f, args):
        out = []
        for p, a in zip(f["params"], args):
            v = self.lget(a)
            if not is_ref(p["t"]) and isinstance(v, Smart) and "unique_ptr" in p["t"]:
                n = Smart(v.t, v.name, v.elt)
                self.setattr_(v, "t", None)
                out.append(("t", n))
            elif not is_ref(p["t"]) and isinstance(v, (Vec, Coll)):
                out.append(("t", self.copyval(v)))
            elif not is_ref(p["t"]) and isinstance(v, Obj):
                out.append(("t", self.copy_obj(v)))
            else:
                out.append(a)
        for p in f["params"][len(args):]:
            out.append(("t", self.rv(p["def"]) if p.get("def") else Unk("default argument")))
        return out

    def copy_obj(self, o, move=False):
        if not isinstance(o, Obj):
            return o
        for f in self.ctors_of(o.cls):
            if f.get("copyctor" if not move else "movector") and f["hasbody"] and not f.get("deleted"):
                return self.construct(f, o.cls, [("t", o)])
        n = Obj(o.cls, o.name, o.lazy)
        n.tag = dict(o.tag)
        for k, v in o.f.items():
            n.f[k] = self.copy_field(v, move)
        return n

    def copy_field(self, v, move=False):
        if isinstance(v, (Vec, Coll)):
            return self.copyval(v)
        if isinstance(v, Obj):
            return self.copy_obj(v, move)
        if isinstance(v, Smart):
            n = Smart(v.t, v.name, v.elt)
            return n
        return v

    def check_view(self, buf, w, what, line=0):
        if isinstance(buf, IBuf):
            if not buf.size is None:
                n = self.F.norm(w.r)
                hi = self.F.norm(w.off + n - P(buf.size))
                if self.F.nonneg(hi - 1) and self.F.nonneg(n - 1):
                    self.alarm("%s of %s: [%s,+%s) exceeds size %s" % (what, buf.name, w.off, n, buf.size), line)
            return
        w = w.norm(self.F)
        if buf.freed:
            self.alarm("%s of freed memory %s" % (what, buf.name), line)
        if buf.size is None or w.r.is_zero() or w.c.is_zero():
            return
        F = self.F
        size = F.norm(P(buf.size))
        # generic sizes: the partition assumes every free dimension >= 1 when judging extent
        end = w.off + (w.r - 1) * w.rs + (w.c - 1) * w.cs + 1
        over = F.norm(end - size)
        if self.definitely_positive(over):
            self.alarm("%s of %s: elements [%s, %s) of %s" % (what, buf.label_(), w.off, F.norm(end), size), line)
        else:
            self.bound(over, (w.r, w.c), what, buf, line)
        if self.definitely_positive(F.norm(-w.off)):
            self.alarm("%s of %s: negative offset %s" % (what, buf.label_(), w.off), line)

    def definitely_positive(self, p):
        return self.F.nonneg(p - 1)

    env = None
    env_this = None

    def invoke(self, f, this, args, caps=None):
        """inline a function with a body"""
        if self.depth > 60:
            raise Undecided("call depth")
        self.steps += 1
        if self.steps > 60000:
            raise Undecided("budget")
        self.call_log.add(f["id"])
        env = {"vars": dict(caps) if caps else {}, "up": None}
        for p, a in zip(f["params"], args):
            env["vars"][p["id"]] = self.param_cell(p, a)
        saved = (self.env, self.env_this)
        self.env, self.env_this = env, this
        self.stack.append(f)
        self.depth += 1


        try:
            self.block(f["body"])
            return None
        except Return as r:
            return r.v
        finally:
            pass
            self.depth -= 1
            self.stack.pop()
            self.env, self.env_this = saved

    def dispatch(self, q, fid, obj, args, e, ol=None):
        import models
        f = self.ir.funcs.get(fid)
        c = self.contracts.get(q)
        if c is not None:
            r = c(self, f, obj, args, e)
            if r is not NotImplemented:
                return r
        if self.text is not None:
            r = self.text.call(q, f, obj, args, e, ol)
            if r is not NotImplemented:
                return r
        m = models.MODELS.get(q)
        if m is not None:
            r = m(self, obj, args, e, ol)
            if r is not NotImplemented:
                return r
        if q and q.startswith("htool::") and f is not None and f["hasbody"]:
            if f.get("lambda"):
                if isinstance(obj, Closure):
                    return self.call_value(obj, args, e)
            if f.get("dtor"):
                return None
            if f.get("defaulted") and (f.get("copyasg") or f.get("moveasg")) and isinstance(obj, Obj):
                pass
            v = self.invoke(f, obj, args)
            if is_ref(f["ret"]) and isinstance(v, LV):
                return v
            if isinstance(v, LV):
                return self.lget(v.lv)
            return v
        r = models.generic(self, q, obj, args, e, ol)
        if r is not NotImplemented:
            return r
        # unknown external: everything reachable through non-const pointers/references is lost
        pts = e.get("pt") or []
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else ""
            if (is_ref(pt) and not is_cref(pt)) or (pt.endswith("*") and not pt.startswith("const ")):
                self.lose(a, "external " + str(q))
                if is_unk(self.lget(a)) and "stream" not in pt:
                    self.wild(self.lget(a))
            elif q and q.startswith("std::") and not pt.startswith("const ") and "<const " not in pt and "const_iterator" not in pt:
                w = self.lget(a)             # an iterator passed by value: the callee may write through it
                if isinstance(w, (Ptr, It)) or (isinstance(w, tuple) and w and w[0] == "inserter"):
                    models.forget_target(self, w, "external " + q)
        self.events.append(("extern", q, e.get("l")))
        return Unk("external " + str(q))

    def lose(self, a, why):
        v = self.lget(a)
        if isinstance(v, Ptr) and v.buf is not None:
            self.mhavoc(v.buf, why)
        elif isinstance(v, Vec):
            self.mhavoc(v.buf, why)
        elif isinstance(v, PCell):
            self.lset(v.c, Unk(why))
        elif isinstance(v, Obj) and not v.lazy:
            for k in list(v.f):
                x = v.f[k]
                if isinstance(x, (Ptr, Vec, Obj)):
                    self.lose(("t", x), why)
                else:
                    self.setfield(v, k, Unk(why))
        elif isinstance(v, Coll):
            self.setattr_(v, "parts", [("unk", why)])
        elif isinstance(a, Cell) or (isinstance(a, tuple) and a[0] in "fec"):
            self.lset(a, Unk(why))

    # -------------------------------------------------------------- statements
    def block(self, s):
        if s is None:
            return
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            raise Undecided("statement " + s["k"])
        m(s)

    def s_block(self, s):
        self.env = {"vars": {}, "up": self.env}
        try:
            for x in s["s"]:
                self.block(x)
        finally:
            self.env = self.env["up"]

    def s_expr(self, s):
        self.cur_line = s["l"]
        self.rv(s["e"])

    cur_line = 0

    def s_decls(self, s):
        for d in s["d"]:
            self.declare(d)

    def declare(self, d):
        t = d["t"]
        if d.get("init") is None:
            v = self.default_value(t, d["n"])
            self.env["vars"][d["id"]] = Cell(v)
            return
        if is_ref(t):
            l = self.lv(d["init"])
            if isinstance(l, Cell):
                self.env["vars"][d["id"]] = l
            elif l[0] == "t":
                self.env["vars"][d["id"]] = Cell(l[1])
            else:
                v = self.lget(l)
                if isinstance(v, (Obj, Vec, Coll, Smart)):
                    self.env["vars"][d["id"]] = Cell(v)
                else:
                    self.env["vars"][d["id"]] = LCell(self, l)
            return
        v = self.coerce(self.rv(d["init"]), t)
        if isinstance(v, LV):
            v = self.lget(v.lv)
        if isinstance(v, (Vec, Obj)) and hasattr(v, "label") is False:
            v.label = d["n"]
        if isinstance(v, Vec) and isinstance(v.buf, (Buffer,)):
            v.buf.label = d["n"]
        self.env["vars"][d["id"]] = Cell(v)

    def s_if(self, s):
        if s.get("init"):
            self.block(s["init"])
        if s.get("cv"):
            self.declare(s["cv"])
        c = self.rv(s["c"])
        if self.truth(c, "%s:%d" % (self.stack[-1]["n"] if self.stack else "", s["l"])):
            self.block(s["a"])
        elif s["b"] is not None:
            self.block(s["b"])

    def s_return(self, s):
        if s.get("e") is None:
            raise Return(None)
        f = self.stack[-1]
        if is_ref(f["ret"]):
            l = self.lv(s["e"])
            raise Return(LV(l))
        v = self.rv(s["e"])
        if isinstance(v, LV):
            v = self.lget(v.lv)
        raise Return(v)

    def s_break(self, s):
        raise Break()

    def s_continue(self, s):
        raise Continue()

    def s_null_stmt(self, s):
        pass

    sched = None  # schedule of a team of two threads: per thread, which worksharing loops it executes entirely
    team = None

    def s_omp(self, s):
        b = s.get("body")
        if b is None:
            return
        d = s["dir"].split()
        if self.sched is None or not ("parallel" in d or "for" in d or "single" in d or "master" in d or "masked" in d):
            return self.block(b)
        if "parallel" in d:
            if self.team is not None or "for" in d or "sections" in d:
                old, self.team = self.team, None  # one implicit team, every iteration executed once
                sc, self.sched = self.sched, None
                try:
                    return self.block(b)
                finally:
                    self.team, self.sched = old, sc
            if any(c["k"] in ("private", "firstprivate", "lastprivate", "copyprivate") for c in s.get("clauses", [])):
                raise Undecided("data-sharing clause of a parallel region")
            self.regions = getattr(self, "regions", 0) + 1
            try:
                for tid, mine in enumerate(self.sched):
                    self.team = [tid, mine, 0]
                    self.block(b)
            finally:
                self.team = None
            return
        if self.team is None:
            return self.block(b)
        tid, mine, n = self.team
        nowait = any(c["k"] == "nowait" for c in s.get("clauses", []))
        if "for" in d:
            self.team[2] += 1
            if not nowait and self.sched != ("all", "none"):
                raise Undecided("a barrier inside the region")
            if mine == "all" or (mine == "odd" and n % 2 == 0) or (mine == "even" and n % 2 == 1):
                self.block(b)
            return
        if "single" in d and not nowait and self.sched != ("all", "none"):
            raise Undecided("a barrier inside the region")
        if tid == 0:
            self.block(b)

    def s_try(self, s):
        try:
            self.block(s["body"])
        except Throw:
            for h in s.get("h", [])[:1]:
                self.block(h)

    def s_case(self, s):
        self.block(s["s"])

    s_default = s_case

    def s_switch(self, s):
        v = self.rv(s["c"])
        body = s["body"]["s"] if s["body"]["k"] == "block" else [s["body"]]
        start = None
        dflt = None
        # flatten case labels
        for i, x in enumerate(body):
            y = x
            while y is not None and y["k"] in ("case", "default"):
                if y["k"] == "case":
                    if start is None:
                        c = self.rv(y["v"])
                        if self.truth(self.equal(v, c, "l%d" % y["l"]), "switch l%d" % y["l"]):
                            start = i
                else:
                    dflt = i
                y = y["s"]
            if start is not None:
                break
        if start is None:
            start = dflt
        if start is None:
            return
        self.env = {"vars": {}, "up": self.env}
        try:
            for x in body[start:]:
                y = x
                while y is not None and y["k"] in ("case", "default"):
                    y = y["s"]
                self.block(y)
        except Break:
            pass
        finally:
            self.env = self.env["up"]

    # loops: see loops.py
    def s_for(self, s):
        import loops
        loops.do_for(self, s)

    def s_while(self, s):
        import loops
        loops.do_while(self, s)

    def s_do(self, s):
        import loops
        loops.do_do(self, s)

    def s_forrange(self, s):
        import loops
        loops.do_forrange(self, s)


class LV:
    """an lvalue returned from a call"""
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


class LCell(Cell):
    """a reference bound to an lvalue that is not a plain cell"""
    __slots__ = ("ip", "l")

    def __init__(self, ip, l):
        self.ip, self.l = ip, l
        self.birth = 0

    @property
    def v(self):
        return self.ip.lget(self.l)

    @v.setter
    def v(self, x):
        self.ip.lset(self.l, x)


class Functor:
    def __init__(self, fn):
        self.fn = fn


def self_wants(ip, e):
    return True


def F_norm(ip, p):
    return ip.F.norm(p)


