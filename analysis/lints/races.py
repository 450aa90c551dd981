"""Data races of the OpenMP regions: interprocedural effect analysis.

For every `omp parallel` region of the resolved program the memory reached from the region is classed as
  T  private to the thread (declared or allocated inside the region, private/firstprivate/reduction clause)
  I  private to one iteration of a worksharing loop (element of a shared container at the induction variable,
     and everything that element owns: value members, unique_ptr, containers, raw members its destructor deletes)
  S  shared (everything else: variables of the enclosing function, this, globals, static locals, and whatever a
     non-owning member -- raw pointer, reference, shared_ptr -- of an I object designates)
  V  shared memory at an address that depends on the iteration or on data (not decided)
Calls are followed with the classes of their arguments (virtual calls to every override).  A definite write to S
memory that is under no lock (critical, atomic, mutex) and not in single/master is a race; so is an unlocked read
of an S scalar that the region also writes, a write of one S scalar under two different locks, and a call of a
function that is not reentrant.
"""
import os
import re

LOCK_T = re.compile(r"std::(lock_guard|unique_lock|scoped_lock)<")
NONREENTRANT = {"rand", "srand", "std::rand", "std::srand", "strtok", "localtime", "gmtime", "asctime", "ctime", "drand48", "lrand48", "setlocale", "std::strtok"}
ACCESSORS = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "data", "back", "front", "at", "get", "operator[]", "operator*", "operator->", "find", "lower_bound", "upper_bound", "size", "empty", "str", "c_str", "real", "imag", "base", "equal_range", "value", "load", "count", "top"}
STREAM = re.compile(r"std::(basic_ostream|basic_istream|basic_ios|ios_base|ostream|basic_ofstream|basic_ifstream)\b")
OUT_ARG = {  # index of the first written argument of std algorithms (negative: from the end); None = all iterators
    "std::copy": 2, "std::copy_n": 2, "std::copy_if": 2, "std::copy_backward": 2, "std::move": 2, "std::fill": 0, "std::fill_n": 0, "std::iota": 0, "std::sort": 0, "std::stable_sort": 0,
    "std::generate": 0, "std::generate_n": 0, "std::reverse": 0, "std::rotate": 0, "std::swap_ranges": 0, "std::partial_sum": 2, "std::replace": 0, "std::replace_if": 0, "std::remove": 0,
    "std::remove_if": 0, "std::unique": 0, "std::random_shuffle": 0, "std::shuffle": 0, "std::partition": 0, "std::nth_element": 0, "std::merge": 4, "std::set_union": 4, "std::adjacent_difference": 2,
    "std::swap": 0, "std::iter_swap": 0, "memcpy": 0, "std::memcpy": 0, "memset": 0, "std::memset": 0, "memmove": 0, "std::uninitialized_copy": 2, "std::uninitialized_fill": 0, "std::exchange": 0,
}
U = frozenset()


class Result:
    def __init__(self):
        self.ok, self.undecided, self.violations, self.analysed, self.sites = [], [], [], set(), 0


def isptr(t):
    return t.rstrip().endswith("*") or t.rstrip().endswith("*const")


def isref(t):
    return t.rstrip().endswith("&")


def strip(t):
    t = t.strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    if t.startswith("const "):
        t = t[6:]
    return t


SCAL = {"int", "unsigned int", "long", "unsigned long", "bool", "char", "double", "float", "std::complex<double>", "std::complex<float>", "size_t", "std::size_t", "long long", "unsigned long long", "unsigned char", "short", "signed char", "long double"}


def isscalar(t):
    return strip(t) in SCAL


class Stop(Exception):
    pass


class Region:
    def __init__(self, ir, fn, node, res, own):
        self.ir, self.fn, self.node, self.res, self.own = ir, fn, node, res, own
        self.heap = {}
        self.memo = {}
        self.stack = []
        self.writes = []  # (loc, lock, where, chain, op)
        self.reads = {}
        self.unk = set()
        self.bad = []
        self.nsteps = 0
        self.ncalls = set()
        self.loops = 0
        self.barrier = False
        self.outer = set()

    # ------------------------------------------------------------- helpers
    def where(self, n, fr):
        return self.ir.loc(fr.fn, n.get("l") if isinstance(n, dict) else None)

    def content(self, v, name, elem=False):
        """what a non-owning pointer stored in the objects v designates"""
        out = set()
        for o in v:
            if o[0] == "S":
                out.add(("S", (o[1] + "->" + name)[:160]))
            elif o[0] == "I":
                out.add(("S", "(element)." + name))
            elif o[0] == "T":
                h = self.heap.get(o)
                out |= h if h else {("?",)}
            elif o[0] in ("V", "?"):
                out.add(o)
        return frozenset(out)

    def owned(self, v, name):
        out = set()
        for o in v:
            if o[0] == "S":
                out.add(("S", (o[1] + "." + name)[:160]))
            else:
                out.add(o)
        return frozenset(out)

    def store(self, objs, val):
        val = frozenset(x for x in val if x[0] in ("S", "I", "T", "V", "?", "L", "M"))
        for o in objs:
            if o[0] == "T" and val:
                self.heap[o] = self.heap.get(o, U) | val

    def write(self, v, fr, n, op="write"):
        for o in v:
            if o[0] == "S":
                if fr.guard:
                    self.unk.add("write of %s at %s under a condition on the iteration or thread number" % (o[1], self.where(n, fr)))
                    continue
                self.writes.append((o[1], fr.lock, self.where(n, fr), tuple(x[0] for x in self.stack), op, fr.solo))
            elif o[0] in ("V", "?"):
                self.unk.add("write through an address not resolved at %s" % self.where(n, fr))

    def read(self, v, fr, n):
        for o in v:
            if o[0] == "S":
                self.reads.setdefault(o[1], []).append((fr.lock, self.where(n, fr)))

    # ------------------------------------------------------------- types
    def field_kind(self, b, n):
        """'own' or 'ref' for the member expression n"""
        t = n.get("t", "")
        ft = n.get("ft", t)
        q = n.get("q", "")
        k = self.own.get(q)
        if k:
            return k
        if isptr(ft) or isref(ft) or "shared_ptr<" in ft or "reference_wrapper" in ft or "weak_ptr" in ft:
            return "ref"
        return "own"

    # ------------------------------------------------------------- expressions
    def ev(self, e, fr):
        self.nsteps += 1
        if self.nsteps > 2000000:
            raise Stop()
        if e is None:
            return U
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m:
            return m(e, fr)
        r = U
        for c in ("e", "a", "b", "c"):
            x = e.get(c)
            if isinstance(x, dict):
                r |= self.ev(x, fr)
            elif isinstance(x, list):
                for y in x:
                    r |= self.ev(y, fr)
        return r

    def e_int(self, e, fr):
        return U
    e_float = e_char = e_bool = e_str = e_null = e_zero = e_sizeof = e_int

    def e_this(self, e, fr):
        return fr.this

    def e_icast(self, e, fr):
        return self.ev(e["e"], fr)
    e_cast = e_icast

    def var(self, vid, name, t, fr, d=None, q=None):
        if vid in fr.env:
            return fr.env[vid]
        f = fr
        while f.parent is not None:
            f = f.parent
            if vid in f.env:
                return f.env[vid]
        if d in ("global", "static"):
            return frozenset({("S", "static " + (q or name))})
        if isptr(t):
            return frozenset({("S", "*" + name)})
        return frozenset({("S", name)})

    def e_ref(self, e, fr):
        d = e.get("d")
        if d in ("func",):
            return frozenset({("M", e.get("q"))})
        if d in ("enum",) or "cv" in e:
            return U
        t = e.get("t", "")
        v = self.var(e["id"], e["n"], t, fr, d, e.get("q"))
        if isscalar(t):
            self.read(v, fr, e)
            return self.scal(v)
        return v

    def scal(self, v):
        """value of a scalar read from v"""
        out = set()
        for o in v:
            if o[0] in ("I", "V", "?"):
                out.add(("dat",))
            elif o[0] == "T":
                out |= {x for x in self.heap.get(("sc",) + o, U)}
            elif o[0] in ("iv", "iv=", "dat"):
                out.add(o)
        return frozenset(out)

    def e_mem(self, e, fr):
        b = self.ev_obj(e["b"], fr)
        if e.get("d") == "static":
            v = frozenset({("S", "static " + e["q"])})
        elif self.field_kind(b, e) == "ref":
            v = self.content(b, e["n"])
        else:
            v = self.owned(b, e["n"])
        if isscalar(e.get("t", "")):
            self.read(v, fr, e)
            return self.scal(v)
        return v

    def ev_obj(self, e, fr):
        """objects denoted by e, without loading a scalar"""
        return self.lv(e, fr) if e["k"] in ("ref", "mem", "idx", "opcall", "un", "cond") and isscalar(e.get("t", "")) else self.ev(e, fr)

    # lvalue: the memory that an assignment to e changes
    def lv(self, e, fr):
        k = e["k"]
        if k == "ref":
            if e.get("d") in ("func", "enum"):
                return U
            vt = e.get("t", "")
            v = self.var(e["id"], e["n"], vt, fr, e.get("d"), e.get("q"))
            if isptr(vt):  # the variable itself
                if e["id"] in self.locals_ or self.is_local(e["id"], fr):
                    return frozenset({("T", e["id"])})
                return frozenset({("S", e["n"])})
            return v
        if k == "mem":
            b = self.ev_obj(e["b"], fr)
            if e.get("d") == "static":
                return frozenset({("S", "static " + e["q"])})
            return self.owned(b, e["n"])
        if k == "idx":
            return self.index(self.ev(e["b"], fr), e["i"], fr, raw=True)
        if k == "un" and e["op"] == "*":
            return self.ev(e["e"], fr)
        if k == "un" and e["op"] in ("++", "--"):
            return self.lv(e["e"], fr)
        if k in ("icast", "cast"):
            return self.lv(e["e"], fr)
        if k == "cond":
            self.ev(e["c"], fr)
            return self.lv(e["a"], fr) | self.lv(e["b"], fr)
        if k == "asg":
            self.ev(e, fr)
            return self.lv(e["a"], fr)
        return self.ev_ref(e, fr)

    def ev_ref(self, e, fr):
        """expression returning a reference: objects without the scalar load"""
        self.noload += 1
        try:
            return self.ev(e, fr)
        finally:
            self.noload -= 1

    noload = 0
    locals_ = frozenset()

    def is_local(self, vid, fr):
        f = fr
        while f is not None:
            if vid in f.env:
                return True
            f = f.parent
        return False

    def index(self, v, i, fr, raw=False):
        iv = self.ev(i, fr)
        out = set()
        for o in v:
            if o[0] == "S":
                if iv == frozenset({("iv=",)}):
                    out.add(("I", o[1]))
                elif iv:
                    out.add(("V", o[1]))
                else:
                    out.add(("S", o[1] + "[]") if not o[1].endswith("[]") else o)
            else:
                out.add(o)
        return frozenset(out)

    def e_idx(self, e, fr):
        v = self.index(self.ev(e["b"], fr), e["i"], fr, raw=True)
        if isscalar(e.get("t", "")):
            self.read(v, fr, e)
            return self.scal(v)
        if isptr(e.get("t", "")):
            return self.elemptr(v)
        return v

    def elemptr(self, v):
        """pointers stored as elements of v"""
        out = set()
        for o in v:
            if o[0] == "T":
                out |= self.heap.get(o, frozenset({("?",)}))
            else:
                out.add(o)
        return frozenset(out)

    def e_un(self, e, fr):
        op = e["op"]
        if op == "*":
            v = self.ev(e["e"], fr)
            if isscalar(e.get("t", "")):
                self.read(v, fr, e)
                return self.scal(v)
            return v
        if op == "&":
            return self.lv(e["e"], fr)
        if op in ("++", "--"):
            t = self.lv(e["e"], fr)
            self.write(t, fr, e, op)
            return self.ev(e["e"], fr)
        return self.ev(e["e"], fr)

    def e_bin(self, e, fr):
        a, b = self.ev(e["a"], fr), self.ev(e["b"], fr)
        t = e.get("t", "")
        if isptr(t) and e["op"] in ("+", "-"):
            p, i = (a, b) if isptr(e["a"].get("t", "")) else (b, a)
            return self.shift(p, i)
        if e["op"] == ",":
            return b
        r = a | b
        if ("iv=",) in r and not (e["op"] in ("+", "-") and r == frozenset({("iv=",)}) and False):
            r = (r - {("iv=",)}) | {("iv",)}
        return frozenset(x for x in r if x[0] in ("iv", "dat")) if not isptr(t) else r

    def shift(self, p, i):
        out = set()
        for o in p:
            if o[0] == "S" and i:
                out.add(("V", o[1]))
            else:
                out.add(o)
        return frozenset(out)

    def e_cond(self, e, fr):
        self.ev(e["c"], fr)
        return self.ev(e["a"], fr) | self.ev(e["b"], fr)

    def e_asg(self, e, fr):
        r = self.ev(e["b"], fr)
        t = e["a"].get("t", "")
        tgt = self.lv(e["a"], fr)
        self.write(tgt, fr, e, e["op"])
        if e["op"] != "=" and isscalar(t):
            self.read(tgt, fr, e)
        a = e["a"]
        if isscalar(t):
            self.setscal(tgt, r, add=e["op"] != "=" or bool(fr.depth))
        elif a["k"] == "ref" and isptr(t):
            if e["op"] == "=":
                self.setvar(a["id"], r, fr, weak=True)
            else:
                self.setvar(a["id"], self.shift(self.ev(a, fr), r), fr, weak=True)
        else:
            self.store(tgt, r)
        return r if not isscalar(t) else self.scal(tgt)

    def setscal(self, tgt, r, add=True):
        r = frozenset(x for x in r if x[0] in ("iv", "iv=", "dat"))
        if ("iv=",) in r and add:
            r = (r - {("iv=",)}) | {("iv",)}
        for o in tgt:
            if o[0] == "T":
                k = ("sc",) + o
                old = self.heap.get(k, U)
                self.heap[k] = (old | r)
                if not add and not old:
                    self.heap[k] = r

    def setvar(self, vid, val, fr, weak=False):
        f = fr
        while f is not None:
            if vid in f.env:
                f.env[vid] = (f.env[vid] | val) if weak else val
                return
            f = f.parent

    def e_new(self, e, fr):
        o = ("T", ("new", e["l"], fr.ctx))
        if e.get("init"):
            x = e["init"]
            if x["k"] == "ctor":
                self.construct(x, frozenset({o}), fr)
            else:
                self.store([o], self.ev(x, fr))
        if e.get("size"):
            self.ev(e["size"], fr)
        return frozenset({o})

    def e_delete(self, e, fr):
        v = self.ev(e["e"], fr)
        self.write(v, fr, e, "delete")
        return U

    def e_lambda(self, e, fr):
        for c in e.get("caps", []):
            if c.get("init"):
                fr.env[c["id"]] = self.ev(c["init"], fr)
        fr.lams.append(fr)
        self.lams[e["f"]] = (e, fr)
        return frozenset({("L", e["f"])})

    def e_memptr(self, e, fr):
        return frozenset({("M", e["q"])})

    def e_init(self, e, fr):
        o = ("T", ("init", e["l"], fr.ctx))
        for x in e.get("e", []) or []:
            self.store([o], self.ev(x, fr))
        return frozenset({o})

    def e_throw(self, e, fr):
        self.ev(e.get("e"), fr)
        return U

    def e_ctor(self, e, fr):
        o = frozenset({("T", ("tmp", e["l"], str(e.get("t")), fr.ctx))})
        if isscalar(e.get("t", "")):
            r = U
            for a in e["args"]:
                r |= self.ev(a, fr)
            return frozenset(x for x in r if x[0] in ("iv", "iv=", "dat"))
        self.construct(e, o, fr)
        return o

    def construct(self, e, objs, fr):
        f = self.ir.funcs.get(e["f"])
        args = [self.arg(a, i, e, fr) for i, a in enumerate(e["args"])]
        if f and f.get("hasbody") and not f.get("defaulted"):
            self.call(f, objs, args, fr, e, argn=e["args"])
        elif f and f.get("defaulted") or f:
            for i, a in enumerate(args):
                self.store(objs, self.copied(a, e["args"][i]))
            if f and f.get("hasbody"):
                self.call(f, objs, args, fr, e, argn=e["args"])
        else:  # std class
            for i, a in enumerate(args):
                self.store(objs, self.copied(a, e["args"][i]))
        if LOCK_T.search(e.get("t", "")) or LOCK_T.search(str(e.get("q", "")) + "<"):
            sh = any(o[0] == "S" for a in args for o in a)
            if sh:
                fr.lock = ("mutex",) + tuple(sorted(o[1] for a in args for o in a if o[0] == "S"))

    def copied(self, v, n):
        """pointers that a copy of the objects v holds"""
        t = n.get("t", "")
        if isptr(t):
            return v
        out = set()
        for o in v:
            if o[0] == "T":
                out |= self.heap.get(o, U)
            elif o[0] in ("L", "M"):
                out.add(o)
            elif o[0] in ("S", "I"):
                if "*" in t:
                    out.add(("V", o[1]))
                elif "iterator" in t or "reference_wrapper" in t:
                    out.add(o)
                elif "shared_ptr<" in t:
                    out.add(("S", o[1] + "->"))
                elif "unique_ptr<" in t:
                    out.add(o)
            elif o[0] in ("V", "?"):
                out.add(o)
        return frozenset(out)

    # ------------------------------------------------------------- calls
    def arg(self, a, i, e, fr):
        pt = (e.get("pt") or [])
        t = pt[i] if i < len(pt) else a.get("t", "")
        if isref(t) and isscalar(strip(t)):
            if a["k"] in ("int", "float", "char", "bool", "zero", "ctor", "bin", "icast") or (a["k"] == "call"):
                return self.ev(a, fr)
            self.read(self.lv(a, fr), fr, a) if not t.startswith("const") else None
            r = self.lv(a, fr)
            if t.startswith("const"):
                self.read(r, fr, a)
            return r
        return self.ev(a, fr)

    def overriders(self, f):
        out, todo = [], [f]
        seen = set()
        while todo:
            g = todo.pop()
            if g["id"] in seen:
                continue
            seen.add(g["id"])
            out.append(g)
            for h in self.ovr.get(g["id"], []):
                todo.append(h)
        return out

    def e_call(self, e, fr):
        if "f" not in e:
            v = self.ev(e["fe"], fr) if e.get("fe") else U
            return self.apply(v, e["args"], fr, e)
        q = e.get("q", "")
        f = self.ir.funcs.get(e["f"])
        if q in NONREENTRANT or q.split("::")[-1] in NONREENTRANT and "::" not in q.replace("std::", ""):
            self.bad.append(("call of %s, which is not reentrant" % q, self.where(e, fr)))
            return frozenset({("dat",)})
        if re.match(r"(MPI_|PMPI_)", q):
            if not fr.lock:
                self.bad.append(("call of %s inside the parallel region" % q, self.where(e, fr)))
            return U
        if q == "omp_get_thread_num":
            return frozenset({("iv",)})
        if f and f.get("hasbody"):
            args = [self.arg(a, i, e, fr) for i, a in enumerate(e["args"])]
            return self.call(f, U, args, fr, e, argn=e["args"])
        if q in ("std::move", "std::forward", "std::addressof", "std::ref", "std::cref", "std::as_const") and len(e["args"]) == 1:
            return self.lv(e["args"][0], fr) if e["args"][0]["k"] in ("ref", "mem", "idx", "un") else self.ev(e["args"][0], fr)
        if q in ("std::swap", "std::exchange", "std::iter_swap"):
            r = U
            for a in e["args"]:
                v = self.lv(a, fr)
                self.write(v, fr, e, q)
                r |= v
            for a in e["args"]:
                self.store(self.lv(a, fr), r)
            return U
        args = [self.ev(a, fr) for a in e["args"]]
        if q in ("std::get",):
            return args[0] if args else U
        pt = e.get("pt") or []
        if q in OUT_ARG:
            w = OUT_ARG[q]
            if q == "std::transform":
                pass
            if w < len(args):
                self.write(self.through(args[w], e["args"][w]), fr, e, q)
                src = U
                for j, a in enumerate(args):
                    if j != w:
                        src |= a
                if any("*" in (x.get("t") or "").replace("__normal_iterator<", "").split(",")[0][:-1] for x in e["args"][:1]):
                    self.store(args[w], src)
        elif q == "std::transform":
            w = 3 if len(args) == 5 else 2
            if w < len(args):
                self.write(self.through(args[w], e["args"][w]), fr, e, q)
        elif not q.startswith("std::"):
            for i, a in enumerate(args):
                t = pt[i] if i < len(pt) else ""
                if (isptr(t) or isref(t)) and not t.strip().startswith("const") and not t.strip().endswith("&&") and "FILE" not in t:
                    self.write(a, fr, e, q)
        # callables handed to an algorithm
        its = U
        for i, a in enumerate(args):
            if not any(o[0] in ("L", "M") for o in a):
                its |= self.through(a, e["args"][i])
        out = U
        for a in args:
            for o in a:
                if o[0] == "L":
                    out |= self.lam(o[1], None, its, fr, e)
        t = e.get("t", "")
        if isscalar(t):
            return frozenset({("dat",)}) if its else U
        if "unique_ptr" in t or "shared_ptr" in t or "make_unique" in q or "make_shared" in q:
            o = ("T", ("mk", e["l"], fr.ctx))
            c = self.made(e)
            if c is not None:
                self.call(c, frozenset({o}), args, fr, e, argn=e["args"])
                return frozenset({o})
            for a in args:
                self.store([o], a)
            return frozenset({o})
        if isptr(t) or isref(t) or "iterator" in t:
            return args[0] if args else U
        o = ("T", ("ret", e["l"], fr.ctx))
        for i, a in enumerate(args):
            self.store([o], self.copied(a, e["args"][i]))
        return frozenset({o})

    def made(self, e):
        """the constructor that make_unique/make_shared forwards to"""
        ta = e.get("targs") or []
        if not ta or "make_" not in e.get("q", ""):
            return None
        at = [strip(x.get("t", "")) for x in e["args"]]
        best = None
        for f in self.ctors.get(strip(str(ta[0])), []):
            ps = f["params"]
            if len(ps) < len(at) or any("def" not in p for p in ps[len(at):]):
                continue
            sc = 0
            for p, t in zip(ps, at):
                pt = strip(p["t"])
                if pt == t:
                    sc += 2
                elif isscalar(pt) and isscalar(t):
                    sc += 1
                elif isscalar(pt) or isscalar(t):
                    sc -= 50
            if best is None or sc > best[0]:
                best = (sc, f)
        return best[1] if best and best[0] >= 0 else None

    def through(self, v, n):
        """elements designated by an iterator or pointer value"""
        t = n.get("t", "")
        if isptr(t) or isref(t):
            return v
        if "back_insert_iterator" in t or "iterator" in t:
            out = set()
            for o in v:
                if o[0] == "T" and isinstance(o[1], tuple) and o[1][0] in ("tmp", "ret"):
                    out |= self.heap.get(o, U) or {o}
                else:
                    out.add(o)
            return frozenset(out)
        return v

    def apply(self, v, argn, fr, e):
        out = U
        done = False
        for o in v:
            if o[0] == "L":
                args = [self.ev_lam_arg(a, fr) for a in argn]
                out |= self.lam(o[1], args, U, fr, e)
                done = True
            elif o[0] == "M":
                for f in self.ir.by_q.get(o[1], []):
                    if f.get("hasbody") and len(f["params"]) == len(argn):
                        out |= self.call(f, U, [self.ev(a, fr) for a in argn], fr, e, argn=argn)
                        done = True
        if not done:
            for a in argn:
                self.ev(a, fr)
            self.unk.add("call of an unresolved callable at %s" % self.where(e, fr))
        return out

    def ev_lam_arg(self, a, fr):
        return self.lv(a, fr) if a["k"] in ("ref", "mem", "idx") else self.ev(a, fr)

    def lam(self, fid, args, its, fr, e):
        ent = self.lams.get(fid)
        if ent is None:
            return U
        le, cfr = ent
        ids = le.get("specs") or [fid]
        out = U
        for i in ids:
            f = self.ir.funcs.get(i)
            if f and f.get("hasbody"):
                a = args if args is not None else [its for _ in f["params"]]
                out |= self.call(f, cfr.this, a, fr, e, parent=cfr, caps=le.get("caps", []))
        return out

    def e_mcall(self, e, fr):
        obj = e.get("obj")
        ot = e.get("ot", "")
        o = self.ev_obj(obj, fr) if obj else fr.this
        if "f" not in e:  # pointer to member
            fe = self.ev(e["fe"], fr) if e.get("fe") else U
            out = U
            hit = False
            cands = {x[1] for x in fe if x[0] == "M"}
            if not cands:
                cands = self.memptrs
            for q in cands:
                for f in self.ir.by_q.get(q, []):
                    if f.get("hasbody") and len(f["params"]) == len(e["args"]):
                        out |= self.call(f, o, [self.ev(a, fr) for a in e["args"]], fr, e, argn=e["args"])
                        hit = True
            return out
        f = self.ir.funcs.get(e["f"])
        q, n = e.get("q", ""), e.get("n", "")
        if f is not None:
            args = [self.arg(a, i, e, fr) for i, a in enumerate(e["args"])]
            fs = [f]
            if e.get("virt") and not e.get("qual"):
                fs = self.overriders(f)
            out = U
            body = False
            for g in fs:
                if g.get("hasbody"):
                    out |= self.call(g, o, args, fr, e, argn=e["args"])
                    body = True
                if not g.get("hasbody") or g.get("pure"):
                    # an implementation of the user: const, thread safe, writes what its non-const parameters allow
                    for i, a in enumerate(args):
                        t = (e.get("pt") or [""] * 9)[i]
                        if (isptr(t) or isref(t)) and not t.strip().startswith("const"):
                            self.write(a, fr, e, q)
                    if not e.get("const") and not g.get("defaulted") and any(x[0] == "S" for x in o):
                        self.unk.add("non-const virtual %s of a shared object called at %s" % (q, self.where(e, fr)))
            if isscalar(e.get("t", "")) and not self.noload:
                return self.scal(out) | (frozenset({("dat",)}) if not body else U)
            return out
        args = [self.ev(a, fr) for a in e["args"]]
        return self.stdmethod(e, n, ot, o, args, fr, e["args"])

    def stdmethod(self, e, n, ot, o, args, fr, argn):
        ot = strip(ot.rstrip("* "))
        smart = "unique_ptr<" in ot[:24] or "shared_ptr<" in ot[:24]
        t = e.get("t", "")
        if STREAM.search(ot) or "basic_stringstream" in ot or "basic_ostringstream" in ot:
            if "stringstream" in ot or "fstream" in ot:
                self.write(o, fr, e, n)
            return o
        if "std::function<" in ot and n == "operator()":
            return self.apply(self.copied(o, {"t": ""}) | o, argn, fr, e)
        if "std::atomic" in ot:
            return U
        if smart and n in ("get", "operator*", "operator->", "operator bool"):
            if n == "operator bool":
                return self.scal(o)
            return self.derefsmart(o, ot)
        if n in ("at", "operator[]") and args:
            v = self.index(o, argn[0], fr)
            if "map<" in ot and n == "operator[]" and not e.get("const"):
                self.write(o, fr, e, n)
            if isscalar(t):
                if self.noload:
                    return v
                self.read(v, fr, e)
                return self.scal(v)
            if isptr(strip(t)) or "unique_ptr<" in strip(t)[:20]:
                return self.elemptr(v) if isptr(strip(t)) else v
            return v
        const = e.get("const")
        if n in ACCESSORS or const:
            if isscalar(t) and not isref(t) and n not in ("back", "front"):
                self.read(o, fr, e)
                return frozenset({("dat",)}) if any(x[0] in ("I", "V", "?") for x in o) else U
            if isscalar(t):
                if self.noload:
                    return o
                self.read(o, fr, e)
                return self.scal(o)
            if isptr(strip(t)) and n in ("back", "front", "top"):
                return self.content(o, n) if not any(x[0] == "T" for x in o) else self.elemptr(o)
            return o
        self.write(o, fr, e, n)
        for i, a in enumerate(args):
            self.store(o, a | self.copied(a, argn[i]))
        return o

    def derefsmart(self, o, ot):
        out = set()
        for x in o:
            if x[0] == "T":
                out |= self.heap.get(x, U) or {x}
            elif "shared_ptr<" in ot[:24]:
                out.add(("S", x[1]) if x[0] == "S" else (("S", "(element) shared_ptr") if x[0] == "I" else x))
            else:
                out.add(x)
        return frozenset(out)

    def e_opcall(self, e, fr):
        op = e.get("op")
        args = e["args"]
        f = self.ir.funcs.get(e.get("f"))
        if f and f.get("hasbody") and not f.get("defaulted"):
            if f.get("lambda"):
                v = self.ev(args[0], fr)
                return self.apply(v, args[1:], fr, e) if any(o[0] == "L" for o in v) else self.call(f, U, [self.ev(a, fr) for a in args[1:]], fr, e)
            sh = dict(e)
            if e.get("meth"):
                o = self.ev_obj(args[0], fr)
                sh["args"] = args[1:]
                av = [self.arg(a, i, sh, fr) for i, a in enumerate(args[1:])]
                r = self.call(f, o, av, fr, e, argn=args[1:])
            else:
                av = [self.arg(a, i, sh, fr) for i, a in enumerate(args)]
                r = self.call(f, U, av, fr, e, argn=args)
            if isscalar(e.get("t", "")) and not self.noload:
                self.read(r, fr, e)
                return self.scal(r)
            return r
        t0 = strip(args[0].get("t", "")) if args else ""
        if op == "()":
            v = self.ev(args[0], fr)
            h = U
            for o in v:
                if o[0] == "T":
                    h |= self.heap.get(o, U)
            return self.apply(v | h, args[1:], fr, e)
        if op == "[]":
            return self.stdmethod(dict(e, n="operator[]", const=e.get("const")), "operator[]", t0, self.ev_obj(args[0], fr), [U], fr, args[1:])
        if op in ("*", "->") and len(args) == 1:
            v = self.ev(args[0], fr)
            t = e.get("t", "")
            if "_ptr<" in t0[:24]:
                v = self.derefsmart(v, t0)
            elif "iterator" in t0:
                v = self.iterderef(v, fr)
                if isptr(strip(t)):
                    v = self.elemptr(v)
            if isscalar(t):
                if self.noload:
                    return v
                self.read(v, fr, e)
                return self.scal(v)
            return v
        if op in ("=", "+=", "-=", "*=", "/=", "++", "--", "<<=", "|=", "&=", "^=", "%="):
            tgt = self.lv(args[0], fr)
            if "std::atomic" in t0:
                return U
            r = U
            for a in args[1:]:
                r |= self.ev(a, fr)
            if isscalar(t0):
                self.write(tgt, fr, e, op)
                if op != "=":
                    self.read(tgt, fr, e)
                self.setscal(tgt, r)
                return self.scal(tgt)
            if "iterator" in t0 and args[0]["k"] == "ref" and self.is_local(args[0]["id"], fr):
                return tgt
            self.write(tgt, fr, e, op)
            if len(args) > 1:
                self.store(tgt, self.copied(r, args[1]) | frozenset(x for x in r if x[0] in ("L", "M")))
                if "_ptr<" in t0[:24]:
                    self.store(tgt, r)
            return tgt
        if op == "<<" or op == ">>":
            v = self.ev(args[0], fr)
            for a in args[1:]:
                x = self.lv(a, fr) if op == ">>" and a["k"] in ("ref", "mem", "idx") else self.ev(a, fr)
                if op == ">>" and "stream" in t0:
                    self.write(x, fr, e, op)
            return v
        r = U
        for a in args:
            r |= self.ev(a, fr)
        if "iterator" in t0 and op in ("+", "-") and "iterator" in strip(e.get("t", "")):
            return self.shift(frozenset(x for x in r if x[0] in ("S", "I", "T", "V", "?")), frozenset(x for x in r if x[0] in ("iv", "iv=", "dat")))
        if isscalar(e.get("t", "")):
            return frozenset(x if x[0] != "iv=" else ("iv",) for x in r if x[0] in ("iv", "iv=", "dat"))
        return r

    def iterderef(self, v, fr):
        return frozenset(("I", o[1]) if o[0] == "IT" else o for o in v)

    # ------------------------------------------------------------- functions
    class Frame:
        def __init__(self, fn, this, parent=None):
            self.fn, self.this, self.parent = fn, this, parent
            self.env, self.ret, self.lock, self.solo, self.guard, self.depth = {}, U, None, False, False, 0
            self.ctx = 0
            self.lams = []
            self.rets = []

    def call(self, f, this, args, fr, e, argn=None, parent=None, caps=None):
        self.ncalls.add(f["id"])
        key = (f["id"], this, tuple(args), fr.lock, fr.solo, fr.guard, id(parent) if parent else 0)
        if key in self.memo:
            return self.memo[key]
        if sum(1 for x in self.stack if x[1] == f["id"]) > 1:
            return U  # a deeper level of a recursion: same classes of memory as the level above
        self.memo[key] = U
        nf = Region.Frame(f, this, parent)
        nf.lock, nf.solo, nf.guard = fr.lock, fr.solo, fr.guard
        nf.ctx = hash(key)
        if caps:
            for c in caps:
                if c.get("init") is not None and c["id"] in parent.env:
                    nf.env[c["id"]] = parent.env[c["id"]]
        for i, p in enumerate(f["params"]):
            a = args[i] if i < len(args) else U
            t = p["t"]
            if isptr(t) or isref(t) or "iterator" in t:
                if isref(t) and isscalar(strip(t)) and all(x[0] in ("iv", "iv=", "dat") for x in a):
                    o = ("T", (p["id"], nf.ctx))
                    self.heap[("sc",) + o] = a
                    nf.env[p["id"]] = frozenset({o})
                else:
                    nf.env[p["id"]] = a
            elif isscalar(t):
                o = ("T", (p["id"], nf.ctx))
                self.heap[("sc",) + o] = self.scal(a) if any(x[0] in ("S", "I", "T", "V", "?") for x in a) else a
                nf.env[p["id"]] = frozenset({o})
            else:
                o = ("T", (p["id"], nf.ctx))
                src = argn[i] if argn and i < len(argn) else {"t": t}
                self.store([o], self.copied(a, dict(src, t=src.get("t", t))) | frozenset(x for x in a if x[0] in ("L", "M")))
                nf.env[p["id"]] = frozenset({o}) | frozenset(x for x in a if x[0] in ("L", "M"))
        self.stack.append((f["q"], f["id"]))
        try:
            for i in f.get("inits", []) or []:
                if i.get("e") is None:
                    continue
                if i["e"]["k"] == "ctor":
                    if i.get("field"):
                        self.construct(i["e"], frozenset({("T", ("fld", nf.ctx, i["field"]))}), nf)
                        self.store(this, self.heap.get(("T", ("fld", nf.ctx, i["field"])), U))
                    else:
                        self.construct(i["e"], this, nf)
                else:
                    v = self.ev(i["e"], nf)
                    self.store(this, v)
            if f.get("body"):
                self.block(f["body"], nf)
        finally:
            self.stack.pop()
        self.memo[key] = nf.ret
        return nf.ret

    # ------------------------------------------------------------- statements
    def block(self, s, fr):
        if s is None:
            return
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m:
            return m(s, fr)
        for c in ("s", "body"):
            x = s.get(c)
            if isinstance(x, dict):
                self.block(x, fr)
            elif isinstance(x, list):
                for y in x:
                    self.block(y, fr)
        for h in s.get("h", []) or []:
            self.block(h, fr)

    def s_block(self, s, fr):
        lock = fr.lock
        for x in s["s"]:
            self.block(x, fr)
        fr.lock = lock

    def s_expr(self, s, fr):
        self.ev(s["e"], fr)

    def s_return(self, s, fr):
        if s.get("e"):
            t = s["e"].get("t", "")
            if isscalar(t) and s["e"]["k"] in ("ref", "mem", "idx", "un", "opcall", "mcall", "cond"):
                self.noload += 1
                v = self.lv(s["e"], fr) if s["e"]["k"] in ("ref", "mem", "idx", "un") and s["e"].get("op") in (None, "*") else self.ev(s["e"], fr)
                self.noload -= 1
                self.read(v, fr, s)
            else:
                v = self.ev(s["e"], fr)
            fr.ret = fr.ret | v

    def s_decls(self, s, fr):
        for d in s["d"]:
            self.decl(d, fr)

    def decl(self, d, fr, val=None):
        t = d.get("t", "")
        if d.get("static"):
            fr.env[d["id"]] = frozenset({("S", "static " + fr.fn["q"] + "::" + d["n"])})
            return
        init = d.get("init")
        o = ("T", (d["id"], fr.ctx))
        if isref(t):
            fr.env[d["id"]] = val if val is not None else (self.lv(init, fr) if init and init["k"] in ("ref", "mem", "idx", "un") else self.ev_ref(init, fr) if init else U)
            return
        if isptr(t) or "iterator" in t:
            fr.env[d["id"]] = val if val is not None else self.ev(init, fr)
            return
        if isscalar(t):
            fr.env[d["id"]] = frozenset({o})
            v = val if val is not None else self.ev(init, fr)
            v = self.scal(v) if any(x[0] in ("S", "I", "T", "V", "?") for x in v) else v
            k = ("sc",) + o
            self.heap[k] = self.heap.get(k, U) | v if fr.depth else v
            return
        fr.env[d["id"]] = frozenset({o})
        if val is not None:
            self.store([o], self.copied(val, {"t": t}))
        elif init is not None:
            if init["k"] == "ctor":
                self.construct(init, frozenset({o}), fr)
            else:
                v = self.ev(init, fr)
                f = frozenset(x for x in v if x[0] in ("L", "M"))
                self.store([o], self.copied(v, init) | f)
                if f:
                    fr.env[d["id"]] |= f

    def cond_guard(self, c, fr):
        v = self.ev(c, fr)
        return any(x[0] in ("iv", "iv=") for x in v)

    def s_if(self, s, fr):
        if s.get("init"):
            self.block(s["init"], fr)
        if s.get("cv"):
            self.decl(s["cv"], fr)
        g = fr.guard
        if self.cond_guard(s["c"], fr):
            fr.guard = True
        self.block(s.get("a"), fr)
        self.block(s.get("b"), fr)
        fr.guard = g

    def loop(self, s, fr, n=2):
        fr.depth += 1
        for _ in range(n):
            if s.get("c"):
                self.ev(s["c"], fr)
            self.block(s.get("body"), fr)
            if s.get("inc"):
                self.ev(s["inc"], fr)
        fr.depth -= 1

    def s_for(self, s, fr):
        self.block(s.get("init"), fr)
        self.loop(s, fr)

    def s_while(self, s, fr):
        if s.get("cv"):
            self.decl(s["cv"], fr)
        self.loop(s, fr)
    s_do = s_while

    def s_forrange(self, s, fr):
        v = self.ev_ref(s["range"], fr)
        t = s["var"].get("t", "")
        out = set()
        for o in v:
            out.add(("S", o[1] + "[]") if o[0] == "S" else o)
        v = frozenset(out)
        if isptr(t):
            v = self.elemptr(v)
        fr.depth += 1
        for _ in range(2):
            self.decl(s["var"], fr, val=v)
            self.block(s["body"], fr)
        fr.depth -= 1

    def s_switch(self, s, fr):
        self.ev(s["c"], fr)
        self.block(s.get("body"), fr)

    def s_omp(self, s, fr):
        d = s["dir"]
        cl = {}
        for c in s.get("clauses", []):
            cl.setdefault(c["k"], []).extend(c.get("v", []))
        for k in ("private", "firstprivate", "lastprivate", "reduction", "linear"):
            for v in cl.get(k, []):
                if v and v["k"] == "ref":
                    o = ("T", (v["id"], "clause"))
                    self.store([o], frozenset({("?",)}) if k == "firstprivate" and isptr(v.get("t", "")) else U)
                    fr.env[v["id"]] = frozenset({o})
        if "critical" in d:
            old = fr.lock
            fr.lock = ("critical", s.get("name") or "")
            self.block(s["body"], fr)
            fr.lock = old
            return
        if d == "atomic":
            old = fr.lock
            fr.lock = ("atomic",)
            self.block(s["body"], fr)
            fr.lock = old
            return
        if d in ("single", "master", "masked"):
            old = fr.solo
            fr.solo = True
            self.block(s["body"], fr)
            fr.solo = old
            if d == "single" and "nowait" not in cl:
                self.barrier = True
            return
        if d == "barrier":
            self.barrier = True
            return
        if "for" in d.split():
            self.loops += 1
            if "nowait" not in cl and d != "parallel for":
                self.barrier = True
            self.wsloop(s["body"], fr)
            return
        if d in ("simd", "parallel"):
            self.block(s.get("body"), fr)
            return
        if d in ("sections", "parallel sections", "section", "task", "taskwait", "taskloop", "taskgroup", "ordered", "flush"):
            self.unk.add("omp %s at %s is not analysed" % (d, self.where(s, fr)))
            return
        self.unk.add("omp %s at %s is not analysed" % (d, self.where(s, fr)))

    def wsloop(self, s, fr):
        while s["k"] == "block" and len(s["s"]) == 1:
            s = s["s"][0]
        if s["k"] == "forrange":
            v = self.ev_ref(s["range"], fr)
            v = frozenset(("I", o[1]) if o[0] == "S" else o for o in v)
            fr.depth += 1
            for _ in range(2):
                self.decl(s["var"], fr, val=v)
                self.block(s["body"], fr)
            fr.depth -= 1
            return
        if s["k"] != "for":
            self.unk.add("worksharing loop not recognised at %s" % self.where(s, fr))
            return
        ivd = None
        i = s.get("init")
        if i and i["k"] == "decls" and i["d"]:
            ivd = (i["d"][0]["id"], i["d"][0]["t"], i["d"][0].get("init"))
        elif i and i["k"] == "expr" and i["e"]["k"] == "asg" and i["e"]["a"]["k"] == "ref":
            ivd = (i["e"]["a"]["id"], i["e"]["a"].get("t", ""), i["e"]["b"])
        if ivd is None:
            self.unk.add("induction variable not recognised at %s" % self.where(s, fr))
            return
        if isscalar(ivd[1]):
            o = ("T", (ivd[0], "iv"))
            fr.env[ivd[0]] = frozenset({o})
            self.heap[("sc",) + o] = frozenset({("iv=",)})
        else:
            v = self.ev(ivd[2], fr)
            fr.env[ivd[0]] = frozenset(("IT", o[1]) if o[0] == "S" else o for o in v)
        fr.depth += 1
        for _ in range(2):
            if isscalar(ivd[1]):
                self.heap[("sc",) + o] = frozenset({("iv=",)})
            self.block(s.get("body"), fr)
        fr.depth -= 1

    # ------------------------------------------------------------- verdict
    def run(self):
        fr = Region.Frame(self.fn, frozenset({("S", "this")}))
        if "for" in self.node["dir"].split():
            self.s_omp(self.node, fr)
        else:
            for c in self.node.get("clauses", []):
                if c["k"] in ("private", "firstprivate", "reduction"):
                    for v in c.get("v", []):
                        if v and v["k"] == "ref":
                            fr.env[v["id"]] = frozenset({("T", (v["id"], "clause"))})
            self.block(self.node.get("body"), fr)
        lab = "%s %s" % (self.fn["q"], "<complex>" if "complex" in str(self.fn.get("targs")) + str(self.fn.get("clst")) else "<real>")
        seen = set()
        bylock = {}
        nlocked = 0
        for p, lock, wh, chain, op, solo in self.writes:
            if lock is None and not solo:
                if (p, wh) in seen:
                    continue
                seen.add((p, wh))
                self.res.violations.append(("%s: unsynchronised write of shared %s (%s)" % (lab, p, op), wh, "inside the parallel region of %s every thread executes this %s of %s without a lock%s" % (self.fn["q"], op, p, "" if not chain else "; called through " + " -> ".join(chain))))
            elif lock is not None:
                nlocked += 1
                bylock.setdefault(p, {}).setdefault(lock, wh)
        for p, d in bylock.items():
            if len(d) > 1:
                w = list(d.values())
                self.res.violations.append(("%s: %s is written under different locks" % (lab, p), w[0], "locks %s" % ", ".join(map(str, d))))
            for lock, wh in self.reads.get(p, []):
                if lock is None:
                    m = ("%s: unsynchronised read of %s, which the region writes under a lock" % (lab, p), wh, "locked write at %s" % list(d.values())[0])
                    if self.barrier:
                        self.unk.add(m[0])
                    elif m[:2] not in seen:
                        seen.add(m[:2])
                        self.res.violations.append(m)
        for p, lock, wh, chain, op, solo in self.writes:
            if solo and not self.barrier:
                for l2, w2 in self.reads.get(p, []):
                    if w2 != wh and l2 is None:
                        self.unk.add("%s written by one thread and read at %s" % (p, w2))
        for w, wh in self.bad:
            self.res.violations.append(("%s: %s" % (lab, w), wh, "reached from the parallel region of %s" % self.fn["q"]))
        return lab, nlocked


def ownership(ir):
    """raw pointer members that the destructor of their class deletes, itself or in functions it calls, own what they designate"""
    from ir import walk
    own = {}
    work = [f for f in ir.funcs.values() if f.get("dtor") and f.get("body")]
    seen = set(f["id"] for f in work)
    while work:
        f = work.pop()
        aliases = {}                       # local -> fields its initialiser or assignments name
        deleted = []

        def fields(e):
            out = set()

            def vis(n):
                if n.get("k") == "mem" or (n.get("k") == "ref" and n.get("d") == "field"):
                    if isptr(n.get("ft", n.get("t", ""))):
                        out.add(n["q"])
                elif n.get("k") == "ref" and n.get("n"):
                    out.update(aliases.get(n["n"], ()))
            walk(e, vis)
            return out

        def vis(n):
            k = n.get("k")
            if k == "decl" and n.get("n") and isptr(n.get("t", "")) and n.get("init"):
                aliases[n["n"]] = fields(n["init"])
            elif k == "delete":
                deleted.append(n["e"])
            elif k in ("call", "mcall", "opcall", "ctor") and n.get("f") in ir.funcs and n["f"] not in seen:
                g = ir.funcs[n["f"]]
                if g.get("body"):
                    seen.add(n["f"])
                    work.append(g)
        walk(f["body"], vis)
        for e in deleted:
            for q in fields(e):
                own[q] = "own"
    return own


def fieldtypes(ir):
    ft = {}
    for r in ir.recs.values():
        for x in r.get("fields", []):
            ft[x["id"]] = x["t"]
    return ft


def run(ir, pid, repo):
    from ir import walk
    res = Result()
    own = ownership(ir)
    ft = fieldtypes(ir)
    ovr = {}
    for f in ir.funcs.values():
        for b in f.get("overrides", []) or []:
            ovr.setdefault(b, []).append(f)
    memptrs = set()
    ctors = {}
    for f in ir.funcs.values():
        if f.get("ctor") and f.get("hasbody"):
            ctors.setdefault(f.get("clst"), []).append(f)
    regs = []
    for f in ir.funcs.values():
        if not f.get("body"):
            continue

        def vis(n, f=f):
            if n.get("k") == "memptr":
                memptrs.add(n["q"])
            elif n.get("k") == "mem" and n.get("d") == "field" and n["id"] in ft:
                n["ft"] = ft[n["id"]]
            elif n.get("k") == "omp" and n["dir"].startswith("parallel"):
                regs.append((f, n))
        walk(f["body"], vis)
        for i in f.get("inits", []) or []:
            if i.get("e"):
                walk(i["e"], vis)
    done = 0
    for f, n in regs:
        R = Region(ir, f, n, res, own)
        R.ctors = ctors
        R.ovr, R.lams, R.memptrs = ovr, {}, {q for q in memptrs if "get_" in q}
        mp = set()
        walk(f["body"], lambda x: mp.add(x["q"]) if x.get("k") == "memptr" else None)
        if mp:
            R.memptrs = mp
        try:
            lab, nl = R.run()
        except Stop:
            res.undecided.append("region of %s: too many steps" % f["q"])
            continue
        res.sites += 1
        res.analysed |= R.ncalls | {f["id"]}
        for u in sorted(R.unk):
            res.undecided.append("%s: %s" % (lab, u))
        res.ok.append("%s parallel region at %s: %d functions reached, %d worksharing loops, %d locked writes" % (lab, ir.loc(f, n["l"]), len(R.ncalls), R.loops, nl))
        done += 1
    return res


if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
    from ir import IR
    r = run(IR(sys.argv[1]), "C12", sys.argv[2] if len(sys.argv) > 2 else "/repo")
    for o in r.ok:
        print("OK  ", o)
    for o in r.undecided:
        print("UND ", o)
    for o in r.violations:
        print("VIOL", o)
