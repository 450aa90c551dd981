"""A domain of strings, streams and files for checking that what is written is what is read back.

A string is a sequence of characters and of printed numbers; a printed number is one opaque element which no separator
can match, so positions are positions in this sequence.  A file is the sequence its writer produced."""
from poly import P, Poly, ZERO
from interp import *
import models

NPOS = 2 ** 64 - 1


class TStr(StrV):
    __slots__ = ("t",)

    def __init__(self, t):
        self.s, self.t = None, tuple(t)


class Num:
    """a printed number"""

    def __init__(self, v, lossy, real=False):
        self.v, self.lossy, self.real = v, lossy, real


class Raw:
    """bytes of a value or of an array"""

    def __init__(self, size, v):
        self.size, self.v = size, v


class Text:
    def __init__(self, ip, esz):
        self.ip, self.esz = ip, esz
        self.files = {}
        self.problems = []
        self.misread = []
        for q in ("std::basic_string", "std::basic_ofstream", "std::basic_ifstream", "std::basic_ostringstream", "std::basic_istringstream", "std::basic_stringstream"):
            ip.hooks[q] = self.ctor
        ip.text = self

    def get(self, a):
        if isinstance(a, LV):
            a = a.lv
        return self.ip.lget(a) if isinstance(a, (Cell, tuple)) else a

    def tok(self, v):
        v = self.get(v)
        if isinstance(v, TStr):
            return v.t
        if isinstance(v, StrV) and v.s is not None:
            return tuple(v.s)
        if isinstance(v, str) and len(v) == 1:
            return (v,)
        return None

    def name(self, t):
        return "".join(x if isinstance(x, str) else "?" for x in t)

    # ------------------------------------------------------------------ construction
    def ctor(self, ip, e):
        args = [self.get(ip.lv(x)) for x in e["args"]]
        k = e["q"][len("std::basic_"):]
        if k == "string":
            if not args:
                return TStr(())
            t = self.tok(args[0])
            if t is not None and (len(args) == 1 or "allocator" in str(e["pt"][-1])):
                return TStr(t)
            if len(args) >= 2 and isinstance(args[0], Poly) and args[0].is_const() and isinstance(args[1], str):
                return TStr(args[1] * int(args[0].const_value()))
            return StrV()
        o = Obj(e["t"], k)
        t = self.tok(args[0]) if args else ()
        o.tag["kind"] = k
        o.f.update(tok=(), pos=0, ok=True, prec=6)
        if k == "ofstream":
            if t is not None:
                old = dict(self.files)
                ip.journal.append(lambda: setattr(self, "files", old))
                self.files = dict(old)
                self.files[self.name(t)] = o
        elif k == "ifstream":
            src = self.files.get(self.name(t)) if t is not None else None
            o.f["ok"] = src is not None
            o.f["tok"] = src.f["tok"] if src is not None else () if t is not None else None
        else:
            o.f["tok"] = tuple(t) if t is not None else None
        return o

    def stream(self, v):
        v = self.get(v)
        return v if isinstance(v, Obj) and "kind" in v.tag else None

    def num(self, v, pt, prec=6):
        floating = "double" in pt or "float" in pt
        if isinstance(v, bool):
            v = P(int(v))
        return Num(v, floating and prec < 17, floating)

    # ------------------------------------------------------------------ calls
    def call(self, q, f, obj, args, e, ol):
        ip = self.ip
        if not q or not q.startswith("std::"):
            return NotImplemented
        n = q.split("::")[-1]
        pts = e.get("pt") or []
        if n == "operator<<":
            s = self.stream(obj if obj is not None else args[0])
            rest = args if obj is not None else args[1:]
            if s is None or not rest:
                return NotImplemented
            self.put(s, rest[0], pts[-1] if pts else "")
            return LV(ol) if obj is not None else LV(args[0].lv if isinstance(args[0], LV) else args[0])
        if n == "operator>>":
            s = self.stream(obj if obj is not None else args[0])
            if s is None:
                return NotImplemented
            self.take(s, args[-1], pts[-1] if pts else "")
            return LV(ol) if obj is not None else LV(args[0])
        if n in ("operator bool", "operator!") and self.stream(obj) is not None:
            ok = self.stream(obj).f["ok"]
            return ok if n == "operator bool" else not ok
        if n in ("good", "is_open", "fail", "eof") and self.stream(obj) is not None:
            s = self.stream(obj)
            return {"good": s.f["ok"], "is_open": s.f["ok"], "fail": not s.f["ok"], "eof": s.f["pos"] >= len(s.f["tok"] or [])}[n]
        if n in ("close", "flush") and self.stream(obj) is not None:
            return None
        if n == "precision" and self.stream(obj) is not None:
            s = self.stream(obj)
            v = self.get(args[0]) if args else None
            if isinstance(v, Poly) and v.is_const():
                self.ip.setfield(s, "prec", int(v.const_value()))
            return P(6)
        if n == "setprecision":
            v = self.get(args[0])
            return ("prec", int(v.const_value())) if isinstance(v, Poly) and v.is_const() else Unk("precision")
        if n == "str" and self.stream(obj) is not None and not args:
            t = self.stream(obj).f["tok"]
            return TStr(t) if t is not None else StrV()
        if n == "write" and self.stream(obj) is not None:
            return self.write(self.stream(obj), args, ol)
        if n == "read" and self.stream(obj) is not None:
            return self.read(self.stream(obj), args, ol)
        if n == "getline":
            return self.getline(args, e)
        if n in ("stoi", "stol", "stoul", "stoll", "stoull", "stod", "stof"):
            t = self.tok(args[0])
            return self.parse(t, n)
        if n == "to_string":
            return TStr((self.num(self.get(args[0]), pts[0] if pts else ""),))
        if n == "operator+" and len(args) == 2 and "basic_string" in str(pts):
            a, b = self.tok(args[0]), self.tok(args[1])
            return TStr(a + b) if a is not None and b is not None else StrV()
        if n in ("operator==", "operator!=") and len(args) == 2 and "basic_string" in str(pts):
            a, b = self.tok(args[0]), self.tok(args[1])
            if a is None or b is None or any(isinstance(x, Num) for x in a + b):
                return Unk("comparison of strings")
            return (a == b) == (n == "operator==")
        if n == "accumulate" and len(args) == 4 and self.tok(args[2]) is not None:
            a, b, fv = self.get(args[0]), self.get(args[1]), self.get(args[3])
            if not (isinstance(a, It) and isinstance(b, It) and a.c is b.c):
                return StrV()
            k = ip.F.norm(b.i - a.i)
            if not k.is_const():
                return StrV()
            acc = TStr(self.tok(args[2]))
            for i in range(int(k.const_value())):
                acc = self.get(ip.call_value(fv, [Cell(acc), Cell(ip.lget(ip.index_lv(a.c, a.i + P(i))))], e))
            return acc
        if q.startswith("std::basic_string::"):
            return self.string(n, obj, args, e, ol)
        return NotImplemented

    def put(self, s, a, pt):
        v = self.get(a)
        t = self.tok(v)
        if s.f["tok"] is None:
            return
        if isinstance(v, tuple) and v and v[0] == "prec":
            self.ip.setfield(s, "prec", v[1])
        elif t is not None:
            self.ip.setfield(s, "tok", s.f["tok"] + t)
        elif isinstance(v, (Poly, bool, MatVal)):
            self.ip.setfield(s, "tok", s.f["tok"] + (self.num(v, pt, s.f["prec"]),))
        elif "ios_base" in pt:
            raise Undecided("format of a stream")
        elif isinstance(v, Sym) or "(*)" in pt:
            self.ip.setfield(s, "tok", s.f["tok"] + ("\n",))       # std::endl
        elif isinstance(v, Cond):
            self.ip.setfield(s, "tok", s.f["tok"] + (Num(v, False),))
        else:
            raise Undecided("written: %r" % (v,))

    def take(self, s, l, pt):
        ip = self.ip
        t, p = s.f["tok"], s.f["pos"]
        if t is None:
            raise Undecided("read from an unknown string")
        while p < len(t) and t[p] in (" ", "\n", "\t"):
            p += 1
        if p >= len(t):
            self.ip.setfield(s, "ok", False)
            return
        if "basic_string" in pt:
            q = p
            while q < len(t) and t[q] not in (" ", "\n", "\t"):
                q += 1
            ip.lset(l, TStr(t[p:q]))
            self.ip.setfield(s, "pos", q)
            return
        if "char" in pt:
            if isinstance(t[p], Num):
                raise Undecided("character of a number")
            ip.lset(l, t[p])
            self.ip.setfield(s, "pos", p + 1)
            return
        if isinstance(t[p], Num):
            v = self.value(t, p, "double" in pt or "float" in pt)
            self.ip.setfield(s, "pos", p + 1)
        else:
            q = p
            while q < len(t) and isinstance(t[q], str) and (t[q].isdigit() or q == p and t[q] in "+-"):
                q += 1
            if q == p:
                self.ip.setfield(s, "ok", False)
                return
            v = P(int("".join(t[p:q])))
            self.ip.setfield(s, "pos", q)
        if "bool" in pt:
            v = ip.truth(ip.binop("!=", v, ZERO, {"l": 0})) if isinstance(v, Poly) else v
        ip.lset(l, v)

    def value(self, t, i, floating):
        """the number read at position i"""
        if i + 1 < len(t) and (isinstance(t[i + 1], Num) or isinstance(t[i + 1], str) and (t[i + 1].isdigit() or t[i + 1] in ".eE")):
            self.problems.append("two values follow each other without a separator")
            raise Throw("unreadable")
        v = t[i].v
        if t[i].real and not floating and isinstance(v, (Poly, MatVal)):
            self.misread.append("a real number (%s) is read as an integer" % (v,))
            return Poly.atom("int(%s)" % (v,))
        return v

    def parse(self, t, n):
        if t is None:
            return Unk(n)
        i = 0
        while i < len(t) and t[i] == " ":
            i += 1
        if i < len(t) and isinstance(t[i], Num):
            return self.value(t, i, n in ("stod", "stof"))
        j = i
        while j < len(t) and isinstance(t[j], str) and (t[j].isdigit() or j == i and t[j] in "+-"):
            j += 1
        try:
            return P(int("".join(t[i:j])))
        except ValueError:
            self.problems.append("a number is expected where the file holds '%s'" % self.name(t)[:40])
            raise Throw("invalid_argument")

    def getline(self, args, e):
        ip = self.ip
        s = self.stream(args[0])
        if s is None or s.f["tok"] is None:
            raise Undecided("getline")
        d = self.tok(args[2])[0] if len(args) > 2 else "\n"
        t, p = s.f["tok"], s.f["pos"]
        if p >= len(t):
            self.ip.setfield(s, "ok", False)
            return LV(args[0])
        q = p
        while q < len(t) and t[q] != d:
            q += 1
        ip.lset(args[1], TStr(t[p:q]))
        self.ip.setfield(s, "pos", q + 1)
        return LV(args[0])

    def count(self, a):
        v = self.get(a)
        if isinstance(v, Poly) and v.is_const():
            return int(v.const_value())
        raise Undecided("position in a string")

    def string(self, n, obj, args, e, ol):
        ip = self.ip
        t = self.tok(obj)
        if n == "operator=":
            r = self.tok(args[0])
            ip.lset(ol, TStr(r) if r is not None else StrV())
            return LV(ol)
        if t is None:
            return NotImplemented
        if n in ("size", "length"):
            return P(len(t))
        if n == "empty":
            return not t
        if n in ("c_str", "data"):
            return TStr(t)
        if n in ("operator+=", "append", "push_back"):
            r = self.tok(args[0])
            ip.lset(ol, TStr(t + r) if r is not None else StrV())
            return LV(ol)
        if n == "clear":
            ip.lset(ol, TStr(()))
            return None
        if n in ("find", "rfind", "find_first_of"):
            d = self.tok(args[0])
            if d is None or any(not isinstance(x, str) for x in d):
                raise Undecided("search")
            p0 = self.count(args[1]) if len(args) > 1 else (0 if n != "rfind" else len(t))
            if n == "find_first_of":
                r = [i for i in range(p0, len(t)) if t[i] in d]
            else:
                r = [i for i in range(len(t) - len(d) + 1) if t[i:i + len(d)] == d and (i >= p0 if n == "find" else i <= p0)]
            return P((r[-1] if n == "rfind" else r[0]) if r else NPOS)
        if n == "substr":
            a = self.count(args[0]) if args else 0
            b = self.count(args[1]) if len(args) > 1 else NPOS
            if a > len(t):
                raise Throw("out_of_range")
            return TStr(t[a:a + b])
        if n == "erase":
            a = self.count(args[0]) if args else 0
            b = self.count(args[1]) if len(args) > 1 else NPOS
            if a > len(t):
                raise Throw("out_of_range")
            ip.lset(ol, TStr(t[:a] + t[a + b:]))
            return LV(ol)
        if n in ("back", "front", "operator[]", "at"):
            i = {"back": len(t) - 1, "front": 0}.get(n)
            i = self.count(args[0]) if i is None else i
            if not 0 <= i < len(t) or not isinstance(t[i], str):
                raise Undecided("character")
            return t[i]
        if n == "compare" and len(args) == 1:
            r = self.tok(args[0])
            if r is None or any(isinstance(x, Num) for x in r + t):
                raise Undecided("comparison")
            return P(0 if r == t else 1)
        raise Undecided("string::" + n)

    # ------------------------------------------------------------------ bytes
    def number(self, size):
        u = {"sizeof(int)": 4, "sizeof(unsigned int)": 4, "sizeof(double)": 8, "sizeof(std::complex<double>)": 16, "sizeof(char)": 1, "sizeof(unsigned char)": 1, "sizeof(unsigned long)": 8, "sizeof(float)": 4}
        size = size.subs({k: P(v) for k, v in u.items() if k in size.atoms()})
        return size

    def block(self, p, size):
        """number of elements in `size` bytes"""
        size = self.number(size)
        a = 4 if isinstance(p.buf, IBuf) else self.esz
        if any(c % a for c in size.d.values()):
            return None
        return Poly({m: c // a for m, c in size.d.items()})

    def bytes(self, a):
        """what a pointer to bytes points to"""
        p = self.get(a)
        p = p[1] if isinstance(p, tuple) and p and p[0] == "bytes" else p
        if isinstance(p, PCell) and isinstance(p.c, tuple) and p.c[0] == "e":
            return Ptr(p.c[1], p.c[2])
        return p

    def write(self, s, args, ol):
        ip = self.ip
        p, size = self.bytes(args[0]), self.get(args[1])
        if not isinstance(size, Poly):
            raise Undecided("number of bytes")
        if isinstance(p, Ptr):
            k = self.block(p, size)
            if k is None:
                self.ip.setfield(s, "tok", s.f["tok"] + (Raw(self.number(size), None),))
                return LV(ol)
            if isinstance(p.buf, IBuf):
                raise Undecided("integers")
            ip.check_range(p.buf, p.off, k, "write of")
            v = None
            if p.buf is not None:
                c = Buffer(ip.fresh("file"), p.buf.size, "zero")
                models.clone_log(ip, p.buf, c, 0)
                v = Ptr(c, p.off)
            self.ip.setfield(s, "tok", s.f["tok"] + (Raw(self.number(size), v),))
        elif isinstance(p, PCell):
            self.ip.setfield(s, "tok", s.f["tok"] + (Raw(self.number(size), ip.lget(p.c)),))
        else:
            raise Undecided("bytes of %r" % (p,))
        return LV(ol)

    def read(self, s, args, ol):
        ip = self.ip
        p, size = self.bytes(args[0]), self.get(args[1])
        t, i = s.f["tok"], s.f["pos"]
        if t is None or not isinstance(size, Poly):
            raise Undecided("read")
        if i >= len(t):
            self.ip.setfield(s, "ok", False)
            if ip.F.eq(size, ZERO):
                return LV(ol)
            self.problems.append("more is read than was written")
            return LV(ol)
        self.ip.setfield(s, "pos", i + 1)
        if not isinstance(t[i], Raw):
            raise Undecided("bytes of text")
        size = self.number(size)
        if not ip.F.eq(size, t[i].size):
            d = ip.F.norm(size - t[i].size)
            if not ip.frames and set(size.atoms()) | set(t[i].size.atoms()) <= {"m", "n"} and any(d.subs({k: P(v) for k, v in env.items()}) != ZERO for env in ip.F.models()):
                raise Definite("%s bytes are read where %s were written" % (size, t[i].size))
            raise Undecided("bytes: %s" % size)
        if t[i].v is None:
            raise Undecided("bytes")
        if isinstance(p, PCell):
            ip.lset(p.c, t[i].v)
        elif isinstance(p, Ptr) and p.buf is not None and isinstance(t[i].v, Ptr):
            k = self.block(p, size)
            if k is None:
                raise Undecided("bytes: %s" % size)
            ip.check_range(p.buf, p.off, k, "read into")
            models.same_copy(ip, t[i].v, p, k, 0)
        else:
            raise Undecided("bytes into %r" % (p,))
        return LV(ol)

