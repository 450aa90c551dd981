"""Elementary algebra of dense matrices and vectors: every operation gives the result of its mathematical
definition, in a fresh object of the right shape, and leaves its operands as they were."""
from spec import *
from specs_dense import fns, argcells
from models import ones
from specs_value import out_

PROP = "C16"


def vec(s, name, n, out=False):
    n = P(n)
    return Vec(s.buf(name, n, out), n)


def vview(n):
    return View(ZERO, P(n), ONE, ONE, ZERO)


def val(s, name, n):
    return s.ip.A.view(name, vview(n))


def result_vec(s, v, n, want, what):
    ip = s.ip
    if not isinstance(v, Vec):
        return [out_(None, what, repr(v))]
    if not ip.F.eq(P(v.size), P(n)):
        return [out_(False, "the result has the length of the operand", "%s instead of %s" % (v.size, n))]
    r = [s.compare(ip.M.read(v.buf, vview(n)), want, what, v.buf)]
    if v.buf in s.inputs:
        r.append(out_(False, "the result is a vector of its own"))
    return r


def result_mat(s, M, r, c, want, what):
    if not isinstance(M, Obj):
        return [out_(None, what, repr(M))]
    got, b = s.final_matrix(M)
    return s.dims(M, r, c) or [s.compare(got, want, what, b)] + ([out_(False, "the result has storage of its own")] if b in s.inputs else [])


def cases(ir):
    out = []

    def add(f, nm, fn):
        T = "std::complex<double>" if "complex" in str(f.get("clst")) + "".join(p["t"] for p in f["params"]) else "double"

        def setup(ip, f, T=T, fn=fn):
            s = Spec(ip, T)
            this, args, chk = fn(ip, s)
            return this, argcells(args), lambda ip: chk() + s.frame() + s.alarms()
        out.append(Case(f, nm, setup, "complex" in T, PROP))

    def p0(f):
        return f["params"][0]["t"] if f["params"] else ""

    def is_mat(t):
        return "htool::Matrix<" in t

    def is_vec(t):
        return "std::vector<" in t

    # matrices
    for q, sg in (("htool::Matrix::operator+", 1), ("htool::Matrix::operator-", -1)):
        for f in fns(ir, q):
            def go(ip, s, sg=sg):
                A, B = s.matrix("A", "m", "n"), s.matrix("B", "m", "n")
                return A, [B], lambda: result_mat(s, ip.retval, "m", "n", ip.A.add(s.val(A), s.val(B), P(1), P(sg)), "A %s B" % ("+-"[sg < 0]))
            add(f, "", go)
    for f in fns(ir, "htool::Matrix::operator*"):
        if is_mat(p0(f)):
            def go(ip, s):
                A, B = s.matrix("A", "m", "k"), s.matrix("B", "k", "n")
                return A, [B], lambda: result_mat(s, ip.retval, "m", "n", ip.A.mul(s.val(A), s.val(B)), "A B")
        else:
            def go(ip, s):
                A, x = s.matrix("A", "m", "n"), vec(s, "x", "n")
                return A, [x], lambda: result_vec(s, ip.retval, "m", ip.A.mul(s.val(A), val(s, "x", "n")), "A x")
        add(f, "", go)
    for f in fns(ir, "htool::operator*", lambda f: any(is_mat(p["t"]) for p in f["params"])):
        def go(ip, s, first=is_mat(p0(f))):
            A, a = s.matrix("A", "m", "n"), s.scalar("a")
            return None, [A, a] if first else [a, A], lambda: result_mat(s, ip.retval, "m", "n", ip.A.scale(a, s.val(A)), "a A")
        add(f, "", go)
    for f in fns(ir, "htool::Matrix::operator=", lambda f: not is_mat(p0(f))):
        def go(ip, s):
            A, z = s.matrix("A", "m", "n", True), s.scalar("z")
            return A, [z], lambda: result_mat(s, A, "m", "n", const(ip, "m", "n", z), "every coefficient is the value given")
        add(f, "", go)
    for q, row in (("htool::Matrix::get_row", True), ("htool::Matrix::get_col", False)):
        for f in fns(ir, q):
            def go(ip, s, row=row):
                A, i = s.matrix("A", "m", "n"), index(ip, "i", "m" if row else "n")
                n = "n" if row else "m"
                v = View(i, P(n), ONE, P("m"), ZERO) if row else View(i * P("m"), P(n), ONE, ONE, ZERO)
                return A, [i], lambda: result_vec(s, ip.retval, n, ip.A.view("A", v), "the coefficients of the row or column")
            add(f, "", go)
    for q, row in (("htool::Matrix::set_row", True), ("htool::Matrix::set_col", False)):
        for f in fns(ir, q):
            def go(ip, s, row=row):
                A, i = s.matrix("A", "m", "n", True), index(ip, "i", "m" if row else "n")
                n = "n" if row else "m"
                x = vec(s, "x", n)
                inside = View(i, P(n), ONE, P("m"), ZERO) if row else View(i * P("m"), P(n), ONE, ONE, ZERO)

                def chk():
                    b = A.tag["buf"]
                    r = s.dims(A, "m", "n") + [s.compare(ip.M.read(b, inside), val(s, "x", n), "the row or column holds the vector given", b)]
                    for lo, k in ((ZERO, i), (i + 1, P("m" if row else "n") - 1 - i)):
                        v = View(lo, k, P("n"), ONE, P("m")) if row else View(lo * P("m"), P("m"), k, ONE, P("m"))
                        r.append(s.compare(ip.M.read(b, v), ip.A.view("A", v), "the other rows or columns are left alone", b))
                    return r
                return A, [i, x], chk
            add(f, "", go)
    # vectors
    for q, sg in (("htool::operator+", 1), ("htool::plus", 1), ("htool::operator-", -1), ("htool::minus", -1)):
        for f in fns(ir, q, lambda f: is_vec(p0(f))):
            def go(ip, s, sg=sg):
                a, b = vec(s, "a", "n"), vec(s, "b", "n")
                return None, [a, b], lambda: result_vec(s, ip.retval, "n", ip.A.add(val(s, "a", "n"), val(s, "b", "n"), P(1), P(sg)), "sum or difference")
            add(f, "", go)
    for f in fns(ir, "htool::mult", lambda f: not is_mat(p0(f))):
        def go(ip, s, first=is_vec(p0(f))):
            a, z = vec(s, "a", "n"), s.scalar("z")
            return None, [a, z] if first else [z, a], lambda: result_vec(s, ip.retval, "n", ip.A.scale(z, val(s, "a", "n")), "z a")
        add(f, "", go)
    for f in fns(ir, "htool::operator*=", lambda f: is_vec(p0(f))):
        def go(ip, s):
            a, z = vec(s, "a", "n", True), s.scalar("z")
            return None, [a, z], lambda: result_vec(s, a, "n", ip.A.scale(z, val(s, "a", "n")), "a := z a")
        add(f, "", go)
    for f in fns(ir, "htool::dprod"):
        def go(ip, s, f=f):
            a, b = vec(s, "a", "n"), vec(s, "b", "n")
            cj = "complex" in p0(f)

            def chk():
                A = ip.A
                x, y = val(s, "a", "n"), val(s, "b", "n")
                w = A.mul(A.T(x), A.J(y) if cj else y)
                v = ip.retval
                return [s.compare(ip.to_mat(v) if isinstance(v, (Poly, MatVal)) else v, w, "sum of the products with the conjugate of the second vector")]
            return None, [a, b], chk
        add(f, "", go)
    for f in fns(ir, "htool::mean"):
        def go(ip, s):
            a = vec(s, "a", "n")

            def chk():
                v = ip.retval
                w = ip.binop("/", ip.A.mul(ones(ip, 1, "n", ONE), val(s, "a", "n")), P("n"), {})
                return [s.compare(v if is_unk(v) else ip.to_mat(v), w if is_unk(w) else ip.to_mat(w), "sum of the coefficients over their number")]
            return None, [a], chk
        add(f, "", go)
    for q in ("htool::operator/", "htool::operator/="):
        for f in fns(ir, q, lambda f: is_vec(p0(f))):
            def go(ip, s, inplace=q[-1] == "="):
                a, z = vec(s, "a", "n", inplace), s.scalar("z")
                return None, [a, z], lambda: result_vec(s, a if inplace else ip.retval, "n", ip.A.scale(Poly.atom("$inv(%s)" % z), val(s, "a", "n")), "a / z")
            add(f, "", go)
    return out


def index(ip, nm, n):
    i = P(nm)
    ip.F.add_ge0(i)
    ip.F.add_ge0(P(n) - 1 - i)
    return i


def const(ip, r, c, z):
    return ones(ip, r, c, z)
