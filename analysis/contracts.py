"""Contracts: effects used instead of a callee's body.  Each one states the callee's own
verified (or library) specification; the callee itself is decided by its own cases."""
from terms import *
from interp import *
import interp as I
from poly import Poly, P, ZERO, ONE


def objof(ip, a):
    v = ip.lget(a) if isinstance(a, (Cell, tuple)) else a
    return v


def mat_dims(o):
    return o.f.get("m_number_of_rows"), o.f.get("m_number_of_cols")


def mat_value(ip, o):
    r, c = mat_dims(o)
    p = o.f.get("m_data")
    if not isinstance(r, Poly) or not isinstance(c, Poly) or not isinstance(p, Ptr):
        return Unk("matrix state")
    if p.buf is None:
        return ip.A.zero(r, c)
    return ip.M.read(p.buf, View(p.off, r, c, ONE, r))


def new_matrix(ip, o, r, c, base):
    """give the Matrix object fresh owned storage of r x c"""
    b = Buffer(ip.fresh(base), P(r) * P(c), "init")
    b.hints = [(P(r), P(c))]
    ip.setfield(o, "m_number_of_rows", P(r))
    ip.setfield(o, "m_number_of_cols", P(c))
    ip.setfield(o, "m_data", Ptr(b, ZERO))
    ip.setfield(o, "m_is_owning_data", True)
    return b


def lr_value(ip, o):
    U, V = o.f["m_U"], o.f["m_V"]
    a, b = mat_value(ip, U), mat_value(ip, V)
    return ip.A.mul(a, b)


def c_recompression(ip, f, obj, args, e):
    """replaces U,V by factors of the same product (up to the truncation at epsilon)"""
    o = objof(ip, args[0])
    if not isinstance(o, Obj) or "m_U" not in o.f or "m_V" not in o.f:
        return NotImplemented
    val = lr_value(ip, o)
    m, n = mat_dims(o.f["m_U"])[0], mat_dims(o.f["m_V"])[1]
    if is_unk(val):
        raise Undecided("recompression of " + str(val))
    tgt = o
    if strip_t(f["ret"]) != "void":
        tgt = ip.copy_obj(o)
    k = ip.fresh("rank")
    ip.F.add_ge0(Poly.atom(k))
    Ub = new_matrix(ip, tgt.f["m_U"], m, P(k), "rU")
    Vb = new_matrix(ip, tgt.f["m_V"], P(k), n, "rV")
    ip.A.pairs[(Ub.name, Vb.name)] = (ip.F.norm(m), ip.F.norm(n), P(k), val)
    ip.call_log.add(f["id"])
    return tgt if tgt is not o else None


def c_svd(ip, f, obj, args, e):
    """A = u diag(s) vt, keeping the leading part up to epsilon"""
    A_, u, vt, sv = objof(ip, args[0]), objof(ip, args[2]), objof(ip, args[3]), objof(ip, args[4])
    val = mat_value(ip, A_)
    m, n = mat_dims(A_)
    if is_unk(val):
        raise Undecided("SVD of " + str(val))
    t = ip.fresh("trank")
    ip.F.add_ge0(P(t) - 1)
    ip.F.add_ge0(m - P(t))
    ip.F.add_ge0(n - P(t))
    k = ip.fresh("sv")
    ub = new_matrix(ip, u, m, m, "svdU")
    vb = new_matrix(ip, vt, n, n, "svdVt")
    sb = Buffer(k, None, "init")
    if isinstance(sv, Vec):
        ip.setattr_(sv, "buf", sb)
    else:
        raise Undecided("singular value container")
    ip.A.svd[(ub.name, k, vb.name)] = (ip.F.norm(m), ip.F.norm(n), P(t), val)
    ip.mhavoc(A_.f["m_data"].buf, "overwritten by the SVD", 0)
    ip.call_log.add(f["id"])
    return P(t)


BASE = {"htool::recompression": c_recompression, "htool::SVD_truncation": c_svd}
