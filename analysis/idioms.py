"""Loops whose trip count or effect depends on data, recognised by their abstract behaviour:
the search `while (i < n && !found) { found = p(i); ++i; }` and the row interchanges
`for j: swap(x[j], x[piv[j]-1])` (an application of the LAPACK permutation)."""
from terms import *
from interp import *
from poly import Poly, P, ZERO, ONE


def flat_stmts(b):
    if b is None:
        return []
    if b.get("k") == "block":
        return [y for x in b["s"] for y in flat_stmts(x)]
    return [b]


def step_of(ip, e):
    """(variable reference, step) of an increment expression"""
    if e is None:
        return None
    if e.get("k") == "expr":
        e = e["e"]
    while e.get("k") in ("icast", "cast", "paren") and "e" in e:
        e = e["e"]
    if e.get("k") == "un" and e["op"] in ("++", "--") and e["e"]["k"] == "ref":
        return e["e"], 1 if e["op"] == "++" else -1
    if e.get("k") == "asg" and e["op"] in ("+=", "-=") and e["a"]["k"] == "ref" and e["b"].get("k") == "int":
        return e["a"], e["b"]["v"] * (1 if e["op"] == "+=" else -1)
    if e.get("k") == "asg" and e["op"] == "=" and e["a"]["k"] == "ref" and e["b"].get("k") == "bin" and e["b"]["op"] in "+-":
        x, y = e["b"]["a"], e["b"]["b"]
        if x.get("k") == "ref" and x["id"] == e["a"]["id"] and y.get("k") == "int":
            return e["a"], y["v"] * (1 if e["b"]["op"] == "+" else -1)
    return None


def negated_ref(e):
    while e.get("k") in ("icast", "cast", "paren") and "e" in e:
        e = e["e"]
    if e.get("k") == "un" and e["op"] == "!":
        x = e["e"]
        while x.get("k") in ("icast", "cast", "paren") and "e" in x:
            x = x["e"]
        if x.get("k") == "ref":
            return x
    return None


def search_loop(ip, s):
    """returns True when handled"""
    c = s.get("c")
    if s.get("k") == "for":
        return search_for(ip, s)
    if s.get("k") != "while" or not isinstance(c, dict) or c.get("k") != "bin" or c.get("op") not in ("&&", "and"):
        return False
    for bnd, neg in ((c["a"], c["b"]), (c["b"], c["a"])):
        flag = negated_ref(neg)
        if flag is not None:
            break
    else:
        return False
    st = flat_stmts(s["body"])
    if len(st) != 2:
        return False
    for a, b in ((st[0], st[1]), (st[1], st[0])):
        iv = step_of(ip, b if b.get("k") == "expr" else None)
        if iv is not None and iv[1] == 1:
            break
    else:
        return False
    order = a is st[0]
    a = a.get("e") if a.get("k") == "expr" else None
    if a is None or a.get("k") != "asg" or a["op"] != "=" or a["a"].get("k") != "ref" or a["a"]["id"] != flag["id"] or not order:
        return False
    fc, ic = ip.lookup(flag), ip.lookup(iv[0])
    if fc is None or ic is None or fc.v is not False or not isinstance(ic.v, Poly):
        return False
    j0 = ic.v
    at = ip.fresh("<j>")
    ip.setattr_(ic, "v", Poly.atom(at))
    k = ip.rv(bnd)
    if not isinstance(k, Cond) or k.k != "ge":
        ip.setattr_(ic, "v", j0)
        return False
    sp = ip.F.norm(k.p).split(at)
    if sp is None or not (sp[0] == -1):
        ip.setattr_(ic, "v", j0)
        return False
    n = ip.F.norm(sp[1] + 1)
    ip.setattr_(ic, "v", j0)
    if ip.F.nonneg(j0 - n):
        return True
    if not ip.F.nonneg(n - 1 - j0) and not ip.decide(Cond("ge", n - 1 - j0)):
        return True
    # the last candidate decides the existence when it is known to satisfy the predicate
    ip.setattr_(ic, "v", n - 1)
    t = ip.rv(a["b"])
    if isinstance(t, Cond) and t.k in ("eq", "ne", "ge"):
        p = ip.F.norm(t.p)
        if p.is_const():
            x = p.const_value()
            t = {"eq": x == 0, "ne": x != 0, "ge": x >= 0}[t.k]
    ip.setattr_(ic, "v", Unk("index left by a search"))
    if t is True:
        ip.setattr_(fc, "v", True)
        return True
    if isinstance(t, (bool, Cond)):
        ip.setattr_(fc, "v", ip.decide(Cond("pred", ("found", s.get("l"), str(n)))))
        return True
    ip.setattr_(fc, "v", Unk("search"))
    return True


def strip_e(e):
    while e.get("k") in ("icast", "cast", "paren") and "e" in e:
        e = e["e"]
    return e


def is_true(e):
    e = strip_e(e)
    return e.get("k") in ("bool", "int") and e.get("v") in (True, 1)


def found_by(st, flag):
    """(flag reference, predicate, needs the flag to stop the loop) of `flag = p`, `flag = flag || p` or `if (p) flag = true`"""
    if st and st[0].get("k") == "if":
        if len(st) != 1 or st[0].get("b") is not None or st[0].get("init") or st[0].get("cv"):
            return None
        i = flat_stmts(st[0].get("a"))
        if len(i) == 2 and i[1].get("k") != "break" or not 1 <= len(i) <= 2 or i[0].get("k") != "expr":
            return None
        a = i[0]["e"]
        if a.get("k") == "asg" and a["op"] == "=" and a["a"].get("k") == "ref" and is_true(a["b"]):
            return a["a"], st[0]["c"], False
        return None
    if len(st) != 1 or st[0].get("k") != "expr":
        return None
    a = st[0]["e"]
    if a.get("k") != "asg" or a["a"].get("k") != "ref":
        return None
    if a["op"] == "|=":
        return a["a"], a["b"], False
    if a["op"] != "=":
        return None
    b = strip_e(a["b"])
    if b.get("k") == "bin" and b["op"] in ("||", "or"):
        for x, y in ((b["a"], b["b"]), (b["b"], b["a"])):
            x = strip_e(x)
            if x.get("k") == "ref" and x["id"] == a["a"]["id"]:
                return a["a"], y, False
    return a["a"], a["b"], True


def search_for(ip, s):
    """`for (; i < n && !found; ++i) found = p(i)` and its variants, when the last candidate is known to satisfy p"""
    c, iv = s.get("c"), step_of(ip, s.get("inc"))
    if not isinstance(c, dict) or iv is None or iv[1] != 1:
        return False
    r = found_by(flat_stmts(s["body"]), None)
    if r is None:
        return False
    flag, pred, stop = r
    bnd = c
    if c.get("k") == "bin" and c.get("op") in ("&&", "and"):
        for x, y in ((c["a"], c["b"]), (c["b"], c["a"])):
            n = negated_ref(y)
            if n is not None and n["id"] == flag["id"]:
                bnd = x
                break
        else:
            return False
    elif stop:
        return False
    fc, ic = ip.lookup(flag), ip.lookup(iv[0])
    if fc is None or ic is None or fc.v is not False or not isinstance(ic.v, Poly):
        return False
    j0 = ic.v
    at = ip.fresh("<j>")
    m = ip.mark()
    tr = len(ip.trace)
    ip.setattr_(ic, "v", Poly.atom(at))
    try:
        k = ip.rv(bnd)
        sp = ip.F.norm(k.p).split(at) if isinstance(k, Cond) and k.k == "ge" else None
        if sp is None or not (sp[0] == -1):
            return False
        n = ip.F.norm(sp[1] + 1)
        ip.setattr_(ic, "v", n - 1)
        t = ip.rv(pred)
    finally:
        if len(ip.trace) == tr:
            ip.rollback(m)
        ip.setattr_(ic, "v", j0)
    if isinstance(t, Cond) and t.k in ("eq", "ne", "ge") and ip.F.norm(t.p).is_const():
        x = ip.F.norm(t.p).const_value()
        t = {"eq": x == 0, "ne": x != 0, "ge": x >= 0}[t.k]
    if t is not True:
        return False
    if ip.F.nonneg(j0 - n):
        return True
    if not ip.F.nonneg(n - 1 - j0) and not ip.decide(Cond("ge", n - 1 - j0)):
        return True
    ip.setattr_(ic, "v", Unk("index left by a search"))
    ip.setattr_(fc, "v", True)
    return True


def swap_loop(ip, c, s):
    if s.get("k") != "for" or not isinstance(c, dict):
        return False
    st = flat_stmts(s["body"])
    if len(st) != 1 or st[0].get("k") != "expr" or st[0]["e"].get("k") != "call" or st[0]["e"].get("q") != "std::swap":
        return False
    iv = step_of(ip, s.get("inc"))
    if iv is None or iv[1] not in (1, -1):
        return False
    cell = ip.lookup(iv[0])
    if cell is None or not isinstance(cell.v, Poly):
        return False
    j0 = cell.v
    at = ip.fresh("<j>")
    J = Poly.atom(at)
    ip.setattr_(cell, "v", J)
    try:
        k = ip.rv(c)
        ab = [ip.lv(x) for x in st[0]["e"]["args"]]
        ab = [x.lv if hasattr(x, "lv") else x for x in ab]
    finally:
        ip.setattr_(cell, "v", j0)
    if not isinstance(k, Cond) or k.k != "ge" or any(not isinstance(x, tuple) or x[0] != "e" for x in ab) or ab[0][1] is not ab[1][1]:
        return False
    F = ip.F
    sp = F.norm(k.p).split(at)
    if sp is None or not (sp[0] == -iv[1]):
        return False
    N = F.norm(sp[1] + sp[0] * j0 + 1)
    for x, y in ((ab[0][2], ab[1][2]), (ab[1][2], ab[0][2])):
        lx = F.norm(x).split(at)
        py = [a for a in F.norm(y).atoms() if a.endswith("[%s]" % F.norm(J))]
        if lx is None or len(py) != 1 or any(at in a for a in lx[0].atoms() | lx[1].atoms()):
            continue
        ly = F.norm(y).split(py[0])
        if ly is None or not F.eq(ly[0], lx[0]) or not F.eq(ly[1], lx[1] - lx[0]):
            continue
        nm = py[0][:-len("[%s]" % F.norm(J))]
        nm = nm if nm.startswith("P:") else "P:" + nm
        st_, base = lx
        if iv[1] == 1:
            if not F.zero(j0):
                return False
        elif not F.eq(j0, N - 1):
            return False
        b = ab[0][1]
        v = View(base, ONE, N, ZERO, st_)
        ip.check_view(b, v, "write", s.get("l"))
        X = ip.M.read(b, v)
        ip.A.perm.add(nm)
        f = ip.A.of_factor(("op", nm, N, N, "T" if iv[1] == 1 else "N"))
        ip.mwrite(b, v, X if is_unk(X) else ip.A.mul(X, f), s.get("l") or 0)
        # value of the counter after the loop is not used further inside the loop scope
        ip.setattr_(cell, "v", F.norm(j0 + iv[1] * N))
        return True
    return False
