"""C12: the OpenMP code gives the result of one thread for every schedule.

The entry points with parallel regions are re-interpreted by a team of two threads under the extreme schedules: one
thread executes every iteration of the worksharing loops and the other none (either way round), or each thread one of
two loops.  The oracle is the sequential specification of the same entry point (C03, C04, C10), so a per-thread
statement that is not neutral for a thread without iterations (an initial value added by each thread, a scaling of the
shared output inside the region, a contribution merged by one thread only) is a mismatch.
"""
import specs_h
import specs_prod
import specs_build
from spec import Case

PROP = "C12"
SCHED = (("all", "none"), ("none", "all"), ("odd", "even"))


def cases(ir):
    out = []
    src = [c for c in specs_h.cases(ir) if "openmp" in c.fn["q"]]
    src += [c for c in specs_prod.cases(ir) if "openmp" in c.fn["q"]]
    bl = [c for c in specs_build.cases(ir)]
    src += [c for i, c in enumerate(bl) if "failn=some" in c.label or "failn=all" in c.label or i % 40 == 0]
    for c in src:
        for sc in SCHED:
            def setup(ip, f, c=c, sc=sc):
                ip.sched = sc
                r = c.setup(ip, f)
                return r
            o = dict(c.options)
            o["cost"] = o.get("cost", 0)
            if "_add_" in c.fn["q"] and sc == SCHED[1] and "row_major" in c.fn["q"]:
                o["thorough"] = True
            out.append(Case(c.fn, c.label + " threads=%s/%s" % sc, setup, c.cplx, PROP, o))
    return out
