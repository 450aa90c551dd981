import sys; sys.path.insert(0,'.'); sys.setrecursionlimit(20000)
from ir import IR
import loops, terms, spec, interp, importlib
def cases(mod, flt):
    ir=IR('/tmp/x.jsonl')
    m=importlib.import_module(mod)
    for c in m.cases(ir):
        lab = "%s<%s> %s" % (c.fn["q"], "C" if c.cplx else "R", c.label)
        if flt in lab: yield ir,c
