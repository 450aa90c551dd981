"""Loads the extractor's output."""
import json


class IR:
    def __init__(self, path, repo="/repo"):
        self.funcs = {}
        self.recs = {}
        self.by_q = {}
        self.rec_by_t = {}
        self.repo = repo
        self.enum_like = set()
        for line in open(path):
            o = json.loads(line)
            if o["kind"] == "func":
                self.funcs[o["id"]] = o
                self.by_q.setdefault(o["q"], []).append(o)
            else:
                self.recs[o["id"]] = o
                self.rec_by_t[o["t"]] = o

    def func(self, q, params=None, cplx=None, nparams=None):
        """functions with qualified name q whose parameter types contain the given substrings"""
        r = []
        for f in self.by_q.get(q, []):
            if not f["hasbody"]:
                continue
            if nparams is not None and len(f["params"]) != nparams:
                continue
            r.append(f)
        return r

    def loc(self, f, l=None):
        p = f["file"]
        i = p.find("/include/htool/")
        import os
        p = os.path.normpath(p)
        p = p.replace(self.repo + "/", "")
        return "%s:%d" % (p, l if l else f["l"])


def walk(n, fn):
    """preorder over every dict node"""
    if isinstance(n, dict):
        fn(n)
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v, fn)
    elif isinstance(n, list):
        for v in n:
            walk(v, fn)
