"""development runner: python3 runspec.py MODULE [filter] [verbose]"""
import sys, importlib, time, multiprocessing as mp
sys.path.insert(0, "/verif/analysis")
from ir import IR
from spec import *
sys.setrecursionlimit(20000)
G = {}


def work(i):
    try:
        return work_(i)
    finally:
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)


def work_(i):
    c = G["cases"][i]
    t1 = time.time()
    try:
        import spec
        spec.limit(time.time() + 1e5, 30)
        if __import__("os").environ.get("SIZED"):
            import spec
            r = Result()
            spec.refute(G["ir"], c, r, tables=[int(__import__("os").environ["SIZED"])])
            r.holds = r.sized_ok
            r.undecided = [Outcome("undecided", w) for w in r.sized]
        else:
            r = run_case(G["ir"], c)
    except (Exception, __import__("spec").TimeUp) as e:
        import traceback
        return i, 0, 0, [], [], 0, traceback.format_exc()[-600:]
    return i, r.parts, r.holds, [(o.what, [str(p) for p in o.path]) for o in r.undecided], [(o.what, o.where, o.detail, [str(p) for p in o.path]) for o in r.violations], time.time() - t1, None


def main(modname, flt=None, verbose=0):
    ir = IR("/tmp/x.jsonl")
    t0 = time.time()
    cs = []
    for m in modname.split(","):
        cs += list(importlib.import_module(m).cases(ir))
    lab = lambda c: "%s<%s> %s" % (c.fn["q"], "C" if c.cplx else "R", c.label)
    cs = [c for c in cs if not flt or flt in lab(c)]
    G["cases"], G["ir"] = cs, ir
    tot = [0, 0, 0, 0]
    with mp.Pool(8) as pool:
        for i, parts, holds, und, viol, dt, err in pool.imap_unordered(work, range(len(cs)), chunksize=1):
            tot[0] += 1
            tot[1] += holds
            tot[2] += len(und)
            tot[3] += len(viol)
            if viol and __import__("os").environ.get("STOP"):
                print("%s:" % lab(cs[i]), viol[0][0], viol[0][1], viol[0][2][:200])
                print("violation found (stopped)")
                pool.terminate()
                return
            if err:
                print(lab(cs[i]), "CRASH", err)
            if viol or und or verbose or dt > 10:
                print("%s: parts %d ok %d und %d viol %d  %.1fs" % (lab(cs[i]), parts, holds, len(und), len(viol), dt))
                seen = set()
                for w, p in und[:4]:
                    if w not in seen:
                        seen.add(w)
                        print("    U", w[:400], p[:6] if verbose else "")
                for w, wh, d, p in viol[:3]:
                    print("    V", w, wh, "\n       ", d[:900], "\n       ", p[:8])
    print("cases %d ok %d undecided %d violations %d  %.1fs" % (*tot, time.time() - t0))


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None, int(sys.argv[3]) if len(sys.argv) > 3 else 0)
