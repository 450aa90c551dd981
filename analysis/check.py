#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo /repo]

Extracts the resolved program of REPO's current headers (clang AST of every instantiated
function), runs the static analyses registered for PROPERTY over it, writes
evidence/PROPERTY.json and prints VIOLATION / KNOWN-FINDING lines.
exit 0 held, 1 violation, 2 the analysis itself could not be carried out."""
import sys, os, json, time, signal, subprocess, importlib, hashlib, tempfile, shutil, traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "lints"))
sys.setrecursionlimit(20000)
G = {}


def die(msg):
    print("ANALYSIS-ERROR " + msg)
    sys.exit(2)


def extract(repo, out):
    p = subprocess.run(["bash", os.path.join(HERE, "build.sh")], capture_output=True, text=True)
    if p.returncode:
        die("extractor does not build: " + p.stderr[-400:])
    p = subprocess.run(["bash", os.path.join(HERE, "ext.sh"), os.path.join(HERE, "driver", "driver.cpp"), out, repo], capture_output=True, text=True)
    if not os.path.exists(out) or os.path.getsize(out) < 100000:
        die("extraction failed: " + p.stderr[-800:])
    errs = [l for l in p.stderr.splitlines() if " error: " in l or " fatal error: " in l]
    return errs


def term_work(i):
    import spec
    c = G["cases"][i]
    t = time.time()
    if t > G["deadline"]:
        return i, 0, 0, [("out of time", [])], [], 0, []
    try:
        spec.limit(G["deadline"], 150 if G["tier"] == "quick" else 1500)
        try:
            r = spec.run_case(G["ir"], c)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except spec.TimeUp:
        return i, 0, 0, [("out of time", [])], [], time.time() - t, []
    except Exception:
        return i, 0, 0, [("analysis crash: " + traceback.format_exc()[-300:], [])], [], time.time() - t, []
    return (i, r.parts, r.holds, [(o.what, [str(p) for p in o.path]) for o in r.undecided],
            [(o.what, o.where, o.detail, [str(p) for p in o.path]) for o in r.violations], time.time() - t, sorted(r.calls, key=str))


def lint_work(m):
    try:
        mod = importlib.import_module(m[0])
        return m, mod.run(G["ir"], m[1], G["repo"]), None
    except Exception:
        return m, None, traceback.format_exc()[-1500:]


def known(pid):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("known: property=%s " % pid):
                k, _, what = l.split("key=", 1)[1].partition(" | ")
                out[k.strip()] = what.strip()
    return out


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    repo = a[a.index("--repo") + 1] if "--repo" in a else "/repo"
    t0 = time.time()
    import registry
    tmp = tempfile.mkdtemp(prefix="htx.")
    viol, und, oks, kf = [], [], [], []
    cases_n = parts = 0
    analysed = set()
    samples = []
    notes = []
    try:
        out = os.path.join(tmp, "x.jsonl")
        errs = extract(repo, out)
        from ir import IR
        ir = IR(out)
        G["ir"], G["repo"], G["tier"] = ir, repo, tier
        G["deadline"] = t0 + (600 if tier == "quick" else 5400)
        ir.errors = errs
        # ---- term-domain cases
        cs = []
        for m in registry.TERM.get(pid, []):
            mod = importlib.import_module(m)
            got = [c for c in mod.cases(ir) if c.prop == pid and (tier == "thorough" or not c.options.get("thorough"))]
            if not got:
                notes.append("no instance of the entry points of %s" % m)
            cs += got
        G["cases"] = cs
        if cs:
            order = sorted(range(len(cs)), key=lambda i: -cs[i].options.get("cost", 0))
            with mp.Pool(min(8, os.cpu_count() or 1)) as pool:
                for i, n, holds, us, vs, dt, calls in pool.imap_unordered(term_work, order, chunksize=1):
                    c = cs[i]
                    lab = "%s<%s> %s" % (c.fn["q"], "complex" if c.cplx else "real", c.label)
                    cases_n += 1
                    parts += n
                    analysed.update(calls)
                    if holds:
                        oks.append((lab, holds))
                    for w, p in us:
                        und.append((lab + ": " + w, p))
                    for w, wh, d, p in vs:
                        viol.append({"key": lab + ": " + w, "where": wh or ir.loc(c.fn), "detail": d, "path": p})
        # ---- syntactic / dataflow analyses
        ls = registry.LINT.get(pid, [])
        if ls:
            with mp.Pool(min(8, len(ls))) as pool:
                for m, res, err in pool.imap_unordered(lint_work, [(x, pid) for x in ls]):
                    if err:
                        notes.append("analysis %s crashed: %s" % (m[0], err))
                        und.append(("%s crashed: %s" % (m[0], err[-300:]), []))
                        continue
                    for o in res.ok:
                        oks.append((o, 1))
                    for w in res.undecided:
                        und.append((w, []))
                    for v in res.violations:
                        viol.append({"key": v[0], "where": v[1], "detail": v[2], "path": list(v[3]) if len(v) > 3 else []})
                    analysed.update(res.analysed)
                    cases_n += res.sites
        names = {}
        for fid in analysed:
            f = ir.funcs.get(fid) if isinstance(fid, int) else None
            if f is not None:
                names[f["q"]] = ir.loc(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # ---- known findings
    kn = known(pid)
    seen, fresh = set(), []
    for v in viol:
        if v["key"] in kn:
            seen.add(v["key"])
        else:
            fresh.append(v)
    nok = sum(n for _, n in oks)
    cov = {
        "explanation": registry.RULES.get(pid, ""),
        "sites_analysed": cases_n,
        "partitions": parts,
        "obligations_decided_ok": nok,
        "obligations_violated": len(viol),
        "obligations_undecided": len(und),
        "functions_analysed": len(names),
        "functions": ["%s (%s)" % (k, names[k]) for k in sorted(names)][:400],
        "samples": ["%s: %d" % x for x in sorted(oks)[:40]],
        "undecided_samples": sorted({u[0][:300] for u in und})[:60],
        "violations_found": [v for v in fresh[:50]],
        "known_findings_seen": sorted(seen),
        "front_end_errors": errs[:20],
        "notes": notes,
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "assumptions": ["clang 18 resolves the instantiated program as the compiler does", "BLAS/LAPACK, the standard library and MPI behave as documented", "sizes are non-negative integers without overflow"],
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    ed = os.path.join(VERIF, "evidence")
    os.makedirs(ed, exist_ok=True)
    json.dump(ev, open(os.path.join(ed, pid + ".json"), "w"), indent=1)
    print("%s: %d sites, %d partitions, %d obligations hold, %d undecided, %d violated (%d known) in %.1f s" % (pid, cases_n, parts, nok, len(und), len(viol), len(viol) - len(fresh), time.time() - t0))
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s | %s" % (pid, k, kn[k]))
    if fresh:
        rp = os.path.join(ed, pid + ".violation.json")
        json.dump(fresh, open(rp, "w"), indent=1)
        for v in fresh[:10]:
            print("%s: %s\n    %s" % (v["where"], v["key"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if nok == 0:
        die("%s: nothing was decided (%s)" % (pid, "; ".join(notes) or (und[0][0][:300] if und else "no site")))
    sys.exit(0)


if __name__ == "__main__":
    main()
