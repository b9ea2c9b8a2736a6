"""Decide one property:  python -m vf.check <ID> [--tier quick|thorough]

exit 0  every obligation generated from /repo's current source is discharged (functions out of the
        verifier's reach: bounded stand-in quiet, labelled so in the evidence)
exit 1  VIOLATION property=<id> replay=<file> [no-failing-input-found]
"""
import sys, os, json, time, shutil, subprocess, importlib.util, multiprocessing as mp, traceback, argparse, atexit
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import build, ir, sexec, spec, replay

G = {}


def load(pid):
    p = os.path.join(HERE, "contracts", pid + ".py")
    s = importlib.util.spec_from_file_location("contract_" + pid, p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def worker(i):
    con = G["cons"][i]
    tier, seed = G["tier"], G["seed"]
    out = {"label": con.label, "tu": con.tu, "what": con.what}
    t0 = time.time()
    try:
        if con.bounded_only:
            out["proof"] = {"status": "bounded", "detail": con.opts.get("why_bounded", ""), "oblig": {}, "failed": [], "assumptions": []}
        else:
            txt = G["ir"].get(con.irkey())
            if isinstance(txt, Exception) or txt is None:
                out["proof"] = {"status": "unsupported", "detail": "extraction: %s" % txt, "oblig": {}, "failed": [], "assumptions": []}
            else:
                mod = ir.Module(txt)
                to = con.opts.get("timeout_ms", 5000)
                bud = con.opts.get("budget", 150)
                if tier == "thorough":
                    to, bud = to * 3, bud * 3
                r = con.verify(mod, timeout_ms=to, budget=bud)
                if r["status"] in ("unknown",) and tier != "thorough":
                    con2 = r
                    left = con.opts.get("retry_budget", 100)
                    r2 = con.verify(ir.Module(txt), timeout_ms=to * 4, budget=left)
                    if r2["status"] in ("proved", "refuted"):
                        r = r2
                out["proof"] = r
        so = G["so"].get(con.tu) if con.opts.get("native", True) is not None else None
        pr = out["proof"]
        out["confirmed"] = None
        out["n_run"] = out["n_distinct"] = 0
        if isinstance(so, str):
            fails = [f.get("input") for f in pr["failed"] if f.get("input")]
            if fails:
                out["confirmed"] = replay.confirm(con, so, fails)
            if not out["confirmed"]:
                tries = con.tries
                if tier == "thorough":
                    tries *= 20
                elif pr["status"] != "proved":
                    tries *= 8
                n, d, f = replay.fuzz(con, so, seed, tries)
                out["n_run"], out["n_distinct"] = n, d
                if f:
                    f["from"] = "bounded concrete run"
                    out["confirmed"] = f
        elif so is not None:
            out["native_error"] = str(so)[:500]
        if pr["status"] == "refuted" and not out["confirmed"]:
            # no failing input: the refutation may come from facts lost to a time limit on a busy machine; confirm it with long limits
            sexec.SCALE = 6.0
            try:
                r2 = con.verify(ir.Module(txt), timeout_ms=to, budget=max(200, 2 * bud))
            finally:
                sexec.SCALE = 1.0
            if r2["status"] != "refuted":
                out["proof"] = r2
    except Exception as e:
        out["error"] = traceback.format_exc()
        out.setdefault("proof", {"status": "unsupported", "detail": "internal error %r" % e, "oblig": {}, "failed": [], "assumptions": []})
    out["wall"] = time.time() - t0
    return out


def bworker(i):
    b = G["bounded"][i]
    t0 = time.time()
    try:
        r = b.execute(G["seed"], G["tier"])
    except Exception as e:
        r = {"n": 0, "distinct": 0, "failure": None, "error": traceback.format_exc()}
    r["label"] = b.label
    r["bound"] = b.bound
    r["wall"] = time.time() - t0
    return r


def irjob(k):
    tu, public, noinline, rounds = k
    try:
        return k, build.make_ir(tu, list(public) if public else None, list(noinline), rounds=rounds)
    except Exception as e:
        return k, RuntimeError(str(e)[:1500])


def loads(so):
    return subprocess.run([sys.executable, "-c", "import ctypes,sys; ctypes.CDLL(sys.argv[1])", so], capture_output=True).returncode == 0


def sojob(a):
    tu, deps, link, libs = a
    name = "n_" + tu.replace("/", "_").replace(":", "_").replace(".", "_")
    try:
        so = build.make_so([tu] + list(deps), name, link, libs=libs)
        if not loads(so) and not link:  # the source uses another part of the library
            so = build.make_so([tu] + list(deps), name + "_l", True, libs=libs)
        if not loads(so):
            raise RuntimeError("%s cannot be loaded" % so)
        return tu, so
    except Exception as e:
        return tu, RuntimeError(str(e)[:1500])


def known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [k for k in json.load(fh)["findings"] if k.get("property") == pid and k.get("status") == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    w = build.workdir()
    if not os.environ.get("VERIF_KEEP"):
        me = os.getpid()
        atexit.register(lambda: os.getpid() == me and shutil.rmtree(w, ignore_errors=True))
    m = load(pid)
    cons = m.CONTRACTS
    bnd = getattr(m, "BOUNDED", [])
    if a.only:
        cons = [c for c in cons if a.only in c.label]
        bnd = [b for b in bnd if a.only in b.label]
    G.update(cons=cons, tier=tier, seed=seed, bounded=bnd, ir={}, so={})
    deps = getattr(m, "NATIVE", {})
    tus = sorted({c.tu for c in cons})
    sojobs = [(tu, deps.get(tu, {}).get("deps", []), deps.get(tu, {}).get("link", False), deps.get(tu, {}).get("libs", [])) for tu in tus]
    irkeys = sorted({c.irkey() for c in cons if not c.bounded_only})
    build.gen_include()
    if any(x[2] for x in sojobs) or any(getattr(b, "link", False) for b in bnd):
        try:
            build.ensure_lib()
        except Exception as e:
            print("note: library build failed: %s" % str(e)[:800])
    with mp.Pool(8) as p:
        ra = p.map_async(irjob, irkeys, chunksize=1)
        rb = p.map_async(sojob, sojobs, chunksize=1)
        rc = p.map_async(bprep, range(len(bnd)), chunksize=1) if bnd else None
        G["ir"] = dict(ra.get())
        G["so"] = dict(rb.get())
        if rc:
            for b, pr in zip(bnd, rc.get()):
                b.prepared = pr
    order = sorted(range(len(cons)), key=lambda i: -cons[i].opts.get("cost", 1))
    with mp.Pool(8) as p:
        r1 = p.map_async(worker, order, chunksize=1)
        r2 = p.map_async(bworker, list(range(len(bnd))), chunksize=1)
        res = r1.get()
        bres = r2.get()
    report(pid, m, tier, seed, res, bres, t0, a.v, full=not a.only)


def bprep(i):
    b = G["bounded"][i]
    try:
        return b.prepare()
    except Exception as e:
        return RuntimeError(str(e)[:1500])


def report(pid, m, tier, seed, res, bres, t0, verbose, full=True):
    viol = []
    obl = dis = 0
    backends = {}
    funcs, assumptions, undec = [], set(), []
    nruns = ndist = 0
    solver = 0.0
    for r in res:
        p = r["proof"]
        n = sum(o["n"] for o in p["oblig"].values())
        d = sum(o["proved"] for o in p["oblig"].values())
        st = p["status"]
        if st in ("proved", "refuted", "unknown"):
            obl += n
            dis += d
        for o in p["oblig"].values():
            for k, v in o["by"].items():
                backends[k] = backends.get(k, 0) + v
        solver += p.get("solver_s", 0)
        assumptions |= set(p.get("assumptions", []))
        nruns += r.get("n_run", 0)
        ndist += r.get("n_distinct", 0)
        funcs.append({"function": r["label"], "unit": r["tu"], "what": r["what"], "status": st, "obligations": n, "discharged": d, "inlined_bodies": p.get("inlined", [])[:40],
                      "loops_cut": p.get("loops", 0), "paths": p.get("paths", {}), "solver_s": round(p.get("solver_s", 0), 2), "concrete_runs": r.get("n_run", 0),
                      "wall_s": round(r["wall"], 2), **({"note": p.get("detail", "")} if p.get("detail") else {})})
        if verbose:
            print("  %-50s %-11s %4d/%4d  %6.1fs  runs %d %s" % (r["label"], st, d, n, r["wall"], r.get("n_run", 0), p.get("detail", "")[:200]))
            for f in p["failed"][:6]:
                print("      FAILED", f["label"], f["status"], "|", f["goal"][:300].replace("\n", " "), "|", str(f.get("input"))[:600])
            if r.get("confirmed"):
                print("      CONFIRMED", str(r["confirmed"])[:1200])
            if r.get("error"):
                print(r["error"])
            if p.get("tb"):
                print(p["tb"])
            if r.get("native_error"):
                print("      NATIVE", r["native_error"])
        if r.get("confirmed"):
            viol.append((r, True))
        elif st == "refuted":
            viol.append((r, False))
        elif st != "proved":
            undec.append("%s: %s %s" % (r["label"], st, p.get("detail", "")))
    bl = []
    for b in bres:
        bl.append({k: b.get(k) for k in ("label", "bound", "n", "distinct", "wall", "error")})
        nruns += b.get("n", 0)
        ndist += b.get("distinct", 0)
        if verbose:
            print("  bounded %-42s n=%s %6.1fs %s %s" % (b["label"], b.get("n"), b["wall"], "FAIL " + str(b["failure"])[:1500] if b.get("failure") else "", (b.get("error") or "")[:1500]))
        if b.get("failure"):
            viol.append((b, True))
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    lines = []
    for k, (r, conf) in enumerate(viol):
        rp = os.path.join(ev, "%s.replay%d.json" % (pid, k))
        with open(rp, "w") as fh:
            if "proof" in r:
                json.dump({"property": pid, "contract": r["label"], "unit": r["tu"], "confirmed_on_real_code": r.get("confirmed"),
                           "failed_obligations": r["proof"]["failed"], "kept_invariants": r["proof"].get("kept"),
                           "replay_cmd": "cd %s && python3-vt -m vf.rerun %s" % (HERE, rp)}, fh, indent=1, default=str)
            else:
                json.dump({"property": pid, "bounded_check": r["label"], "failure": r["failure"]}, fh, indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if conf else " no-failing-input-found"))
    kf = []
    for k in known(pid):
        kf.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    level, note = "proof", ""
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            if c["property"] == pid:
                level, note = c["level"], c.get("level_note", "")
    except (OSError, ValueError):
        pass
    cov = {"obligations": obl, "discharged": dis, "checker_cmd": "python3-vt -m vf.check %s --tier %s" % (pid, tier),
           "trusted_base": ["clang-18 front end and the normalising opt-18 passes (source -> LLVM IR)", "verification-condition generator vf/sexec.py", "z3 / cvc5",
                            "floats treated as reals with an explicit undefined (NaN) value; no rounding, no overflow to infinity"] + sorted(getattr(m, "TRUSTED", [])),
           "functions_under_contract": funcs, "backends": backends, "solver_s": round(solver, 2), "bounded_standins": bl, "undecided_by_proof": undec,
           "evaluations": nruns, "distinct_nontrivial": ndist,
           "rule": "seeded inputs that satisfy the contract's precondition, run on the natively compiled real code with guard pages; distinct by value"}
    if level == "other":
        cov["explanation"] = ("contracts on the functions under functions_under_contract are discharged for all inputs (obligations/discharged); "
                              "the rest of the property is decided by the bounded_standins, which are runs of the real code against an independent calculation, never counted as proved. " + note)
    if full:
        with open(os.path.join(ev, pid + ".json"), "w") as fh:
            json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": sorted(assumptions) + list(getattr(m, "ASSUMES", [])),
                       "wall_s": round(time.time() - t0, 2), "violations": len(viol)}, fh, indent=1, default=str)
    for l in kf:
        print(l)
    for u in undec:
        print("undecided by proof, bounded stand-in only: " + u[:300])
    for b in bl:
        if b.get("error"):
            print("bounded stand-in did not run: %s: %s" % (b["label"], b["error"][-300:]))
    print("%s: %d/%d obligations discharged over %d functions, %d concrete runs, %.1f s" % (pid, dis, obl, len(res), nruns, time.time() - t0))
    if lines:
        # confirmed ones first
        for l in sorted(lines, key=lambda x: x.endswith("found")):
            print(l)
        sys.stdout.flush()
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
