#!/usr/bin/env python3-vt
"""check.py <PROPERTY> quick|thorough — decides one property on /repo's current working tree.

1. every proof harness of the property is compiled from the real headers to LLVM IR, the verifier generates the proof
   obligations and z3/cvc5 discharge them (deciding step);
2. the same harnesses are compiled natively (sanitizers) — undischarged obligations are replayed with the solver's
   counterexample, then searched for a failing input; bounded stand-ins (functions outside the verifier's reach) run here too.
Exit 0: held on everything explored. Exit 1: VIOLATION line."""
import sys, os, re, json, time, subprocess, tempfile, shutil, signal, multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "llv")); sys.path.insert(0, VERIF)
import verify as V
from registry import PROPS
NATENV = dict(os.environ, ASAN_OPTIONS="handle_abort=1:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=0", VP_REPO=V.REPO)

def proc_main(args, q):
    try: r = V.run_proof(args)
    except BaseException as e: r = dict(proof=args[1], status="error", error=repr(e), obligations=[], functions={}, assumed=[], covers={}, loops=[], stats={}, wall_s=0)
    q.put(r)

def run_one(args, hard):
    ctx = mp.get_context("fork"); q = ctx.SimpleQueue()
    p = ctx.Process(target=proc_main, args=(args, q)); p.start()
    t0 = time.time(); r = None
    while time.time() - t0 < hard:
        if not q.empty(): r = q.get(); break
        if not p.is_alive():
            time.sleep(0.2)
            if not q.empty(): r = q.get()
            break
        time.sleep(0.1)
    if p.is_alive():
        if r is not None: p.join(5)
        if p.is_alive(): p.kill(); p.join()
    if r is None: r = dict(proof=args[1], status="unsupported", error="unsupported: the verifier ran out of time or memory", obligations=[], functions={}, assumed=[], covers={}, loops=[], stats={}, wall_s=round(time.time() - t0, 1))
    return r

def file_flags(cpp):
    return " ".join(re.findall(r"^//\s*@flags\s+(.*)$", open(cpp).read(), re.M)).split()

def build_native(cpp, out, kind):
    fl = file_flags(cpp)
    nat = " ".join(re.findall(r"^//\s*@natflags\s+(.*)$", open(cpp).read(), re.M)).split()
    libs = " ".join(re.findall(r"^//\s*@natlibs\s+(.*)$", open(cpp).read(), re.M)).split()
    if True:
        names, _ = V.proofs_of(cpp)
        src = out + ".main.cpp"
        with open(src, "w") as f:
            f.write(f'#include "{cpp}"\n#include "vc_main.h"\nint main(int c, char **v) {{ static const VcEntry es[] = {{' + ", ".join(f'{{"{n}", proof_{n}}}' for n in names) + "}; return vc_main(c, v, es, %d); }\n" % len(names))
    r = V.sh(["g++"] + V.NATFLAGS + fl + nat + V.INC + [src, "-o", out] + libs, timeout=850)
    if r.returncode: return r.stderr[-3000:]
    return None

def run_native(exe, args, timeout):
    d = tempfile.mkdtemp(prefix="vcrun_")
    try:
        p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=NATENV, cwd=d, start_new_session=True)
        try: o, e = p.communicate(timeout=timeout); rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); o, e = p.communicate(); rc = 124
        return rc, o, e
    finally: shutil.rmtree(d, ignore_errors=True)

def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = PROPS[pid]
    quick = tier != "thorough"
    plimit = P.get("limit", 420) if quick else 1500
    nsecs = P.get("search_s", 6) if quick else 60
    ssecs = P.get("standin_s", 10) if quick else 120
    work = os.path.join(VERIF, "build", f"{pid}-{os.getpid()}"); os.makedirs(work, exist_ok=True)
    rdir = os.path.join(VERIF, "replay"); os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"): os.unlink(os.path.join(rdir, f))
    log = lambda *a: print(*a, flush=True)
    groups = []                      # (cpp, names)
    for ent in P.get("proofs", []):
        f, sel = (ent, None) if isinstance(ent, str) else (ent[0], ent[1])
        cpp = os.path.join(VERIF, "proofs", f)
        names, opts = V.proofs_of(cpp)
        names = [n for n in names if sel is None or n in sel]
        groups.append((cpp, names, opts))
    ssel = {}                        # stand-in file -> selected names (None: all)
    for ent in P.get("standins", []):
        f, sel = (ent, None) if isinstance(ent, str) else (ent[0], ent[1])
        ssel[os.path.join(VERIF, "standins", f)] = sel
    stand = list(ssel)
    NCPU = os.cpu_count() or 4
    ex = ThreadPoolExecutor(max(2, NCPU)); nx = ThreadPoolExecutor(max(2, NCPU // 2))
    # ---- compile
    lls, natexe = {}, {}
    def comp_ll(cpp):
        out = os.path.join(work, os.path.basename(cpp) + ".ll")
        try: V.compile_ir(cpp, out, file_flags(cpp)); return cpp, out, None
        except (V.BuildError, subprocess.TimeoutExpired) as e: return cpp, None, str(e)[-1500:]
    def comp_nat(cpp, kind):
        out = os.path.join(work, kind + "-" + os.path.basename(cpp) + ".exe")
        try: err = build_native(cpp, out, kind)
        except subprocess.TimeoutExpired: err = "compilation timed out"
        return cpp, (out if err is None else None), err
    fl = [ex.submit(comp_ll, g[0]) for g in groups]
    fn = [nx.submit(comp_nat, g[0], "proof") for g in groups] + [nx.submit(comp_nat, s, "standin") for s in stand]
    results, proof_futs, searches, standres, problems = [], [], [], [], []
    for f in fl:
        cpp, out, err = f.result()
        if err: problems.append(f"{os.path.basename(cpp)}: harness does not compile against the current headers: {err[-600:]}")
        else:
            lls[cpp] = out
    for cpp, names, opts in groups:
        if cpp not in lls: continue
        sp = cpp[:-4] + ".spec.py"
        for n in names:
            proof_futs.append((cpp, n, ex.submit(run_one, (lls[cpp], n, dict(opts[n], **({"tmo": "90"} if not quick and "tmo" not in opts[n] else {})), sp, plimit), plimit + 120)))
    # ---- native search of the same contracts, and the stand-ins, meanwhile
    def search(cpp, n, exe, secs, sd):
        lf = os.path.join(work, f"{os.path.basename(os.path.dirname(cpp))}-{os.path.basename(cpp)}.{n}.{sd}.vals")
        rc, o, e = run_native(exe, ["search", n, str(sd), str(secs), lf], secs + 60)
        return cpp, n, rc, o, e, lf
    sf = []
    for f in fn:
        cpp, exe, err = f.result()
        if err: problems.append(f"{os.path.basename(cpp)}: native build failed: {err[-600:]}"); continue
        natexe[cpp] = exe
        if cpp in stand:
            names, opts = V.proofs_of(cpp)
            names = [n for n in names if ssel[cpp] is None or n in ssel[cpp]]
            k = 1 if quick else 2
            for i in range(k):
                for n in names: sf.append((True, nx.submit(search, cpp, n, exe, float(opts[n].get("search", ssecs)) if quick else ssecs, seed + 1000 * i)))
        else:
            for c2, names, opts in groups:
                if c2 == cpp:
                    for n in names:
                        if opts[n].get("native") != "0": sf.append((False, nx.submit(search, cpp, n, exe, float(opts[n].get("search", nsecs)) if quick else nsecs, seed)))
    for cpp, n, f in proof_futs:
        r = f.result(); r["file"] = os.path.basename(cpp); r["cpp"] = cpp; results.append(r)
        log(f"proof {n}: {r['status']} {r.get('error') or ''} obligations={sum(o['n'] for o in r['obligations'])} wall={r['wall_s']}s")
    violations, notes = [], []
    nruns = ndisc = ndist = 0; sruns = {}
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf): known = [k for k in json.load(open(kf)).get("findings", []) if k.get("property") == pid]
    kseen = {}
    def is_known(proof, what):
        for k in known:
            if k.get("proof") == proof and k.get("obligation") in what: kseen[k["text"]] = 1; return True
        return False
    def save_replay(tag, cpp, n, what, vals, extra):
        path = os.path.join(rdir, f"{pid}-{tag}.json")
        json.dump(dict(property=pid, harness=os.path.relpath(cpp, VERIF), proof=n, failed_obligation=what, input=vals, replay=f"build the harness natively (see check.py build_native) and run: <exe> replay {n} <file with the input lines>" if vals else None, verifier_output=extra), open(path, "w"), indent=1)
        return path
    seen_native = {}
    samples = []
    for isst, f in sf:
        cpp, n, rc, o, e, lf = f.result()
        nm = os.path.basename(cpp) + ("" if n == "*" else ":" + n)
        m = re.search(r"runs=(\d+) discarded=(\d+)(?: distinct=(\d+))?", o)
        if m: nruns += int(m.group(1)); ndisc += int(m.group(2)); ndist += int(m.group(3) or 0); sruns[nm] = sruns.get(nm, 0) + int(m.group(1)) - int(m.group(2))
        for s in re.findall(r"^SAMPLE (.*)$", o, re.M)[:2]: samples.append(nm + ": " + s[:300])
        for s in re.findall(r"^KNOWN (.*)$", o, re.M): is_known(n, s) or notes.append("unlisted finding " + s)
        m = re.search(r"^FAIL (\S+) ?(.*)$", o, re.M)
        if m:
            what = m.group(2) or "failure"
            vals = open(lf).read().splitlines() if os.path.exists(lf) else None
            ptn = m.group(1)
            if "memory-error" in what: 
                mm = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|Assertion [^\n]*)", e); what += ": " + (mm.group(1)[:200] if mm else "")
            if is_known(ptn, what): continue
            p = save_replay(f"{ptn}-input", cpp, ptn, what, vals or [f"seed-driven run, stderr: {e[-1500:]}"], e[-3000:])
            violations.append((True, ptn, what, p)); seen_native[ptn] = 1
        elif rc not in (0,):
            notes.append(f"native run of {nm} ended with {rc}: {(o + e)[-300:]}")
            if rc == 124 or rc < 0 or (rc != 0 and rc != 3):
                mm = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)", e)
                if mm or rc in (-6, -11, 134, 139):
                    p = save_replay(f"{os.path.basename(cpp)}-{n.replace('*','all')}-crash", cpp, n, "crash", [f"seed {seed}", e[-1500:]], e[-3000:])
                    violations.append((True, n, "crash: " + (mm.group(1) if mm else str(rc)), p)); seen_native[n] = 1
    # ---- undischarged obligations
    for r in results:
        bad = [o for o in r["obligations"] if o["status"] != "proved"]
        if not bad: continue
        n, cpp = r["proof"], r["cpp"]
        if n in seen_native: continue
        if r["status"] == "unsupported-failed" and not any(o["status"] == "refuted" for o in bad): continue
        bad = [o for o in bad if not is_known(n, o["name"])]
        if not bad: continue
        found = None
        exe = natexe.get(cpp)
        if exe:
            for o in bad:
                for mv in (o.get("models") or []):
                    vf = os.path.join(work, "m.vals"); open(vf, "w").write("\n".join(mv) + "\n")
                    rc, so, se = run_native(exe, ["replay", n, vf], 60)
                    m = re.search(r"^FAIL (\S+) ?(.*)$", so, re.M)
                    if m or rc in (-6, -11, 134, 139): found = (o["name"], mv, (m.group(2) if m else "crash"), se); break
                if found: break
            if not found:
                _, _, rc, so, se, lf = search(cpp, n, exe, 20 if quick else 120, seed + 77)
                m = re.search(r"^FAIL (\S+) ?(.*)$", so, re.M)
                if m: found = (bad[0]["name"], open(lf).read().splitlines() if os.path.exists(lf) else [f"seed {seed+77}"], m.group(2), se)
        detail = dict(obligations=[dict(name=o["name"], status=o["status"], solver=o.get("solver"), instances=o["n"], models=(o.get("models") or [])[:2]) for o in bad][:20], error=r.get("error"))
        if found: violations.append((True, n, found[0] + " / native: " + found[2], save_replay(f"{n}-input", cpp, n, found[0], found[1], detail)))
        else: violations.append((False, n, bad[0]["name"], save_replay(f"{n}-obligation", cpp, n, bad[0]["name"], None, detail)))
    for r in results:
        if r["status"] == "vacuous":
            violations.append((False, r["proof"], "vacuous: " + r["error"], save_replay(f"{r['proof']}-vacuous", r["cpp"], r["proof"], r["error"], None, r["error"])))
    # ---- evidence
    okres = [r for r in results if r["status"] == "proved"]
    nob = sum(o["n"] for r in results for o in r["obligations"]); ndis = sum(o["proved"] for r in results for o in r["obligations"])
    backends = {}
    for r in results:
        for o in r["obligations"]:
            for b, c in o["backends"].items(): backends[b] = backends.get(b, 0) + c
    funcs = {}
    for r in results:
        for k, v in r["functions"].items(): funcs[k] = v
    repof = sorted(k for k in funcs if "alaya" in k or "symqg" in k)
    assumed = sorted({a for r in results for a in r["assumed"]})
    unsup = [dict(proof=r["proof"], reason=r["error"]) for r in results if r["status"] in ("unsupported", "error", "unsupported-failed")]
    cov = dict(obligations=nob, discharged=ndis, checker_cmd=f"python3-vt check.py {pid} {tier} (llv: clang-18 -O0 IR -> opt sroa,simplifycfg -> obligation generator -> z3 5.3.2 / cvc5 1.1.2 / z3 4.8.12)",
        trusted_base=TRUSTED, backends=backends, solver_s=round(sum(o["time"] for r in results for o in r["obligations"]), 2),
        proofs=[dict(name=r["proof"], file=r["file"], status=r["status"], obligations=sum(o["n"] for o in r["obligations"]), gen_s=r.get("gen_s"), wall_s=r["wall_s"], loops_cut=r["stats"].get("loops_cut") if r["stats"] else None) for r in results],
        functions_verified=repof[:200], loop_invariants=[l for r in okres for l in compact(r["loops"])][:60],
        obligation_names=sorted({o["name"][:160] for r in results for o in r["obligations"] if o["kind"] == "check"})[:200],
        evaluations=nruns - ndisc, distinct_nontrivial=ndist, rule="native runs of the same contract harnesses and of the bounded stand-ins on seeded inputs; evaluations: runs whose precondition held; distinct_nontrivial: distinct recorded input sequences among those with at least one input (by hash, counted up to 200000 per harness)",
        native_runs=sruns, samples=(samples or [f"{k}: {v} runs" for k, v in list(sruns.items())[:5]]), bounded_standins=P.get("bounded", []), not_decided_by_proof=unsup, problems=problems + notes)
    level = "proof" if okres and not unsup and not problems else "exploration"
    ev = dict(property=pid, tier="quick" if quick else "thorough", seed=seed, level=level, coverage=cov, assumptions=assumed + P.get("assume", []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for k in known:
        if k["text"] in kseen or k.get("always"): log(f"KNOWN-FINDING: property={pid} {k['text']}")
    for p in problems + notes: log("note:", p[:400])
    log(f"{pid}: {len(okres)}/{len(results)} proofs, {ndis}/{nob} obligations discharged, {nruns-ndisc} native runs, {round(time.time()-t0,1)} s")
    if violations:
        violations.sort(key=lambda v: not v[0])
        inp = [v for v in violations if v[0]] or violations
        for real, n, what, p in inp[:5]:
            log(f"failed: {n}: {what}")
            log(f"VIOLATION property={pid} replay={p}" + ("" if real else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)

def compact(loops):
    out, seen = [], set()
    for l in loops:
        k = (l["function"], l["loop"])
        if k in seen: continue
        seen.add(k); out.append(dict(function=l["function"], loop=l["loop"], invariants=[x[:120] for x in l["invariants"]][:16]))
    return out
TRUSTED = ["clang 18 front end and opt -passes=sroa,simplifycfg (C++ to LLVM IR)", "the llv obligation generator in /verif/llv (IR semantics, memory model, library contracts)", "z3 5.3.2, cvc5 1.1.2, z3 4.8.12",
    "objects reached through different harness inputs do not overlap; operator new succeeds and returns fresh memory", "the shipped compiler (gcc -Ofast) preserves the IR-level behaviour of the source"]
if __name__ == "__main__": main()
