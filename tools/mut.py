#!/usr/bin/env python3
"""mut.py FILE... [id-prefix ...] — mutation campaign: applies each mutant of tools/mutants/FILE.py to a scratch copy of /repo and runs
the property's quick check against it (VP_REPO).  M = [(id, property, file, old, new)...]; ids starting with "r-" are
behaviour-preserving edits, on which the check must stay quiet."""
import sys, os, json, subprocess, shutil, runpy, time
V = "/verif"
def main():
    fs = [a for a in sys.argv[1:] if os.path.exists(f"{V}/tools/mutants/{a}.py")]; pre = [a for a in sys.argv[1:] if a not in fs]
    wt = f"/tmp/mutwt{os.getpid()}"; os.makedirs(wt)
    subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {wt}", shell=True)
    vv = f"/tmp/mutv{os.getpid()}"; subprocess.check_call(["git", "clone", "-q", V, vv]) if 0 else shutil.copytree(V, vv, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
    os.makedirs(vv + "/evidence", exist_ok=True)
    try:
        for f in fs:
            for i, prop, path, old, new in runpy.run_path(f"{V}/tools/mutants/{f}.py")["M"]:
                if pre and not any(i.startswith(p) for p in pre): continue
                p = f"{wt}/{path}"; s = open(p).read()
                if isinstance(old, tuple):           # (anchor, old): the first occurrence after the anchor
                    a = s.find(old[0]); b = s.find(old[1], a) if a >= 0 else -1
                    if b < 0: print(i, "BAD EDIT", a, b, flush=True); continue
                    n = s[:b] + new + s[b + len(old[1]):]
                else:
                    if s.count(old) != 1: print(i, "BAD EDIT", s.count(old), flush=True); continue
                    n = s.replace(old, new)
                open(p, "w").write(n); t = time.time()
                r = subprocess.run(["python3-vt", "check.py", prop, "quick"], cwd=vv, capture_output=True, text=True, env=dict(os.environ, VP_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick"))
                open(p, "w").write(s)
                l = [x[:230] for x in r.stdout.splitlines() if x.startswith(("failed:", "VIOLATION", "note:"))]
                v = {0: "quiet", 1: "caught"}.get(r.returncode, f"rc{r.returncode}")
                bad = (v == "quiet") != i.startswith("r-")
                print(i, prop, v, "<<<<<" if bad else "", f"{time.time()-t:.0f}s", flush=True)
                for x in l[:4]: print("     ", x, flush=True)
                if r.returncode not in (0, 1): print(r.stdout[-500:], r.stderr[-800:], flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True); shutil.rmtree(vv, ignore_errors=True)
main()
