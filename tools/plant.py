#!/usr/bin/env python3
"""plant.py ID [nocheck|notest] — validates seeded/ID in a private mount namespace over a scratch copy of /repo:
demo passes unpatched, patch applies, builds, stable tests pass, demo fails, and whether the property's check catches it."""
import sys, os, json, subprocess, shutil, fcntl
V = "/verif"
def main():
    i = sys.argv[1]; mode = sys.argv[2:] 
    if os.environ.get("VP_NS") != "1":
        for k in range(8):
            lf = open(f"/tmp/wt{k}.lock", "w")
            try: fcntl.flock(lf, fcntl.LOCK_EX | fcntl.LOCK_NB); break
            except BlockingIOError: continue
        wt = f"/tmp/wt{k}"
        if not os.path.exists(wt): subprocess.check_call(["cp", "-a", "/repo", wt])
        subprocess.call(["git", "-C", wt, "checkout", "-q", "--", "."])
        h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
        if subprocess.check_output(["git", "-C", wt, "rev-parse", "HEAD"], text=True).strip() != h:
            subprocess.check_call(["git", "-C", wt, "fetch", "-q", "/repo", "HEAD"]); subprocess.check_call(["git", "-C", wt, "checkout", "-q", h])
        os.environ["VP_NS"] = "1"; os.environ["VP_WT"] = wt
        r = subprocess.call(["unshare", "-m", "bash", "-c", f"mount --bind {wt} /repo && exec python3 {__file__} " + " ".join(sys.argv[1:])])
        subprocess.call(["git", "-C", wt, "checkout", "-q", "--", "."])
        sys.exit(r)
    d = f"{V}/seeded/{i}"; meta = json.load(open(d + "/meta.json")); out = {}
    tmpd = f"/tmp/demo_{i}"; shutil.rmtree(tmpd, ignore_errors=True); shutil.copytree(d, tmpd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    demo = lambda: subprocess.run(["bash", tmpd + "/demo.sh"], cwd="/repo", capture_output=True, text=True, timeout=300)
    r = demo(); out["demo_clean"] = r.returncode
    if r.returncode: print(r.stdout[-800:], r.stderr[-1500:])
    r = subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], capture_output=True, text=True)
    if r.returncode: print("patch does not apply", r.stderr); sys.exit(2)
    r = demo(); out["demo_patched"] = r.returncode; print("demo patched:", (r.stdout + r.stderr)[-300:])
    if "notest" not in mode:
        res = f"/tmp/res_{i}.json"
        r = subprocess.run(["bash", "/opt/vp/test.sh", res], capture_output=True, text=True)
        b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open(res))
        st = b.get("stable") or b.get("passed") or b.get("stable_pass")
        miss = [x for x in st if x not in set(t["passed"])]
        out["tests_missing"] = miss[:8]; out["tests_passed"] = len(t["passed"])
    if "nocheck" not in mode:
        e = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run(["python3-vt", "check.py", meta["property"], "quick"], cwd=V, capture_output=True, text=True, env=e)
        out["check_rc"] = r.returncode
        out["check"] = [l[:300] for l in r.stdout.splitlines() if l.startswith(("failed:", "VIOLATION", "note:"))] or r.stdout[-300:] + r.stderr[-300:]
    shutil.rmtree(tmpd, ignore_errors=True)
    ok = out["demo_clean"] == 0 and out["demo_patched"] != 0 and not out.get("tests_missing")
    print(i, "COUNTS" if ok else "INVALID", "CAUGHT" if out.get("check_rc") == 1 else "MISSED" if "check_rc" in out else "", json.dumps(out, indent=0))
main()
