"""Runs the proofs of one harness: compile the real headers to IR, generate the obligations, discharge them, replay failures."""
import sys, os, re, subprocess, time, json, hashlib, tempfile, struct, shutil, traceback, multiprocessing as mp
from fractions import Fraction
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VP_REPO", "/repo")
CLANG, OPT = "clang++-18", "opt-18"
SYMFLAGS = ["-std=c++20", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-fno-access-control", "-D_GLIBCXX_ASSERTIONS", "-DVC_SYM", "-DNDEBUG", "-w", "-fno-stack-protector"]
INC = ["-I" + VERIF + "/include", "-I" + REPO + "/include", "-isystem", "/usr/include/concurrentqueue/moodycamel", "-isystem", "/usr/include/eigen3"]
NATFLAGS = ["-std=c++20", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-mavx2", "-mfma", "-pthread", "-fno-access-control", "-w", "-fsanitize=address,undefined", "-fno-sanitize=float-cast-overflow,float-divide-by-zero,alignment,vptr", "-fno-sanitize-recover=undefined"]

class BuildError(Exception): pass

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)

def compile_ir(cpp, out, extra=()):
    a = out + ".0.ll"
    r = sh([CLANG] + SYMFLAGS + list(extra) + INC + ["-S", "-emit-llvm", cpp, "-o", a])
    if r.returncode: raise BuildError(r.stderr[-4000:])
    r = sh([OPT, "-S", "-passes=sroa,simplifycfg<no-sink-common-insts;no-hoist-common-insts>", a, "-o", out])
    if r.returncode: raise BuildError(r.stderr[-4000:])
    os.unlink(a)

def proofs_of(cpp):
    t = open(cpp).read()
    names = re.findall(r"^VC_PROOF\((\w+)\)", t, re.M)
    opts = {n: {} for n in names}
    for n, o in re.findall(r"^//\s*@proof\s+(\S+)\s+(.*)$", t, re.M):
        for x in o.split():
            k, v = x.split("=", 1)
            for q in (names if n == "*" else [n]):
                if q in opts: opts[q][k] = v
    return names, opts

def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, r.stdout.split("\n")))

def val_of(model, t):
    v = model.eval(t, model_completion=True)
    return v

def fl_str(v):
    import z3
    if z3.is_rational_value(v): 
        fr = Fraction(v.numerator_as_long(), v.denominator_as_long())
        try: return repr(float(fr))
        except OverflowError: return "1e30" if fr > 0 else "-1e30"
    if z3.is_algebraic_value(v): return fl_str(v.approx(20))
    if z3.is_fp(v):
        s = str(v)
        if "NaN" in s: return "nan"
        if s in ("oo", "+oo"): return "inf"
        if s == "-oo": return "-inf"
        try: return repr(float(eval(s.replace("*(2**", "*(2.0**"))))
        except Exception: return "0"
    if z3.is_bv_value(v):
        n = v.as_long()
        return repr(struct.unpack("<f", struct.pack("<I", n))[0]) if v.size() == 32 else repr(struct.unpack("<d", struct.pack("<Q", n))[0])
    if z3.is_int_value(v): return fl_bits(v.as_long())
    return "0"
def fl_bits(n): return repr(struct.unpack("<d", struct.pack("<Q", n & (2**64-1)))[0]) if n >> 32 else repr(struct.unpack("<f", struct.pack("<I", n))[0])

def model_values(model, inputs):
    """counterexample -> lines of a values file"""
    import z3
    decls = {d.name(): d for d in model.decls()}
    lines = []
    for kind, name, term, kw in inputs:
        if kind == "int":
            v = val_of(model, term)
            if z3.is_bool(v): n = 1 if z3.is_true(v) else 0
            else: n = v.as_long()
            lines.append(f"{name} {n}")
        elif kind in ("f32", "f64"): lines.append(f"{name} {fl_str(val_of(model, term))}")
        elif kind == "buf":
            n = val_of(model, kw["n"]).as_long(); es = kw["es"]; sym = kw["sym"]
            if n * es > 1 << 20: return None
            data = bytearray(n * es)
            for dn, d in decls.items():
                m = re.match(re.escape(sym) + r"_e(\d+)_(\d+)([rpi])$", dn)
                if m:
                    fo, sz, tg = int(m.group(1)), int(m.group(2)), m.group(3)
                    arr = d()
                    for i in range(n):
                        ix = z3.IntVal(i) if arr.sort().domain() == z3.IntSort() else z3.BitVecVal(i, 64)
                        put(data, i * es + fo, sz, tg, val_of(model, z3.Select(arr, ix)))
                m = re.match(re.escape(sym) + r"_o(\d+)_([if])(\d+)$", dn)
                if m:
                    off, tg, sz = int(m.group(1)), m.group(2), int(m.group(3))
                    put(data, off, sz, "r" if tg == "f" else "i", val_of(model, d()))
            lines.append(f"{name} {data.hex() or '-'}")
    return lines
def put(data, off, sz, tg, v):
    import z3
    if off + sz > len(data): return
    if tg == "i":
        n = v.as_long() if hasattr(v, "as_long") else 0
        data[off:off + sz] = (n & ((1 << (8 * sz)) - 1)).to_bytes(sz, "little")
    else:
        try: f = float(fl_str(v))
        except Exception: f = 0.0
        try: data[off:off + sz] = struct.pack("<f" if sz == 4 else "<d", f)
        except OverflowError: data[off:off + sz] = struct.pack("<f", 3e38 if f > 0 else -3e38)

# ------------------------------------------------------------------ solving
def solve_ob(o, tmo, want_model=True):
    """-> status, backend, seconds, (model values)"""
    import z3
    t0 = time.time()
    if z3.is_true(o.goal): return "proved", "syntactic", 0.0, None
    quant = any(EN.has_quant(h) for h in o.hyps) or EN.has_quant(o.goal)
    ra = EN.range_axioms(list(o.hyps) + [o.goal]) if quant else []
    cfgs = [dict(auto_config=False, mbqi=False), dict()] if quant else [dict()]
    if quant and not EN.has_quant(o.goal):
        s = z3.Solver(); s.set("timeout", 3000)
        s.add(*[h for h in o.hyps if not EN.has_quant(h)]); s.add(z3.Not(o.goal))
        if s.check() == z3.unsat: return "proved", "z3-" + z3.get_version_string(), time.time() - t0, None
    isbv = quant and any(z3.is_bv_sort(x.sort()) for x in consts(list(o.hyps) + [o.goal]))
    if isbv and try_ground(o.hyps, o.goal, 8): return "proved", "z3-" + z3.get_version_string() + "(ground instances)", time.time() - t0, None
    for i, cfg in enumerate(cfgs):
        s = z3.Solver()
        s.set("timeout", int(1000 * (min(6, tmo) if len(cfgs) > 1 and i == 0 else tmo)))
        for k, v in cfg.items(): s.set(k, v)
        s.add(*o.hyps); s.add(z3.Not(o.goal)); s.add(*ra)
        r = s.check()
        if r == z3.unsat: return "proved", "z3-" + z3.get_version_string(), time.time() - t0, None
        if r == z3.sat:
            mv = None
            try: mv = small_model(s, o)
            except Exception: pass
            return "refuted", "z3-" + z3.get_version_string(), time.time() - t0, mv
    # other solvers
    s = z3.Solver(); s.add(*o.hyps); s.add(z3.Not(o.goal)); s.add(*ra)
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    for nm, cmd in (("cvc5-1.1.2", ["cvc5", f"--tlimit={int(tmo*1000)}"]), ("z3-4.8.12", ["z3", f"-T:{int(tmo)}"])):
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(txt)
        try:
            r = subprocess.run(cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=tmo + 10)
            if r.stdout.strip().startswith("unsat"): return "proved", nm, time.time() - t0, None
        except subprocess.TimeoutExpired: pass
        finally: os.unlink(f.name)
    # a candidate counterexample without the quantified hypotheses
    mv = None
    try:
        s = z3.Solver(); s.set("timeout", 4000)
        s.add(*[h for h in o.hyps if not EN.has_quant(h)])
        if not EN.has_quant(o.goal): s.add(z3.Not(o.goal))
        if s.check() == z3.sat: mv = small_model(s, o)
    except Exception: pass
    return "unknown", "z3+cvc5", time.time() - t0, mv
def small_model(s, o):
    import z3
    terms = []
    for kind, name, t, kw in o.inputs:
        if kind == "int" and not z3.is_bool(t) and kw.get("w", 64) == 64: terms.append(t)
        if kind == "buf": terms.append(kw["n"])
    m = s.model()
    s.set("timeout", 3000)
    for lim in (4, 16, 64, 300, 5000, 100000):
        s.push()
        for t in terms:
            if z3.is_int_value(t) or z3.is_bv_value(t): continue
            s.add(t <= lim if t.sort() == z3.IntSort() else z3.ULE(t, lim))
        r = s.check()
        if r == z3.sat: m = s.model(); s.pop(); break
        s.pop()
    return model_values(m, o.inputs)

import engine as EN
from ground import try_ground, consts

def solve_all(todo, tmo, t1, left, jobs):
    """discharge the obligations, in forked workers when there are enough of them to pay for it"""
    out = [None] * len(todo)
    def one(o):
        if time.time() - t1 > left: return ("unknown", "budget", 0.0, None)
        return solve_ob(o, tmo)
    head = todo[:]; i = 0; t0 = time.time()
    while i < len(todo) and time.time() - t0 < 4: out[i] = one(todo[i]); i += 1
    rest = list(range(i, len(todo)))
    if len(rest) < 2 or jobs < 2:
        for k in rest: out[k] = one(todo[k])
        return out
    import select, pickle
    kids = []
    for j in range(min(jobs, len(rest))):
        r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            try:
                os.close(r); res = []
                for k in rest[j::min(jobs, len(rest))]: res.append((k, one(todo[k])))
                with os.fdopen(w, "wb") as f: pickle.dump(res, f)
            finally: os._exit(0)
        os.close(w); kids.append((pid, r))
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            try:
                for k, v in pickle.load(f): out[k] = v
            except Exception: pass
        os.waitpid(pid, 0)
    return [x if x is not None else ("unknown", "solver worker died", 0.0, None) for x in out]

def run_proof(args):
    """one proof function, in its own process; returns a plain dict"""
    ll, name, opts, specs_mod, limit = args
    import z3, ir
    import lib, stl, strlib, iolib
    t0 = time.time()
    res = dict(proof=name, status="error", obligations=[], functions={}, assumed=[], covers={}, notes=[], loops=[], stats={}, error=None)
    try:
        z3.set_param("memory_max_size", 5000)
        m = ir.parse_module(open(ll).read())
        dem = demangle(list(m.funcs) + list(m.decls))
        for f in m.funcs.values(): f.dname = dem.get(f.name, f.name)
        fn = "proof_" + name
        if fn not in m.funcs: res["error"] = "proof function missing"; return res
        eo = {k: (int(v) if re.fullmatch(r"-?\d+", v) else v) for k, v in opts.items() if k not in ("mode", "fl")}
        eo["deadline"] = t0 + limit
        loopspecs, contracts = [], []
        if specs_mod and os.path.exists(specs_mod):
            g = {}
            exec(compile(open(specs_mod).read(), specs_mod, "exec"), g)
            loopspecs = g.get("LOOPS", {}).get(name, g.get("LOOPS", {}).get("*", []))
            contracts = [(re.compile(a), b, c) for a, b, c in g.get("CONTRACTS", {}).get(name, g.get("CONTRACTS", {}).get("*", []))]
        V = lib.Verifier(m, mode=opts.get("mode", "int"), fl=opts.get("fl", "real"), dem=dem, loopspecs=loopspecs, contracts=contracts, opts=eo)
        V.named_checks = {}
        try: V.run(fn)
        except EN.Unsupported as e:
            res["error"] = "unsupported: " + str(e); res["status"] = "unsupported"
            if os.environ.get("VC_DEBUG"): traceback.print_exc()
        res["gen_s"] = round(time.time() - t0, 2)
        res["functions"] = {k: v for k, v in V.used.items()}
        res["assumed"] = sorted(V.assumed); res["covers"] = V.covers; res["stats"] = V.stats; res["loops"] = V.loopnotes
        groups = {}
        for o in V.obls: groups.setdefault(o.name, []).append(o)
        left = max(30.0, limit - (time.time() - t0))
        t1 = time.time(); bad = False
        tmo = float(opts.get("tmo", 20))
        todo, keys = [], {}
        for o in V.obls:
            if o.status == "proved": continue
            key = (o.goal.get_id(), tuple(h.get_id() for h in o.hyps))
            if key not in keys: keys[key] = len(todo); todo.append(o)
            o.slot = keys[key]
        sols = solve_all(todo, tmo, t1, left, int(opts.get("jobs", 3)))
        for nm, os_ in groups.items():
            r = dict(name=nm, n=len(os_), proved=0, backends={}, time=0.0, kind=os_[0].kind, status="proved", fn=os_[0].fn)
            seen = set()
            for o in os_:
                if o.status == "proved":
                    r["proved"] += 1; r["backends"][o.backend] = r["backends"].get(o.backend, 0) + 1; continue
                s, b, t, mv = sols[o.slot]
                if o.slot not in seen: r["time"] += t
                seen.add(o.slot)
                if s == "proved": r["proved"] += 1; r["backends"][b] = r["backends"].get(b, 0) + 1
                else:
                    if r["status"] != "refuted": r["status"] = s
                    r.setdefault("models", [])
                    if mv is not None and len(r["models"]) < 6: r["models"].append(mv)
                    r["solver"] = b
            if r["status"] != "proved": bad = True
            r["time"] = round(r["time"], 3)
            res["obligations"].append(r)
        if res["error"] is None: res["status"] = "failed" if bad else "proved"
        elif bad: res["status"] = "failed" if not res["error"].startswith("unsupported") else "unsupported-failed"
        if res["status"] == "proved" and not any(o["kind"] == "check" for o in res["obligations"]) and opts.get("nocheck") != "1":
            res["status"] = "vacuous"; res["error"] = "no contract obligation was generated"
        if res["status"] == "proved":
            for c, ok in V.covers.items():
                if ok is False: res["status"] = "vacuous"; res["error"] = "cover not reachable: " + c
    except Exception as e:
        res["error"] = f"{type(e).__name__}: {e}"; res["status"] = "error"
        if os.environ.get("VC_DEBUG"): traceback.print_exc()
    res["wall_s"] = round(time.time() - t0, 2)
    return res

if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("cpp"); ap.add_argument("proofs", nargs="*"); ap.add_argument("-v", action="store_true"); ap.add_argument("-t", action="store_true"); ap.add_argument("--limit", type=int, default=600)
    a = ap.parse_args()
    os.environ["VC_DEBUG"] = "1"
    d = tempfile.mkdtemp(prefix="vc_")
    ll = d + "/h.ll"
    t = open(a.cpp).read()
    ex = re.findall(r"^//\s*@flags\s+(.*)$", t, re.M)
    compile_ir(a.cpp, ll, " ".join(ex).split())
    names, opts = proofs_of(a.cpp)
    sp = a.cpp.rsplit(".", 1)[0] + ".spec.py"
    for n in names:
        if a.proofs and n not in a.proofs: continue
        o = dict(opts[n])
        if a.v: o["vloop"] = "1"; o["vq"] = "1"
        if a.t: o["trace"] = "1"
        if os.environ.get("VLOG"): o["vlog"] = "1"
        r = run_proof((ll, n, o, sp, a.limit))
        print(f"== {n}: {r['status']} {r['error'] or ''} gen={r.get('gen_s')} wall={r['wall_s']} covers={r['covers']} stats={r['stats']}")
        for x in r["obligations"]:
            if x["status"] != "proved" or a.v: print("   ", x["status"], x["name"], f"{x['proved']}/{x['n']}", x["time"], x["backends"], (x.get("models") or [])[:1])
    shutil.rmtree(d)
